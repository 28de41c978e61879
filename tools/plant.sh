#!/bin/bash
# usage: plant.sh ID : confirms seeded/ID (compiles, stable tests pass, demo passes without and fails with it)
ID=$1; S=/verif/seeded/$ID; W=/tmp/sw
cp /verif/tools/demo.sh "$S/demo.sh"; cp /verif/tools/demo.lock "$S/demo.lock"
rm -rf /tmp/sw; cp -a /repo $W; cd $W || exit 1
bash $S/demo.sh >/tmp/plant.log 2>&1 || { echo "$ID: demo fails on the unchanged tree"; tail -5 /tmp/plant.log; exit 1; }
git apply $S/patch.diff || { echo "$ID: does not apply"; exit 1; }
. /opt/vp/env.sh
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/plant.test 2>&1
python3 - <<P
import json,re
b=json.load(open('/opt/vp/BASELINE.json'))
names=json.dumps(b)
ok=set(re.findall(r'^test (\S+) .*ok$',open('/tmp/plant.test').read(),re.M))
fail=set(re.findall(r'^test (\S+) .*FAILED$',open('/tmp/plant.test').read(),re.M))
bad=[f for f in fail if f in names]
import sys
print('$ID: tests ok %d failed %s baseline-failed %s'%(len(ok),sorted(fail),bad))
sys.exit(1 if bad or len(ok)<30 else 0)
P
[ $? = 0 ] || exit 1
bash $S/demo.sh >/tmp/plant.log 2>&1 && { echo "$ID: demo PASSES with the patch"; exit 1; }
tail -2 /tmp/plant.log | cut -c1-200
echo "$ID: confirmed"
rm -rf /tmp/sw
