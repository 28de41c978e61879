#!/bin/bash
# usage: try.sh ID... : runs the check of each planted bug's property against a scratch copy of /repo that has it
for ID in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
  [ -n "$PID" ] && P=$PID
  W=/tmp/tryrepo-$ID
  [ -d "$W" ] && rm -rf "$W"
  git clone -q /repo "$W"; cp /repo/Cargo.lock "$W/" 2>/dev/null
  git -C "$W" apply /verif/seeded/$ID/patch.diff || continue
  s=$(date +%s); VERIF_REPO=$W timeout 900 python3 /verif/check.py $P $ARGS >/tmp/try-$ID.log 2>&1; rc=$?
  [ -d "$W" ] && rm -rf "$W"
  echo "$ID $P exit $rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/try-$ID.log)"
done
