#!/usr/bin/env python3
"""usage: mkseed.py ID PROPERTY FILE : reads from FILE python variables EDITS [(path, old, new)], NEEDS, BREAKS, DEMO (rust body of main)"""
import sys, os, subprocess, json, shutil
ID, spec = sys.argv[1], sys.argv[2]
ns = {}
exec(open(spec).read(), ns)
W = '/tmp/mk'
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', W])
for p, a, b in ns['EDITS']:
    f = os.path.join(W, p); s = open(f).read()
    assert s.count(a) == 1, (p, s.count(a), a)
    open(f, 'w').write(s.replace(a, b))
d = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
S = '/verif/seeded/' + ID
os.makedirs(S, exist_ok=True)
open(S + '/patch.diff', 'w').write(d)
pre = open('/verif/tools/demo_pre.rs').read()
open(S + '/demo.rs', 'w').write(pre + ns.get('PRE', '') + 'fn main() {\n' + ns['DEMO'] + '\n}\n')
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(S + '/meta.json', 'w'), indent=1)
shutil.rmtree(W)
sys.exit(subprocess.call(['bash', '/verif/tools/plant.sh', ID]))
