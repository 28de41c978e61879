#!/usr/bin/env python3
"""writes MANIFEST.json from lib/specs.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'lib'))
from specs import SPECS
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
exec(open(os.path.join(H, 'lib/na.py')).read())
checks = []
na = []
for p in props:
    i = p['id']
    if i in SPECS:
        s = SPECS[i]
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            technique='symbolic execution of the compiled code (LLVM IR) with z3: every path within the bounds, counterexamples replayed natively',
            level='model_checking',
            level_note='Holds for every value of the symbolic inputs within: %s. Outside: %s. Trusted: the symbolic executor (engine/), the in-memory file system model (harness/src/vfs.rs), the oracle in harness/src/checks, rustc and z3; a sample of the explored paths is compared with native runs on a real file system on every run.' % (s['bounds'], s['outside'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not yet built')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks drive the public API only. check.py rebuilds harness + /repo crate into LLVM IR from the current tree on every run; results of a previous identical tree are not reused, only its compiled module.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
