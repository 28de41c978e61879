#!/usr/bin/env python3
"""replay.py FILE.rep : runs a recorded counterexample in the natively compiled code"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
t = open(sys.argv[1]).read()
e = [l.split()[1] for l in t.splitlines() if l.startswith('entry ')][0]
eng, d = check.build()
st, notes, det = check.native(d, e, t)
print(st, det)
for n in notes:
    print('  ', n[0], '=', bytes.fromhex(n[1]).decode('utf8', 'replace') if len(n) > 1 else '')
sys.exit(0 if st == 'ok' else 1)
