#!/usr/bin/env python3
"""writes DESIGN.md"""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(H, 'tools')
sys.path.insert(0, os.path.join(H, 'lib'))
from specs import SPECS
rd = lambda p: open(os.path.join(T, p)).read()
out = [rd('design_head.md'), '\n## 2. Properties\n\nFor each: what is decided, against which oracle, within which bounds. Cost: of the last quick run (paths, z3 queries, seconds of z3; wall time) on 8 cores.\n']
orc = json.loads(rd('oracles.json'))
cost = json.loads(rd('cost.json')) if os.path.exists(os.path.join(T, 'cost.json')) else {}
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l); i = p['id']; s = SPECS[i]
    out.append('### %s %s\n\n%s\n' % (i, p['title'], p['statement']))
    out.append('- Anchored in: %s' % ', '.join(p['anchors']['files']))
    out.append('- Decided by: %s' % ', '.join('`%s`' % r['entry'] for r in s['runs']))
    out.append('- Oracle: %s' % orc[i])
    out.append('- Bounds: %s' % s['bounds'])
    out.append('- Outside: %s' % s['outside'])
    for a in s['assumptions']: out.append('- Assumption: %s' % a)
    if i in cost: out.append('- Cost: ' + cost[i])
    out.append('')
tail = rd('design_tail.md')
k = json.load(open(os.path.join(H, 'known_findings.json')))
tail = tail.replace('@FIXED@', '\n'.join('- ' + f for f in k['fixed']))
missed = json.loads(rd('missed.json'))
rows = ['| bug | property | what it breaks | first |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(H, 'seeded/*/meta.json'))):
    m = json.load(open(d)); n = d.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '\\|'), 'missed' if n in missed else 'caught'))
tail = tail.replace('@SEEDS@', '\n'.join(rows))
out.append(tail)
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
