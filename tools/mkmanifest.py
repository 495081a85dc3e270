#!/usr/bin/env python3
"""writes MANIFEST.json from claims.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + '/claims.json'))
checks = []
for p, c in C.items():
    if p.startswith('_') or c.get('na'):
        continue
    proof = c['level'] == 'proof'
    d = dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {p}',
             technique=c.get('technique', ('deductive verification (Verus contracts on functions extracted from /repo' + (', Kani for conditions on floats' if c.get('also') else '') + '), failing-input search on the real crate') if proof
             else 'contract verification of the surrounding code (Verus); this property decided by bounded search on the real crate'),
             level=c['level'], level_note=c['note'])
    if c.get('theorems'):
        d['theorems'] = c['theorems']
    checks.append(d)
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks,
         not_applicable=[dict(property=p, reason=c['na']) for p, c in C.items() if not p.startswith('_') and c.get('na')],
         notes='No hooks were added to /repo. Four fix: commits, see known-findings.txt. DESIGN.md states per property what is proved and what is bounded.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(m['not_applicable']), 'n/a')
