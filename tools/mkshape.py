#!/usr/bin/env python3
"""mkshape.py REP.json...: specs/SHAPE.json from extraction reports of the original tree (one per feature set):
the notes and inlinings that are normal there and the shape of every loop"""
import json, os, sys
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes, loops = set(), {}
for p in sys.argv[1:]:
    r = json.load(open(p))
    notes |= set(r['notes']) | set(r['inlined'])
    for k, s in r['shapes'].items():
        assert loops.setdefault(k, s) == s, k
json.dump(dict(notes=sorted(notes), loops=dict(sorted(loops.items()))), open(os.path.join(v, 'specs', 'SHAPE.json'), 'w'), indent=1)
