#!/usr/bin/env python3
"""mkclauses.py GEN.rs REP.json: lists, per property, the clauses that carry it (CLAUSES.md), from an extraction with feature stats"""
import collections, importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = importlib.util.spec_from_file_location('check', V + '/check.py')
check = importlib.util.module_from_spec(sp)
sp.loader.exec_module(check)
lines = open(sys.argv[1]).read().split('\n')
rep = json.load(open(sys.argv[2]))
seen = {t[2]: t for t in check.clause_tags(lines).values()}
by = collections.defaultdict(collections.OrderedDict)
for span in sorted(seen):
    tags, text, _ = seen[span]
    fn = ([f['fn'] for f in rep['fns'] if f['start'] <= span[0] <= f['end']] or ['(assumed operations and traits)'])[0]
    for g in tags:
        by[g].setdefault(fn, []).append(text or 'invariant or memory safety')
title = {j['id']: j['title'] for j in map(json.loads, open(V + '/properties.jsonl'))}
with open(V + '/CLAUSES.md', 'w') as f:
    f.write('# Clauses per property (generated by tools/mkclauses.py)\n')
    for g in sorted(by):
        f.write(f"\n## {g} {title[g]}: {sum(map(len, by[g].values()))} clauses on {len(by[g])} functions\n\n")
        for fn, xs in by[g].items():
            f.write(f"* `{fn}`: {'; '.join(dict.fromkeys(xs))}\n")
