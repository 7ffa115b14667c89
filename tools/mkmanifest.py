#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = plan.VERIF
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.PLAN:
        q = plan.PLAN[i]
        checks.append(dict(property=i, quick_cmd='bash bin/check %s quick' % i, thorough_cmd='bash bin/check %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=q.get('technique', 'contract-based deductive verification (Verus on mechanically extracted real functions)'), level=q['level'], level_note=q.get('note', '')))
    else:
        na.append(dict(property=i, reason=plan.NA.get(i, 'not built yet')))
m = dict(version=1, setup_cmd='bash bin/setup', checks=checks, not_applicable=na, notes=plan.NOTES)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
