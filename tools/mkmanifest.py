#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from mc/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'mc'))
import checks as C
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = getattr(C, 'NOT_APPLICABLE', {})
checks, na = [], []
for p in props:
    i = p['id']
    if i in C.CLAIMED:
        t, n = C.TECH.get(i, C.TECH_DEFAULT)
        checks.append({'property': i, 'quick_cmd': 'python3 mc/run.py %s --tier quick' % i, 'thorough_cmd': 'python3 mc/run.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 mc/build.py apron', 'hooks': {'guard': 'none', 'enable': 'no hooks were added to /repo; the checks compile its unmodified sources', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
