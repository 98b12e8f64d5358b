#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks present and the texts below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from manifest_texts import T, NA
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i.lower())):
        t = T[i]
        checks.append({'property': i, 'quick_cmd': './check.py %s --tier quick' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                       'technique': t[0], 'level': 'model_checking', 'level_note': t[1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the checks compile its sources with their own flags', 'source_commits': []},
           'checks': checks, 'not_applicable': na, 'notes': 'Every check compiles what it needs from /repo into /verif/build (ignored by git).'},
          open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks;', 'unclaimed:', [x['property'] for x in na])
