#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the typed syntax tree (symbolic canonical-form domain)'
T = {}
exec(open(os.path.join(V, 'tools', 'table.py')).read())
checks = []
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    if p in T:
        tech, note = T[p]
        s = 'python3-vt checks/%s.py' % p.lower()
        checks.append({'property': p, 'quick_cmd': s, 'thorough_cmd': 'VERIF_TIER=thorough ' + s, 'technique': tech,
                       'level': 'other', 'level_note': note})
na = [{'property': p, 'reason': NA.get(p, 'no check yet')} for p in props if p not in T]
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
