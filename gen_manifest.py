#!/usr/bin/env python3
"""Generates MANIFEST.json; the claimed properties are those with a check module."""
import json, os, importlib
H = os.path.dirname(os.path.abspath(__file__))
TECH = json.load(open(os.path.join(H, 'techniques.json')))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = TECH['not_applicable']
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'fds', 'checks', i.lower() + '.py')) and i in TECH['checks']:
        t = TECH['checks'][i]
        checks.append(dict(property=i, quick_cmd='python3 run.py check %s' % i, thorough_cmd='python3 run.py check %s --tier thorough' % i,
                           technique=t[0], level='other', level_note=t[1]))
    else:
        na.append(dict(property=i, reason=NA[i]))
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
