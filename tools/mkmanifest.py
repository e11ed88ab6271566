#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per property which has one in checks/, the others as not applicable."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = ''.join(open(os.path.join(here, 'checks', f)).read() for f in sorted(os.listdir(os.path.join(here, 'checks'))) if f.endswith('_checks.py'))
have = set(re.findall(r'^def ([A-Z]\d\d)\(\)', code, re.M))
NA = {}
exec(open(os.path.join(here, 'tools', 'not_applicable.py')).read())
TECH = {}
exec(open(os.path.join(here, 'tools', 'techniques.py')).read())
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    d = json.loads(line)
    p = d['id']
    if p in have and p not in NA:
        tech, level, note = TECH[p]
        checks.append({'property': p, 'quick_cmd': f'python3 check.py {p} quick', 'thorough_cmd': f'python3 check.py {p} thorough',
                       'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'No check has been built for it yet.')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
