#!/usr/bin/env python3
"""addfix.py PROP...: record the last commit(s) of /repo, one per PROP, oldest first, as fixed findings."""
import json, subprocess, sys
props = sys.argv[1:]
log = subprocess.run(['git', '-C', '/repo', 'log', f'-{len(props)}', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.strip().split('\n')
p = '/verif/known_findings.json'
d = json.load(open(p))
for prop, l in zip(props, log):
    h, m = l.split(' fix: ', 1)
    if not any(x['id'] == 'fixed-' + h for x in d):
        d.append({'id': f'fixed-{h}', 'property': prop, 'fixed': True, 'what': f'fixed: property={prop} {h} {m}'})
        print(d[-1]['what'])
json.dump(d, open(p, 'w'), indent=1)
