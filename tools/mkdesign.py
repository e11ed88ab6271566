#!/usr/bin/env python3
"""Fills the tables of DESIGN.md.in into DESIGN.md: properties and techniques, findings, planted bugs (tools/seeded_results.json)."""
import collections, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t = open('tools/DESIGN.md.in').read()
man = json.load(open('MANIFEST.json'))
props = {}
for l in open('properties.jsonl'):
    d = json.loads(l); props[d['id']] = d
checks = {}
for c in man.get('checks', man.get('properties', [])):
    checks[c.get('property') or c.get('id') or c.get('property_id')] = c
NOTES = json.load(open('tools/design_notes.json')) if os.path.exists('tools/design_notes.json') else {}
g = {'TECH': {}}
exec(open('tools/techniques.py').read(), g)
out = []
for p, d in props.items():
    tech = g['TECH'][p]
    out.append(f"**{p} {d['title']}.** {tech[0]}. {tech[2]}" + (' ' + NOTES[p] if p in NOTES else ''))
t = t.replace('@PROPS@', '\n\n'.join(out))
k = [e for e in json.load(open('known_findings.json')) if e.get('fixed')]
t = t.replace('@NFIX@', str(len(k)))
c = collections.Counter(e['property'] for e in k)
t = t.replace('@FIXCOUNT@', ', '.join(f'{p} {c[p]}' for p in props if c[p]))
res = json.load(open('tools/seeded_results.json')) if os.path.exists('tools/seeded_results.json') else {}
rows = ['| id | property | needs | caught |', '|---|---|---|---|']
for s in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{s}/meta.json'))
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {res.get(s, '?')} |")
t = t.replace('@SEEDS@', '\n'.join(rows))
open('DESIGN.md', 'w').write(t)
