#!/usr/bin/env python3
"""DESIGN.md from tools/design.in, the properties, MANIFEST.json and the planted bugs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
ch = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
out = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in ch:
        out.append('Decided by %s. %s\n' % (ch[i]['technique'], ch[i]['level_note']))
        if i in NOTES:
            out.append(NOTES[i].strip() + '\n')
    else:
        out.append('Not claimed: %s\n' % na[i])
seeds = ['| bug | property | what it breaks | caught |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], MISSED.get(s, 'yes')))
t = open(os.path.join(V, 'tools', 'design.in')).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(t.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(seeds)))
