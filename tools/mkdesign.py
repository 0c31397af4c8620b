#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in, tools/props.md and seeded/*/meta.json"""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs']))
t = open(V + '/tools/DESIGN.in').read().replace('@@PROPS@@', open(V + '/tools/props.md').read()).replace('@@SEEDS@@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(t)
