#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_*.md and the catch table tools/catches.txt (one line per planted bug)."""
import os, sys, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
head = open(os.path.join(V, 'tools', 'design_head.md')).read()
per = {}
for b in open(os.path.join(V, 'tools', 'design_props.md')).read().split('\n## ')[1:]:
    per[b[:3]] = b[4:].strip()
m = {c['property']: c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}
out = [head.rstrip(), '', '## 4. Property by property', '']
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    out += ['### %s %s' % (i, d['title']), '', '*Technique:* %s.' % m[i]['technique'], '', per[i], '', '*Bounds:* %s' % m[i]['level_note'], '']
out += ['## 5. Planted bugs and the checks that catch them', '', '| id | property | what it needs | caught by |', '|---|---|---|---|']
cat = dict(l.split(None, 1) for l in open(os.path.join(V, 'tools', 'catches.txt')) if l.strip())
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    j = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (s, j['property'], j['needs'], cat.get(s, '?').strip()))
out += ['', open(os.path.join(V, 'tools', 'design_tail.md')).read().rstrip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
