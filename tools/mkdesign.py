#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl, the table of properties, known-findings.txt and seeded/."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
M = json.load(open(V + '/MANIFEST.json'))
checks = {}
for c in M.get('checks', M.get('properties', [])):
    checks[c.get('property') or c.get('property_id') or c.get('id')] = c
rows = []
for p in sorted(P, key=lambda p: p['id']):
    c = checks.get(p['id'], {})
    t = c.get('technique', '').replace('runtime monitoring: ', '')
    rows.append('| %s | %s | %s | %s |' % (p['id'], p['title'], t, c.get('notes', c.get('note', c.get('level_note', '')))))
T = open(V + '/tools/DESIGN.tmpl').read()
T = T.replace('@TABLE@', '\n'.join(rows))
fx = []
for l in open(V + '/known-findings.txt'):
    if l.startswith('fixed:'):
        _, prop, h, rest = l.rstrip().split(' ', 3)
        fx.append('* %s (%s): %s' % (prop.split('=')[1], h, rest))
T = T.replace('@FIXES@', '%d defects were repaired in /repo, one `fix:` commit each:\n\n%s' % (len(fx), '\n'.join(fx)))
first = {}
if os.path.exists(V + '/tools/seeds-first.txt'):
    for l in open(V + '/tools/seeds-first.txt'):
        k, v = l.rstrip().split(' ', 1)
        first[k] = v
sd = ['| id | property | what it breaks | needs | caught by |', '|----|----|----|----|----|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    sd.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), first.get(i, m['property'])))
T = T.replace('@SEEDS@', '\n'.join(sd))
open(V + '/DESIGN.md', 'w').write(T)
