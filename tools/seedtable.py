#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json and seeded/CAUGHT."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = V + '/seeded/' + d + '/meta.json'
    if os.path.exists(m):
        j = json.load(open(m)); rows.append((j['property'], d, j['needs'], j['what_it_breaks'], j.get('caught_by', j['property'])))
rows.sort()
t = open(V + '/DESIGN.md').read()
mark = '<!-- table -->\n'
t = t[:t.index(mark) + len(mark)] if mark in t else t.rstrip('\n') + '\n\n' + mark
t += '\n| property | change | needs | breaks | caught by |\n|---|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s | %s |\n' % (r[0], r[1], r[2].replace('|', '/'), r[3].replace('|', '/'), r[4]) for r in rows)
open(V + '/DESIGN.md', 'w').write(t)
