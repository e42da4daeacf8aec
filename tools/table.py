#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 7) from seeded/*/meta.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | what it needs | what breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), m['property']))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->\n'
s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
