#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.abspath(__file__))
rows = []
for i in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks']))
t = '<!-- planted -->\n| change | caught by the check of | needs | what it breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /planted -->'
p = H + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
