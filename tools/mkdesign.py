#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md"""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, 'seeded')
rows = []
for d in os.listdir(S):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    rows.append((m['property'], d, m['needs']))
t = '<!-- planted -->\n| bug | caught by | needs |\n| --- | --- | --- |\n' + ''.join(
    '| %s | %s | %s |\n' % (d, p, n) for p, d, n in sorted(rows)) + '<!-- /planted -->'
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = s.replace('SEEDTABLE', '<!-- planted --><!-- /planted -->')
s = re.sub(r'<!-- planted -->.*?<!-- /planted -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
