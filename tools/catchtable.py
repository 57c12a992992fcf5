#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, 'DESIGN.md')
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    rows.append('| %s | %s quick | %s |' % (b, m['property'], ' '.join(str(m['needs']).split()).replace('|', '\\|')))
t = open(d).read()
a, z = '<!-- catch -->', '<!-- /catch -->'
block = a + '\n' + '\n'.join(rows) + '\n' + z
if a in t:
    t = t[:t.index(a)] + block + t[t.index(z) + len(z):]
else:
    t = t.replace('CATCHTABLE', block)
open(d, 'w').write(t)
