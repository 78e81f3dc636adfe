#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s |' % (d, m['property'] if m.get('caught', True) else '(missed) ' + m['property'], m['needs']))
p = V + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('@TABLE@', t) if '@TABLE@' in s else re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
