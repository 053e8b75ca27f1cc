#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in os.listdir(R + '/seeded'):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows.append((m['property'], d, m['what_it_breaks'], m['needs']))
t = '| property (caught by its check) | bug | effect | needs |\n|---|---|---|---|\n'
t += ''.join('| %s | `%s` | %s | %s |\n' % r for r in sorted(rows))
p = R + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda m: '<!-- seeded -->\n' + t + '<!-- /seeded -->', s, flags=re.S)
open(p, 'w').write(s)
