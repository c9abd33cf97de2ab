#!/usr/bin/env python3
"""Rewrites the table at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(root + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks']))
rows.sort()
t = '| property | planted bug | needs | breaks |\n|---|---|---|---|\n'
t += ''.join('| %s | %s | %s | %s |\n' % tuple(x.replace('|', '/') for x in r) for r in rows)
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + t + s[j:])
