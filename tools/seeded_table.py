#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between its markers)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(m)); rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['needs']))
rows.sort()
t = '<!-- seeded -->\n| caught by | planted bug | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in rows) + '<!-- /seeded -->'
p = H + '/DESIGN.md'; s = open(p).read()
s = s.replace('@SEEDED@', t) if '@SEEDED@' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
