#!/usr/bin/env python3
"""Rewrite the planted-bug table in DESIGN.md (between the SEEDED markers) from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(root + '/seeded/*/meta.json'):
    j = json.load(open(m))
    c = lambda t: re.sub(r'\s+', ' ', t).replace('|', '/').strip()
    rows.append((j['property'], os.path.basename(os.path.dirname(m)), c(j['what_it_breaks']), c(j['needs'])))
rows.sort()
t = '<!-- SEEDED -->\n| caught by | change | what it breaks | needs |\n|---|---|---|---|\n'
t += ''.join('| %s | %s | %s | %s |\n' % r for r in rows) + '<!-- /SEEDED -->'
p = root + '/DESIGN.md'
s = open(p).read()
s = s.replace('CATCHTABLE', t) if 'CATCHTABLE' in s else re.sub(r'<!-- SEEDED -->.*?<!-- /SEEDED -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
