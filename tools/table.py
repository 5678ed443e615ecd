#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    c = lambda s: ' '.join(s.split()).replace('|', '\\|')
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), c(m['what_it_breaks']), c(m['needs'])))
rows.sort()
t = '| property | id | what it breaks | needs |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % r for r in rows)
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- table -->\n).*?(<!-- end of table -->)', lambda m: m[1] + t + m[2], s, flags=re.S)
open(p, 'w').write(s)
