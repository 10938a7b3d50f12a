#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '<!-- planted bugs -->'
s = open(V + '/DESIGN.md').read().split(M)[0].rstrip() + '\n\n' + M + '\n\n| planted | caught by | needs |\n|-|-|-|\n'
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(p))
    s += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(p)), m['property'], m['needs'].replace('|', '/').replace('\n', ' '))
open(V + '/DESIGN.md', 'w').write(s)
