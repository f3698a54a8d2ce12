#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json; all of them are confirmed caught by
tools/seedtest.py before they are committed, the exceptions are named on the command line."""
import json, glob, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (i, '**missed**' if i in sys.argv[1:] else 'check ' + m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
s = open(R + '/DESIGN.md').read()
a, b = '<!-- seeded -->', '<!-- /seeded -->'
open(R + '/DESIGN.md', 'w').write(s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):])
