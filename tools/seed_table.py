#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
s = open(here + '/DESIGN.md').read()
head = '| planted bug | caught by | needs |\n|---|---|---|\n'
a = s.index(head) + len(head)
b = s.index('\n\n', a)
s = s[:a] + '\n'.join(rows) + s[b:]
s = re.sub(r'\d+ changes in `seeded/`', '%d changes in `seeded/`' % len(rows), s)
open(here + '/DESIGN.md', 'w').write(s)
