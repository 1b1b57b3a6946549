#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['needs'], m['property']))
p = root + '/DESIGN.md'
s = open(p).read()
a = s.index('| planted change |')
b = s.index('\n\n', a)
s = s[:a] + '| planted change | needs | caught by |\n|---|---|---|\n' + '\n'.join(rows) + s[b:]
open(p, 'w').write(s)
