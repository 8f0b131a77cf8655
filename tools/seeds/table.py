#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__)) + '/../..'
rows = []
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['what_it_breaks'].replace('|', '/'), d['property']))
t = '| planted | what it breaks | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds: \d* -->\n.*?<!-- end -->', lambda _: '<!-- seeds: %d -->\n%s<!-- end -->' % (len(rows), t), s, flags=re.S)
open(p, 'w').write(s)
print(len(rows))
