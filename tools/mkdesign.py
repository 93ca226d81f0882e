#!/usr/bin/env python3
"""regenerates the table of planted bugs and the counts at the end of DESIGN.md"""
import glob
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
i = s.index('| seed | property |')
rows = ['| seed | property | change | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s | %s; needs %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs'], m['property']))
s = s[:i] + '\n'.join(rows) + '\n'
n = {f: len(re.findall('^== ', open(os.path.join(here, 'tools', f)).read(), re.M)) for f in ('mutants.txt', 'equal.txt')}
for f in n:
    s = re.sub(r'(`tools/%s`, about )\d+' % f.replace('.', r'\.'), r'\g<1>%d' % n[f], s)
open(p, 'w').write(s)
print(len(rows) - 2, n)
