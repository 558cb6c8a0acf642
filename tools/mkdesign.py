#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
p = os.path.join(d, 'DESIGN.md')
head = open(p).read().split('| bug | needs |')[0]
rows = ''
for i in sorted(os.listdir(os.path.join(d, 'seeded'))):
    rows += '| %s | %s |\n' % (i, json.load(open(os.path.join(d, 'seeded', i, 'meta.json')))['needs'])
open(p, 'w').write(head + '| bug | needs |\n|---|---|\n' + rows)
