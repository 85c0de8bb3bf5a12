#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md; results come from tools/seeded_results.txt (id verdict seed)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
f = H + '/tools/seeded_results.txt'
if os.path.exists(f):
    for l in open(f):
        a = l.rstrip('\n').split('\t')
        res[a[0]] = a[1:]
print('| planted bug | property | needs | caught by the quick check |\n|---|---|---|---|')
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    print('| %s | %s | %s | %s |' % (i, d['property'], d['needs'].replace('|', '/').replace('\n', ' '), ' '.join(res.get(i, ['?']))))
