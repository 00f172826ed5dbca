#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md from known_findings.json and seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); f = V + '/DESIGN.md'; s = open(f).read()
missed = json.load(open(V + '/tools/missed.json'))
fx = ['* ' + x.replace('fixed: property=', '', 1) for x in json.load(open(V + '/known_findings.json'))['fixed']]
rows = ['| bug | check | needs | first missed because |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/')):
    i = d.split('/')[-2]; m = json.load(open(d + 'meta.json')); rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), missed.get(i, '')))
def put(s, k, t): return re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (k, k), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (k, t, k), s, flags=re.S)
s = put(s, 'fixed', '\n'.join(fx)); s = put(s, 'seeded', '\n'.join(rows)); open(f, 'w').write(s)
