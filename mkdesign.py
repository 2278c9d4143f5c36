#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md from design.in.md, MANIFEST.json and seeded/."""
import json, os, glob
os.chdir(os.path.dirname(os.path.abspath(__file__)))
t = open('design.in.md').read()
m = json.load(open('MANIFEST.json'))
t = t.replace('@@NA@@', '\n'.join('* %s – %s' % (n['property'], n['reason']) for n in m['not_applicable']))
rows = ['| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
miss = json.load(open('seedtools/missed.json')) if os.path.exists('seedtools/missed.json') else []
for d in sorted(glob.glob('seeded/*/meta.json')):
    j = json.load(open(d)); i = d.split('/')[1]
    one = lambda s: s.replace('\n', ' ').replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (i, one(j['what_it_breaks']), one(j['needs']), 'not caught' if i in miss else j['property']))
t = t.replace('@@SEEDS@@', '\n'.join(rows)).replace('@@MORE@@', '')
open('DESIGN.md', 'w').write(t)
