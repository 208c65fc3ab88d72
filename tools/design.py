#!/usr/bin/env python3
"""Regenerate the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
rows = ['| id | property | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json'), key=lambda f: int(re.search(r's(\d+)', f)[1])):
    d = json.load(open(f))
    rows.append(f"| {f.split('/')[1]} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |".replace('\n', ' '))
s = open('DESIGN.md').read()
a = s.index('| id | property | needs | breaks |'); b = s.index('\n\n', a)
open('DESIGN.md', 'w').write(s[:a] + '\n'.join(rows) + s[b:])
