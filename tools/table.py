"""python3 tools/table.py: the table of planted bugs at the end of DESIGN.md, from seeded/*/meta.json and tools/trials.txt"""
import glob
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(f'{R}/DESIGN.md').read()
mark = '## Table of planted bugs\n'
d = d.split(mark)[0].rstrip() + '\n\n' + mark + '\nEach is caught by the quick check of its property (exit 1, VIOLATION) unless a remark says otherwise.\n\n' \
    '| id | property | needs | breaks | remark |\n|---|---|---|---|---|\n'
rem = dict(l.rstrip('\n').split('|', 1) for l in open(f'{R}/tools/trials.txt') if '|' in l)
for f in sorted(glob.glob(f'{R}/seeded/*/meta.json')):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    d += f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {rem.get(i, '')} |\n"
open(f'{R}/DESIGN.md', 'w').write(d)
