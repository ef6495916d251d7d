"""Writes DESIGN.md: tools/DESIGN.in.md with the tables of proved cases, repairs and planted bugs filled in."""
import collections
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
text = open('tools/DESIGN.in.md').read()
levels = json.load(open('levels.json'))

by = collections.defaultdict(lambda: collections.defaultdict(list))
for e in json.load(open('tools/expected.json')):
    p, rest = e.split(' ', 1)
    q, case = re.match(r'(.*?) \[(.*)\]$', rest).groups()
    by[p][q.replace('peyl.', '')].append(case)
rows = []
for p in sorted(by):
    rows.append(f'* **{p}** ({sum(map(len, by[p].values()))} cases): ' + ', '.join(
        f'`{q.split(":")[1]}`' + (f' x{len(c)}' if len(c) > 1 else '') for q, c in sorted(by[p].items())))
text = text.replace('@@PROVED@@', '\n'.join(rows))

fixes = [l.split(' ', 3)[1:] for l in open('KNOWN_FINDINGS') if l.startswith('fixed:')]
text = text.replace('@@FIXES@@', '\n'.join(f'| {p.split("=")[1]} | {c} | {w.strip()} |' for p, c, w in sorted(fixes)))

bugs = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    bugs.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']} | {d.get('caught_by', d['property'])} |")
text = text.replace('@@BUGS@@', '\n'.join(bugs))
text = text.replace('@@NPROOF@@', ', '.join(p for p in sorted(levels) if levels[p]['level'] == 'proof'))
open('DESIGN.md', 'w').write(text)
