#!/usr/bin/env python3
"""Writes MANIFEST.json from levels.json."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
L = json.load(open(os.path.join(H, 'levels.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {p}', technique=L[p]['technique'], level=L[p]['level'], level_note=L[p]['level_note']) for p in props if p in L],
         not_applicable=[dict(property=p, reason='no check yet') for p in props if p not in L],
         notes='Every check: proof obligations generated from /repo (prove.py, pyvc) plus the same contracts evaluated at run time on the real code (concrete/). See DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
