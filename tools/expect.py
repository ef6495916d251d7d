#!/usr/bin/env python3
"""tools/expect.py [--update]: compares the contract cases proved in evidence/*.json with tools/expected.json (what was
proved before on the unchanged tree); used while developing, read by no check."""
import json, os, sys, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = os.path.join(H, 'tools', 'expected.json')
old = set(json.load(open(P))) if os.path.exists(P) else set()
now = set()
for f in sorted(glob.glob(os.path.join(H, 'evidence', 'C*.json'))):
    d = json.load(open(f))
    for fn in d['coverage']['proof']['functions_under_contract']:
        now |= {f"{d['property']} {fn['function']} [{c['case']}]" for c in fn['cases'] if c['status'] == 'proved'}
print(len(now), 'contract cases proved;', len(now - old), 'new')
for x in sorted(old - now):
    print('LOST', x)
if '--update' in sys.argv:
    json.dump(sorted(now), open(P, 'w'), indent=0)
sys.exit(bool(old - now))
