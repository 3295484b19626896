#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique='deterministic simulation with fault injection: ' + c.get('technique', ''),
                           level='exploration', level_note=c.get('level_note', '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 check.py --build', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every seam is an existing virtual interface, a replaceable allocation function, the standard clock, or compiler instrumentation of the build in /verif/build.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
