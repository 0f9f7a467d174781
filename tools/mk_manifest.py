#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                   'technique': 'contract-based deductive verification of the SSA form of the real code (contracts, loop invariants and lemmas discharged by z3), with an executable oracle to replay failures',
                   'level': 'proof', 'level_note': NOTES.get(i, NOTE)})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks: /repo is analysed as it is. See DESIGN.md.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
