#!/usr/bin/env python3
"""Writes MANIFEST.json from the check table and the list of properties."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, R + '/sim')
from props import PROPS
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
NOTE = ('Seeded search over schedules, faults and histories of the real code in one simulated process; a clean run is evidence for the '
        'executions explored, not a proof. Trusts the chain and HTTP models, the stand-ins for confidential proofs, and that code between '
        'two inserted scheduling points runs atomically. ')
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       technique='deterministic simulation with fault injection (seeded schedules and faults, reference-model and invariant oracles)',
                       level='exploration', level_note=NOTE + c.get('note', '')))
na = [dict(property=i, reason='the scenario that decides it is not built yet') for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd='python3 check.py setup',
         hooks=dict(guard='none', enable='no hook is committed to /repo: scheduling points, fault points and the harness enter through go build -overlay and -modfile (sim/build.py)', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='See DESIGN.md. check.py replay FILE re-executes a replay file; check.py determinism SCENARIO N compares event hashes.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
