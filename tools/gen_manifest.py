#!/usr/bin/env python3
"""MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst.registry import PROPS
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {
 'C01': 'pure function of its argument: no time, I/O, concurrency, randomness or second party to simulate; simulation would add nothing to input testing',
 'C02': 'pure function of key, message and signature (nonce freshness, which does depend on the entropy source, is W06); nothing to schedule or fault',
 'C03': 'pure arithmetic; no environment to simulate',
 'C04': 'pure function of key and bytes; no environment to simulate',
 'C05': 'pure function of its arguments and a random polynomial; no schedule, I/O or fault it depends on, and secrecy is not an observable of an execution',
 'C06': 'pure function of its arguments; no environment to simulate',
}
NOTE = 'Seeded random search over schedules, inputs and fault sequences of the simulated system; finite number of runs, no proof. Network, OS, clock, entropy, disk and remote peers are models (see DESIGN.md).'
checks = []
for p in props:
    i = p['id']
    if i in NA or i not in PROPS:
        continue
    checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='VERIF_TIER=thorough ./check %s' % i,
                       technique='deterministic simulation with fault injection (seeded search, replayable decision trace)',
                       level='exploration', level_note=NOTE))
na = [dict(property=i, reason=NA[i]) for i in sorted(NA)]
for p in props:
    if p['id'] not in NA and p['id'] not in PROPS:
        na.append(dict(property=p['id'], reason='check not built yet'))
m = dict(version=1, setup_cmd='true', hooks=dict(guard='none needed', enable='no hooks in /repo: every seam is a standard-library function the simulator replaces in its own process', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')
