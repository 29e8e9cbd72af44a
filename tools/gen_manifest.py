#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
TECH = {
    'default': 'runtime monitoring: randomized workload on the real code, online reference-model oracle and input-purity monitor',
    'C01': 'runtime monitoring: encoder-driven workload, decode events judged against the recorded values',
    'C02': 'runtime monitoring under fault injection: conservation/ordering monitor over decoded ensembles (unique ids)',
    'C09': 'runtime monitoring: audit-hook file-system monitor, fd monitor, loop-budget monitor under byte-level faults',
    'C14': 'runtime monitoring: random rotation histories with state-history monitor',
    'C16': 'runtime monitoring: random operation histories against an executable model',
    'C17': 'runtime monitoring: random operation histories against an executable model',
    'C31': 'runtime monitoring: purity and history-independence monitor over random call sequences',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'vdolfyn/checks/%s.py' % i.lower())):
        checks.append(dict(
            property=i,
            quick_cmd='VERIF_TIER=quick bash run.sh %s' % i,
            thorough_cmd='VERIF_TIER=thorough bash run.sh %s' % i,
            technique=TECH.get(i, TECH['default']),
            level='exploration',
            level_note='Holds on the executions of this run only (seeded random workload, counts in the evidence file). '
                       'Trusted: numpy/scipy/xarray, the independent model or encoder in vdolfyn/, and the stated tolerances.'))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every monitor observes at the public API boundary. Replay: bash run.sh <ID> --replay replays/<file>.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
