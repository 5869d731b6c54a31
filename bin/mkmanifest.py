#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
NOTE = ('TLC explores the specification and checks every recorded behaviour of the real code against it: all call '
        'sequences up to the stated depth over a small alphabet plus seeded random long histories. Bounded: no claim '
        'beyond the histories explored. Trusts TLC, Go and the driver that records the calls.')
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        e = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i,
                           thorough_cmd='python3 bin/check.py %s thorough' % i,
                           technique=e.get('technique', 'TLA+ specification, TLC trace validation of the real code'),
                           level=e.get('level', 'model_checking'), level_note=e.get('note', NOTE)))
    else:
        na.append(dict(property=i, reason='not built yet'))
m = dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo. bin/check.py --replay FILE re-runs a recorded violation.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
