#!/usr/bin/env python3
"""regenerates MANIFEST.json from the registry of claims below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the LLVM IR compiled from /repo, obligations decided by z3 over exact integers/rationals/reals; counterexamples replayed on the real library'
NOTE = 'Bounded: every value of the symbolic inputs within the stated degrees, refinement and loop bounds. Trusts the contracts of FLINT/Arb/GMP written in engine/ (sampled paths are validated against the real library on every run) and that callee contracts hold (each has a harness of its own).'
LEVELS = {}
CLAIM = json.load(open(os.path.join(V, 'tools', 'claims.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[])
for i in ids:
    c = CLAIM.get(i)
    if isinstance(c, dict):
        m['checks'].append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                                technique=c.get('technique', TECH), level='model_checking', level_note=(c.get('note', '') + ' ' + NOTE).strip()))
    else:
        m['not_applicable'].append(dict(property=i, reason=c or 'no check yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')
