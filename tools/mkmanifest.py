#!/usr/bin/env python3
"""Writes MANIFEST.json: one check for every harness/cNN.py."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
ASSUME = ' Trusted: TLC, the spec text, the harness encoding of inputs and outputs (exact rationals to 24 decimals), and the sampled part of the case generator; numeric clauses hold within the tolerance named in the spec.'
checks, na = [], []
for q in props:
    pid = q['id']
    if os.path.exists(os.path.join(R, 'harness', pid.lower() + '.py')):
        sys.path.insert(0, os.path.join(R, 'harness'))
        src = open(os.path.join(R, 'harness', pid.lower() + '.py')).read()
        import re
        m = re.search(r"    note = \(?(['\"].*?['\"])\)?\n", src, re.S)
        note = eval('(' + m.group(1) + ')') if m else 'Every record of the real code on enumerated and seeded cases is accepted or rejected by the TLA+ specification in TLC.'
        checks.append(dict(property=pid, quick_cmd='./check %s' % pid, thorough_cmd='VERIF_TIER=thorough ./check %s' % pid,
            technique='TLA+ specification checked with TLC; conformance by TLC trace checking of the real code on scenarios from the model',
            level='model_checking', level_note=note + ASSUME))
    else:
        na.append(dict(property=pid, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=na), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
