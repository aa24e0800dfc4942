#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from proplist import P, NA
import props

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        if p['id'] not in props.TABLE and p['id'] not in NA:
            continue
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')

checks = []
for p in P:
    if p['id'] in props.TABLE:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'static analysis: ' + p['tech'], 'level': 'other',
                       'level_note': p.get('note', 'Decided from the MIR of the current tree for all inputs, under the assumptions written to the evidence file; no code of the repository is run.')})
m = {'version': 1, 'setup_cmd': 'python3 sa/build.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'All checks are static: a rustc driver dumps MIR of /repo, Python analyses decide the properties. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(NA), 'not applicable')
