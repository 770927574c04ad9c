#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from tools/props.py (kept in step by construction)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools')); sys.path.insert(0, os.path.join(HERE, 'vcir'))
from props import PROPS, NA
import jobs as J, jsonschema
ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        r = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'].split(), 'text': p['qtext']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        jsonschema.validate(r, ps); assert len(r['title']) <= 80, r['title']; assert r['statement'].count('. ') <= 2, r['id']
        f.write(json.dumps(r) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NA: continue
    i = p['id']; js = J.PROPS[i]['jobs']
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                   'technique': 'deductive verification of the real C++ functions: contracts checked by symbolic execution of the LLVM IR generated from /repo on every run, each obligation discharged by the normaliser/prover of vcir or z3',
                   'level': J.PROPS[i].get('level', 'proof'), 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'See DESIGN.md. Everything is built from /repo on every run; no hooks in /repo.'}
jsonschema.validate(m, ms); json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
ids = [p['id'] for p in PROPS]; assert len(set(ids)) == len(ids); assert set(NA) <= set(ids); assert set(J.PROPS) == set(ids) - set(NA), set(J.PROPS) ^ (set(ids) - set(NA))
print(len(PROPS), 'properties', len(checks), 'checks')
