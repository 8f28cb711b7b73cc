#!/usr/bin/env python3-vt
"""writes MANIFEST.json from vc/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'vc'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
ch = []
for i in ids:
    P = props.PROPS.get(i)
    if not P: continue
    ch.append({'property': i, 'quick_cmd': 'python3-vt vc/check.py %s --tier quick' % i,
               'thorough_cmd': 'python3-vt vc/check.py %s --tier thorough' % i,
               'technique': P.get('technique', 'contract-based deductive verification: contracts on the SSA of the real functions, obligations discharged by z3; bounded replay search for failing inputs'),
               'level': P['level'], 'level_note': P['note']})
na = [{'property': i, 'reason': props.NA.get(i, 'not yet covered: no check is claimed for it') if hasattr(props, 'NA') else 'not yet covered: no check is claimed for it'} for i in ids if i not in props.PROPS]
m = {'version': 1, 'setup_cmd': 'python3-vt vc/check.py --setup', 'checks': ch, 'not_applicable': na,
     'notes': 'No hooks: nothing in /repo is instrumented. The verified text is extracted from /repo on every run (go/packages -> go/ssa -> JSON, tools/gossa).'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(ch), 'checks', len(na), 'not claimed')
