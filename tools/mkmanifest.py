#!/usr/bin/env python3
"""writes MANIFEST.json: a property is claimed when specs/<id>.py exists and is listed in tools/claimed"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claimed = {}
for l in open(V + '/tools/claimed'):
    l = l.strip()
    if l and not l.startswith('#'):
        i, n = l.split(' ', 1)
        claimed[i] = n
na = {}
for l in open(V + '/tools/not_applicable'):
    l = l.strip()
    if l and not l.startswith('#'):
        i, n = l.split(' ', 1)
        na[i] = n
m = {'version': 1, 'setup_cmd': 'python3-vt hv/selfcheck.py', 'checks': [], 'not_applicable': [],
     'notes': 'Contract-based deductive verification of the LLVM IR of /repo\'s current sources; see DESIGN.md. No hooks are needed in /repo.'}
for p in props:
    if p['id'] in claimed:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt hv/run.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3-vt hv/run.py ' + p['id'],
                            'technique': 'contract-based deductive verification (hv: symbolic execution of the real functions against contracts and loop invariants, SMT back ends z3/cvc5)',
                            'level': 'proof', 'level_note': claimed[p['id']]})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': na.get(p['id'], 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
