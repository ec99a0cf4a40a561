#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import propinfo
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
checks = []
for p in sorted(propinfo.INFO):
    i = propinfo.INFO[p]
    if i['level'] == 'proof':
        tech = 'contract-based deductive verification of the Go functions (own VC generator over SSA, cvc5/z3), with replay of the real code for counterexamples'
        note = 'Proved for all inputs for the functions under contract (evidence lists them), assuming the trusted base and assumptions in the evidence file.'
        if i['bounded']: note += ' Bounded stand-in, not proved: ' + i['bounded']
    else:
        tech = 'bounded stand-in: real code replayed against an executable specification; contracts of the functions it depends on where they exist'
        note = 'Bounded: random inputs against the executable specification. ' + i['bounded']
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                   'technique': tech, 'level': i['level'], 'level_note': note})
m = {'version': 1, 'setup_cmd': 'bash scripts/setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'Repairs of genuine defects in /repo are the commits whose message starts with fix: (see known-findings.txt). No hooks are needed: the verifier reads /repo directly.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
