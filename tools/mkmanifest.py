#!/usr/bin/env python3
"""MANIFEST.json from props.py and the notes below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from props import PROPS
TECH = 'contract-based deductive verification of the real C++ (generated verification conditions discharged by z3/cvc5, lemmas proved in Lean 4), with a bounded conformance run that looks for a failing input'
NOTE = {
 'default': 'All obligations generated from the current sources of the functions the property depends on are discharged for all inputs and iterations; doubles are treated as reals, and the VC generator, clang as parser, the solvers, Lean/Mathlib, libm and memory allocation are trusted (listed in the evidence file).',
}
from props import NOTES, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in ids:
    if p not in PROPS: continue
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p, 'thorough_cmd': 'python3-vt check.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': PROPS[p].get('technique', TECH), 'level': PROPS[p].get('level', 'proof'), 'level_note': NOTES.get(p, NOTE['default']),
                   'theorems': PROPS[p].get('theorem_names', [])})
    if not checks[-1]['theorems']: del checks[-1]['theorems']
na = [{'property': p, 'reason': NA.get(p, 'not yet claimed')} for p in ids if p not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the contracts live in /verif/specs and are attached to the functions extracted from the current sources on every run.'}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
