#!/usr/bin/env python3
"""MANIFEST.json from the list of claimed properties"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PROPS = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
from tools.claims import CLAIMED, NA
checks = []; na = []
for p in PROPS:
    i = p['id']
    if i in CLAIMED:
        level, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --tier thorough' % i, technique='contract-based deductive verification of the compiled code (own VC generator on LLVM IR, z3/cvc5), contracts replayed on the real code' if level == 'proof' else 'function contracts, bounded check of the real code', level=level, level_note=note))
    else: na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes='no hooks in /repo'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
