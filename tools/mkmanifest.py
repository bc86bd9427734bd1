"""writes /verif/MANIFEST.json from contracts/*.py and tools/levels.py"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tools.levels import LEVEL, NOTE, NA      # noqa: E402
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
COMMON = (' Trusted: the vc engine (symbolic execution of the real, mechanically rewritten source; exact ring normaliser), z3/cvc5, numpy array '
          'structure; floats treated as exact reals. Every contract is also evaluated at run time on the real code (PyPy + numpy), bounded, not counted as proved.')
for p in props:
    i = p['id']
    if i in NA or not os.path.exists(os.path.join(H, 'contracts', i.lower() + '.py')):
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
        continue
    lv = LEVEL.get(i, 'proof')
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt -m vc.run %s --tier quick' % i,
        'thorough_cmd': 'python3-vt -m vc.run %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification (vc: symbolic execution of the real functions against contracts, ring/SMT discharge)'
                     if lv == 'proof' else
                     'contracts on the real functions: run-time contract evaluation (bounded) with deductive obligations where within reach',
        'level': lv,
        'level_note': NOTE.get(i, 'Deductive proof of the listed function contracts for all inputs.') + COMMON})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Contracts: /verif/contracts; verifier: /verif/vc; see DESIGN.md.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
