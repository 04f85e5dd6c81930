"""Regenerate /verif/MANIFEST.json from kv/props.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from kv import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {}
try:
    from kv import notes
    NOTE = notes.NOTE
except ImportError:
    pass
DEF = ('Every obligation generated from the current /repo sources (function contracts, loop rules, frames) is discharged; exact real '
       'arithmetic and mathematical integers; library behaviour (std, FFTW, SHTns) by assumed contract. If a rewritten function falls outside '
       'the verifier\'s C++ subset the evidence says so and only the bounded replay battery stands in for it.')
checks, na = [], []
for i in ids:
    if i in props.SPECS:
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --thorough' % i,
                       'technique': 'contract-based deductive verification (VC generation from the clang AST of the real sources, inductive loop rule; normal-form/z3/sympy back ends)',
                       'level': 'proof', 'level_note': NOTE.get(i, DEF)})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. kv/ is the verifier; kv/specs the contracts; kv/battery the replay drivers.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
