#!/usr/bin/env python3
"""writes MANIFEST.json from the property table (vc/props.py) and the notes below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from vc.props import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
exec(open(os.path.join(V, 'tools', 'na.py')).read())
checks = []
for i in ids:
    if i not in PROPS or i in NA: continue
    c = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i, evidence_file='evidence/%s.json' % i,
        technique=c.get('technique', 'contract-based deductive verification: function contracts and loop invariants, weakest-precondition style obligations extracted from the clang AST, discharged by SMT (z3, cvc5)'),
        level=c.get('level', 'proof'),
        level_note=c.get('note', 'Every obligation of the functions named in the evidence file is proved for all inputs, without bounds, over mathematical reals and range-checked integers; a bounded replay driver on the real code (never counted as proved) supplies concrete failing inputs.') + (' ' + c['extra'] if c.get('extra') else '')))
m = dict(version=1, setup_cmd='python3 -c "import sys; assert sys.version_info >= (3, 8)" && clang --version >/dev/null && z3-new --version >/dev/null && cvc5 --version >/dev/null',
         checks=checks, not_applicable=[dict(property=i, reason=NA.get(i, 'No check yet: contracts for these functions are still under construction.')) for i in ids if i in NA or i not in PROPS],
         notes='No hooks: the contracts are sidecar files (contracts/*.spec); nothing in /repo is guarded. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
