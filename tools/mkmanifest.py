#!/usr/bin/env python3-vt
"""MANIFEST.json from the contracts present in contracts/."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    f = os.path.join(V, 'contracts', i.lower() + '.py')
    if i in NA and not os.path.exists(f):
        na.append(dict(property=i, reason=NA[i]))
        continue
    if not os.path.exists(f):
        na.append(dict(property=i, reason='not yet claimed'))
        continue
    m = importlib.import_module('contracts.' + i.lower()).PROP
    checks.append(dict(
        property=i, quick_cmd=f'python3-vt run.py {i} quick', thorough_cmd=f'python3-vt run.py {i} thorough', evidence_file=f'evidence/{i}.json',
        technique='contract-based deductive verification: verification conditions generated from the clang AST of /repo, discharged by z3 (cvc5 re-check in the thorough tier); '
                  'failed obligations replayed on the compiled code',
        level=getattr(m, 'level', None) or 'proof', level_note=m.notes or 'every obligation of the contracts is discharged for all inputs and iterations; trusted: the AST exporter and symbolic executor, '
        'the library models listed in the evidence, arithmetic on doubles as uninterpreted operations'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
