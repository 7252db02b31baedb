#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []; FINITE = {}
def prop(id, title, statement, text, why, files, mech, over=('inputs',), level_note='', **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': list(over), 'text': text}, why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[{'name': a, 'where': b} for a, b in mech], **kw))); FINITE[id] = level_note
def na(id, reason): NA.append({'property': id, 'reason': reason})
exec(open(os.path.join(ROOT, 'tools', 'table.py')).read())
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
nas = {x['property'] for x in NA}
checks = []
for p in P:
    if p['id'] in nas: continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt /verif/vc/run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt /verif/vc/run.py %s --tier thorough' % p['id'],
                   'technique': 'contract-based deductive verification: harness contracts on the real functions, obligations generated from the LLVM IR of /repo by a path-wise VC generator (callee bodies or replaced callee contracts), discharged by rational normal forms, Groebner bases, z3 and cvc5; failed obligations replayed on the compiled code',
                   'level': 'proof', 'level_note': FINITE[p['id']] or 'all obligations discharged over the reals for every admissible input; rounding, libm and libstdc++ bodies trusted (evidence lists them)'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': NA, 'notes': 'No hooks in /repo; only fix: commits (listed in known_findings.txt).'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
