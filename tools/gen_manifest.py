#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = 'Exact for every value inside the stated bounds (see evidence: functions encoded, bounds, queries). Trusts clang -O0 and LLVM mem2reg/simplifycfg, the executor in /verif/engine (its rewriting steps are sampled and proved by Z3, its counterexamples are replayed natively), Z3, and the hand-written specification in /verif/harness. '
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='python3 run.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the LLVM IR of /repo; assertions decided by SMT (Z3, bit-vectors + uninterpreted functions) against an RFC specification', level='model_checking', level_note=TRUST + NOTE.get(i, '')))
    else: na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='make -s -j8 -C engine', checks=checks, not_applicable=na,
    notes='No hooks in /repo: all cut points and stubs are put in at IR level by the executor or by -D renames in the build of the harness. known_findings.json lists the defects found (all fixed). See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'checks', [x['property'] for x in na])
