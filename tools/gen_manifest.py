#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present in checks/."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
SEQ = 'stateful and generative property-based testing against reference models (choice-sequence generator, shrinking, ASan/UBSan)'
CONC = 'property-based testing of schedules: generated programs under a controlled, seed-replayable scheduler with a virtual clock and shrinking'
NOTE = {'seq': 'Randomised exploration: every generated case is judged against an independent model and the sanitizers; cases that were not generated are not covered. Trusts the model, clang ASan/UBSan and the C++ library.',
        'conc': 'Randomised exploration of sequentially consistent schedules at the granularity of synchronisation operations and atomics; weak-memory effects are not modelled. Trusts the scheduler in engine/sched.cpp.'}
checks, na = [], []
for p in props:
    f = os.path.join(H, 'checks', p['id'] + '.cpp')
    if os.path.exists(f):
        t = open(f).read()
        eng = 'conc' if '// ENGINE: conc' in t else 'seq'
        checks.append({'property': p['id'], 'quick_cmd': './check.py %s --tier quick' % p['id'], 'thorough_cmd': './check.py %s --tier thorough' % p['id'],
                       'technique': CONC if eng == 'conc' else SEQ, 'level': 'exploration', 'level_note': NOTE[eng]})
    else:
        na.append({'property': p['id'], 'reason': 'the harness is not built yet; property-based testing does apply'})
m = {'version': 1, 'setup_cmd': './check.py --build-only', 'checks': checks, 'not_applicable': na}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as o:
    json.dump(m, o, indent=1)
    o.write('\n')
print(len(checks), 'claimed', len(na), 'not')
