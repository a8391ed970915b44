#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if glob.glob(V + '/harness/%s*.cpp' % i):
        checks.append({
            'property': i, 'quick_cmd': 'python3 run.py %s' % i,
            'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the compiled sources (LLVM IR), SMT solver decides every branch and assertion; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'All values within the bounds stated in the evidence; bounds and number model (reals or IEEE) per entry in DESIGN.md section 5.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check yet.')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 
           'checks': checks, 'not_applicable': na,
           'notes': 'run.py compiles /repo\'s current sources on every run (results cached by content hash under build/).'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'without')
