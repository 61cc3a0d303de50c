"""regenerates MANIFEST.json from properties.jsonl and the check modules present in checks/"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        cmd = 'python3-vt -W ignore checks/run.py %s ' % i.lower()
        checks.append({'property': i, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough', 'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'symbolic execution of the translated source with SMT (z3): every path within the bounds, obligations discharged by the solver, counterexamples replayed on a fresh build',
                       'level': 'model_checking',
                       'level_note': 'bounded: holds for every input within the bounds each harness states (listed in the evidence file and in DESIGN.md), over exact real arithmetic; rounding is outside the claim; numpy/scipy/LAPACK/MPI are models whose path witnesses are run on a fresh build of the real package'})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check has been registered for this property yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -W ignore -c "import sys; sys.path.insert(0, \'.\'); import z3, numpy; from cysym import core, rt, world, harness, runner"', 'checks': checks, 'not_applicable': na,
     'notes': 'no hooks in /repo; see DESIGN.md'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
