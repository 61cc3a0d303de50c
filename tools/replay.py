"""replays a recorded counterexample against a fresh build of the real package:  python3-vt tools/replay.py FILE"""
import json, os, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'checks')]
from cysym import realbuild, runner
r = json.load(open(sys.argv[1]))
d = tempfile.mkdtemp(prefix='cysym_real_')
try:
    realbuild.build(d)
    real = r.get('real') or {}
    cases = []
    if real.get('values'): cases.append({'id': 'real values', 'harness': r['harness'], 'values': {k: repr(v) for k, v in real['values'].items()}, 'choices': real.get('choices', r['choices']), 'known': [], 'key': None, 'tries': [[0, None]]})
    cases.append({'id': 'solver model', 'harness': r['harness'], 'values': r['solver_model'], 'choices': r['choices'], 'known': [], 'key': None, 'tries': runner.TRIES})
    out, err, rc = runner.run_concrete(r['module'], cases, d)
    print(json.dumps(out, indent=1)); print(err)
    sys.exit(1 if rc or any(o['status'] == 'fail' for o in out) else 0)
finally: shutil.rmtree(d, ignore_errors=True)
