"""Runs the harnesses of one property: symbolic exploration in parallel worker processes, a build of the
real package at the same time, replay of every counterexample and of path witnesses on the real build."""
import warnings; warnings.filterwarnings('ignore', category=SyntaxWarning)
import importlib, json, multiprocessing as mp, os, pickle, signal, subprocess, sys, tempfile, time, traceback, shutil
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class H:
    """one harness: fn(h) builds inputs through h, runs the code under test, states obligations"""
    def __init__(self, name, fn, bounds='', tier='quick', budget=100, nwit=4, max_paths=200000, qtimeout=20000, real=True, maxviol=3,
                 thorough_budget=None, rtol=2e-4, pool=1):
        self.name = name; self.fn = fn; self.bounds = bounds; self.tier = tier; self.budget = budget; self.nwit = nwit
        self.max_paths = max_paths; self.qtimeout = qtimeout; self.real = real; self.maxviol = maxviol; self.rtol = rtol
        self.thorough_budget = thorough_budget or budget * 6


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding:'):
                d = l[len('finding:'):].strip()
                f = d.split(None, 2)
                if f[0] == 'property=' + pid: out[f[1][len('key='):]] = f[2]
    return out


def _frac(v): return str(v) if isinstance(v, (Fraction, int, bool)) else repr(v)


def explore_one(modname, hname, tier, seed, known, q, wall=None):
    warnings.filterwarnings('ignore')
    """worker process"""
    t0 = time.time()
    res = {'name': hname}
    try:
        sys.setrecursionlimit(6000)
        from . import core, rt, world
        from .harness import SymH
        mod = importlib.import_module(modname)
        h = next(x for x in mod.HARNESSES if x.name == hname)
        core.reset(); core.clear_caches()
        bud = h.budget if tier == 'quick' else h.thorough_budget
        e = core.Engine(timeout_ms=h.qtimeout, max_paths=h.max_paths if tier == 'quick' else h.max_paths * 10, deadline=time.process_time() + bud * (1.5 if tier == 'quick' else 1), wall=wall)
        core.C.engine = e
        sh = SymH(e)

        def run():
            sh.begin()
            try: h.fn(sh)
            except (core.PathAbort, core.Inconclusive, core.StopPrefix): raise
            except Exception as x:
                tb = traceback.extract_tb(x.__traceback__)
                loc = next(('%s:%d' % (os.path.relpath(f.filename, REPO), f.lineno) for f in reversed(tb) if f.filename.startswith(REPO)), None)
                here = tb[-1]
                if loc is None and not isinstance(x, core.OutOfBounds):
                    raise core.Inconclusive('harness error: %s: %s at %s:%d' % (type(x).__name__, x, here.filename, here.lineno))
                e.check(False, 'unexpected %s: %s (at %s; last frame %s:%d)' % (type(x).__name__, x, loc, os.path.basename(here.filename), here.lineno), None)
        complete = e.explore(run, max_violations=h.maxviol, known=known, nwit=h.nwit if tier == 'quick' else h.nwit * 3, seed=seed)
        s = e.stats
        res.update(complete=complete, paths=s.paths, aborted=s.aborted, forks=s.forks, queries=s.queries, obligations=s.obligations,
                   discharged=s.discharged, obl_queries=s.obl_queries, unknown=s.unknown, solver_s=s.solver_s, inconclusive=e.inconclusive[:10], fallbacks=e.fallbacks,
                   violations=[(v.what, v.models, v.choices, v.key) for v in e.violations],
                   witnesses=e.witnesses, functions=sorted(rt.RT.functions), sources=dict(world.SOURCES), bounds=h.bounds,
                   symbols=len(core.C._decl))
    except BaseException as x:
        res['error'] = '%s: %s\n%s' % (type(x).__name__, x, traceback.format_exc()[-3000:])
    res['wall'] = time.time() - t0
    q.put(pickle.dumps(res))


QUICK_WALL = 600


def run_pool(modname, hs, tier, seed, known, nproc=8):
    # quick checks must answer within 900 s whatever the load: stop exploring in time for the replays
    wall = time.time() + QUICK_WALL if tier == 'quick' else None
    ctx = mp.get_context('fork')
    todo = list(hs); running = {}; results = {}
    while todo or running:
        while todo and len(running) < nproc:
            h = todo.pop(0)
            q = ctx.SimpleQueue()
            r, w = ctx.Pipe(False)
            class Q:
                def __init__(s, c): s.c = c
                def put(s, b): s.c.send_bytes(b); s.c.close()
            p = ctx.Process(target=explore_one, args=(modname, h.name, tier, seed, known, Q(w), wall))
            p.start(); w.close()
            running[h.name] = (p, r, time.time(), h)
        for n, (p, r, t0, h) in list(running.items()):
            got = None
            if r.poll(0.02):
                try: got = pickle.loads(r.recv_bytes())
                except EOFError: got = {'name': n, 'error': 'worker died (exit code %s)' % p.exitcode}
            elif not p.is_alive() and not r.poll(0.1):
                got = {'name': n, 'error': 'worker died (exit code %s)' % p.exitcode}
            elif (time.time() > wall + 60) if wall else (time.time() - t0 > h.thorough_budget * 1.5 + 60):
                p.kill(); got = {'name': n, 'error': 'worker killed after %d s' % (time.time() - t0)}
            if got is not None:
                results[n] = got; p.join(5); running.pop(n)
                if p.is_alive(): p.kill()
    return results


# ------------------------------------------------------------- concrete side
def attempt(h, vals, c, t):
    """one numeric run of a harness; None: the values do not meet its assumptions"""
    import numpy as np
    from .harness import ConcH, Skip
    ch = ConcH(vals, c['choices'], seed=t[0], jitter=t[1], rtol=h.rtol); tb = None
    try:
        np.random.seed(t[0] % 2**31)
        h.fn(ch)
    except Skip: return None
    except Exception as x:
        ch.fails.append(('unexpected %s: %s' % (type(x).__name__, x), None, None))
        tb = traceback.format_exc()[-1500:]
    return dict(nchecks=ch.nchecks, fails=[(f[0], f[1], repr(f[2]) if f[2] is not None and not isinstance(f[2], (list, tuple)) else f[2]) for f in ch.fails], values={k: float(v) for k, v in ch.used.items()}, choices=ch.choices, tb=tb)


def alone(f, *a):
    """f(*a) in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            g = f(*a)
            with os.fdopen(w, 'wb') as o: pickle.dump(g, o)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as i: d = i.read()
    os.waitpid(pid, 0)
    if not d: raise RuntimeError('a numeric run ended without a result')
    return pickle.loads(d)


def concrete_main(jobfile):
    """runs in the project's interpreter with the real build on sys.path"""
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import warnings; warnings.filterwarnings('ignore')
    import numpy as np
    job = json.load(open(jobfile))
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    mod = importlib.import_module(job['module'])
    hs = {h.name: h for h in mod.HARNESSES}
    tmp = tempfile.mkdtemp(prefix='cysym_run_'); os.chdir(tmp)
    out = []
    devnull = os.open(os.devnull, os.O_WRONLY)
    sav = os.dup(1); os.dup2(devnull, 1)
    try:
        if getattr(mod, 'FRESH', False): importlib.import_module('cosmic_profiles.shape_profs.shape_profs_classes')   # loaded, nothing called
        for c in job['cases']:
            h = hs[c['harness']]
            vals = {k: (Fraction(v) if not v in ('True', 'False') and 'nan' not in v and 'inf' not in v else v) for k, v in c['values'].items()}
            tries = c['tries']
            rec = {'id': c['id'], 'status': 'pass', 'fails': [], 'ran': 0, 'nchecks': 0}
            for t in tries:
                g = alone(attempt, h, vals, c, t) if getattr(mod, 'FRESH', False) else attempt(h, vals, c, t)
                if g is None: continue
                rec['ran'] += 1; rec['nchecks'] += g['nchecks']
                fails = [f for f in g['fails'] if f[1] not in c['known']] if not c.get('key') else [f for f in g['fails'] if f[1] == c['key']]
                if fails:
                    rec.update(status='fail', fails=[[f[0], f[1], f[2]] for f in fails[:5]], values=g['values'], choices=g['choices'], tb=g['tb'], tr=t)
                    break
            if not rec['ran']: rec['status'] = 'skip'
            out.append(rec)
            with open(job['out'], 'w') as f: json.dump(out, f)
    finally:
        os.dup2(sav, 1); os.chdir('/'); shutil.rmtree(tmp, ignore_errors=True)
    json.dump(out, open(job['out'], 'w'))


def run_concrete(module, cases, build, timeout=240):
    from .realbuild import PY, _env
    d = tempfile.mkdtemp(prefix='cysym_job_')
    try:
        jf = os.path.join(d, 'job.json'); of = os.path.join(d, 'out.json')
        json.dump({'module': module, 'cases': cases, 'out': of}, open(jf, 'w'))
        env = _env(); env['PYTHONPATH'] = build + ':' + VERIF
        env['OMP_NUM_THREADS'] = '2'; env['MPLBACKEND'] = 'Agg'; env['OPENBLAS_NUM_THREADS'] = '1'
        try:
            r = subprocess.run([PY, '-c', 'from cysym import runner; runner.concrete_main(%r)' % jf], env=env, capture_output=True, text=True, timeout=timeout, cwd=d)
            err = r.stderr[-2000:] if r.returncode else ''
            rc = r.returncode
        except subprocess.TimeoutExpired: err = 'timeout'; rc = -1
        out = json.load(open(of)) if os.path.exists(of) else []
        return out, err, rc
    finally: shutil.rmtree(d, ignore_errors=True)


TRIES = [[0, None], [1, 1e-6], [2, 1e-4], [3, 1e-2], [4, 0.05]] + [[5 + i, 'random'] for i in range(25)]


def main(modname):
    pid = modname.upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    verbose = False
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'): tier = a
        elif a == '-v': verbose = True
        elif a.startswith('--only='): only = a[7:].split(',')
    t0 = time.time()
    mod = importlib.import_module(modname)
    hs = [h for h in mod.HARNESSES if (tier == 'thorough' or h.tier == 'quick') and (only is None or any(h.name.startswith(o) for o in only))]
    known = known_findings(pid)
    from . import realbuild
    # build of the real package in the background
    bdir = tempfile.mkdtemp(prefix='cysym_real_')
    import threading
    berr = []

    def bld():
        try: realbuild.build(bdir)
        except Exception as e: berr.append(str(e))
    needbuild = any(h.real for h in hs)
    try:
        # long harnesses first
        hs.sort(key=lambda h: -h.budget)
        th = None
        if needbuild:
            ctx = mp.get_context('fork')
            pr, pw = ctx.Pipe(False)
            def bproc(w):
                try: realbuild.build(bdir); w.send('')
                except BaseException as e: w.send(str(e) or repr(e))
            bp = ctx.Process(target=bproc, args=(pw,)); bp.start()
        res = run_pool(modname, hs, tier, seed, set(known))
        buildmsg = None
        if needbuild:
            buildmsg = pr.recv(); bp.join()
        code = finish(mod, modname, pid, tier, seed, hs, res, known, bdir, buildmsg, t0, verbose)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def finish(mod, modname, pid, tier, seed, hs, res, known, bdir, buildmsg, t0, verbose):
    problems = []; undec = []; viol = []
    for h in hs:
        r = res[h.name]
        if r.get('error'): undec.append('%s: %s' % (h.name, r['error'])); continue
        for m in r['inconclusive']: undec.append('%s: inconclusive: %s' % (h.name, m))
        nk = [v for v in r['violations'] if v[3] not in known]
        if not r['complete'] and not nk and not r['inconclusive']: problems.append('%s: exploration incomplete' % h.name)
        if r['paths'] == 0 or r['obligations'] == 0:
            if not nk: (undec if r['inconclusive'] else problems).append('%s: vacuous (no feasible path reaches an obligation)' % h.name)
    if buildmsg: problems.append(buildmsg)
    cases = []
    real_ok = not buildmsg
    meta = {}
    hd = {h.name: h for h in hs}
    for h in hs:
        r = res[h.name]
        if r.get('error'): continue
        seenk = set()
        for i, (what, models, choices, key) in enumerate(r['violations']):
            if key in known:
                if key in seenk: continue
                seenk.add(key)
            for j, m in enumerate(models[:2]):
                cid = 'v/%s/%d/%d' % (h.name, i, j)
                meta[cid] = (h.name, what, key, m, choices)
                cases.append({'id': cid, 'harness': h.name, 'values': {k: _frac(v) for k, v in m.items()}, 'choices': choices, 'known': list(known), 'key': key if key in known else None, 'tries': TRIES})
        for i, (m, choices) in enumerate(r['witnesses']):
            cid = 'w/%s/%d' % (h.name, i)
            meta[cid] = (h.name, None, None, m, choices)
            if h.real: cases.append({'id': cid, 'harness': h.name, 'values': {k: _frac(v) for k, v in m.items()}, 'choices': choices, 'known': list(known), 'key': None, 'tries': [[seed, None]]})
        for i, (m, choices, why) in enumerate(r['fallbacks']):
            cid = 'f/%s/%d' % (h.name, i)
            meta[cid] = (h.name, None, None, m, choices)
            if h.real: cases.append({'id': cid, 'harness': h.name, 'values': {k: _frac(v) for k, v in m.items()}, 'choices': choices, 'known': list(known), 'key': None, 'tries': [[seed, None]]})
    out, err, rc = ([], '', 0)
    if cases and real_ok:
        out, err, rc = run_concrete(modname, cases, bdir, max(60, min(300, 860 - (time.time() - t0))) if tier == 'quick' else 1500)
        lim = 860 if tier == 'quick' else 10000
        while rc == -1 and len(out) < len(cases) and time.time() - t0 < lim:
            # out of time: the next case again, alone, before saying that the real code hangs on it
            o1, err, rc = run_concrete(modname, cases[len(out):len(out) + 1], bdir, 90)
            if rc: break
            out += o1
            if len(out) < len(cases) and time.time() - t0 < lim:
                o1, err, rc = run_concrete(modname, cases[len(out):], bdir, max(30, min(300, lim - (time.time() - t0))))
                out += o1
        if rc == -1 and len(out) < len(cases) and time.time() - t0 >= lim:
            undec.append('replays on the real build: out of time after %d of %d' % (len(out), len(cases))); rc = 0
        if rc != 0:
            if (out or rc < 0) and len(out) < len(cases):
                # the real code crashed or hung on the next case
                nxt = cases[len(out)]
                out.append({'id': nxt['id'], 'status': 'crash', 'fails': [['the real code crashed or hung (exit %d): %s' % (rc, err[-300:]), None, None]]})
            else: problems.append('replay process failed: ' + err)
    val = 0; fval = 0; mism = []
    repro = {}
    known_hit = {}
    for o in out:
        hn, what, key, m, choices = meta[o['id']]
        if o['id'][0] in 'wf':
            if o['status'] == 'pass' and o['id'][0] == 'f': fval += 1
            elif o['status'] == 'pass': val += 1
            elif o['status'] in ('fail', 'crash'): mism.append((o, hn, m, choices))
        else:
            k = o['id'].rsplit('/', 1)[0]
            if o['status'] in ('fail', 'crash') and k not in repro: repro[k] = o
    # classify violations
    reported = []
    for h in hs:
        r = res[h.name]
        if r.get('error'): continue
        unre = []; nrep = 0
        for i, (what, models, choices, key) in enumerate(r['violations']):
            k = 'v/%s/%d' % (h.name, i)
            if key in known:
                if k in repro or not h.real: known_hit[key] = what
                continue
            if not h.real: reported.append((h.name, what, models[0], choices, None)); nrep += 1
            elif k in repro: reported.append((h.name, what, models[0], choices, repro[k])); nrep += 1
            else: unre.append(what)
        if unre and not nrep:
            for w in unre: undec.append('%s: counterexample does not reproduce on the real build: %s' % (h.name, w))
    for (o, hn, m, choices) in mism:
        reported.append((hn, ('path witness' if o['id'][0] == 'w' else 'solver input for an undecided path') + ' fails on the real build: ' + str(o['fails'][:1]), m, choices, o))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    lines = []
    for n, (hn, what, m, choices, o) in enumerate(reported[:5]):
        rp = os.path.join(VERIF, 'evidence', 'replay_%s_%d.json' % (pid, n))
        json.dump({'property': pid, 'module': modname, 'harness': hn, 'what': what, 'solver_model': {k: _frac(v) for k, v in m.items()}, 'choices': choices, 'real': o,
                   'how': 'python3-vt /verif/tools/replay.py ' + rp}, open(rp, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  [%s] %s' % (hn, what[:400]))
        if o: print('     on the real build: %s' % str(o.get('fails'))[:400])
    for k, t in known.items():
        if k in known_hit: print('KNOWN-FINDING: property=%s %s' % (pid, t))
    good = [r for r in res.values() if not r.get('error')]
    samples = []
    for h in hs:
        r = res[h.name]
        if r.get('error'): continue
        for (m, c) in r['witnesses'][:1]:
            samples.append({'harness': h.name, 'choices': c, 'inputs': {k: _frac(v) for k, v in sorted(m.items()) if k in m and '#' not in k and not k.startswith(('sqrt', 'exp', 'pow', 'log'))}})
    src = {}
    fn = set()
    for r in good: src.update(r['sources']); fn |= set(r['functions'])
    T = lambda k: sum(r[k] for r in good)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': T('paths'), 'transitions': T('forks'), 'traces_validated_against_impl': val,
              'samples': samples[:12],
              'obligations': T('obligations'), 'discharged': T('discharged'), 'solver_queries': T('queries'), 'unknown_answers': T('unknown'),
              'solver_s': round(T('solver_s'), 2),
              'infeasible_or_assumed_away_paths': T('aborted'),
              'harnesses': [{'name': h.name, 'bounds': h.bounds, 'paths': res[h.name].get('paths'), 'obligations': res[h.name].get('obligations'), 'symbolic_inputs': res[h.name].get('symbols'),
                             'complete': res[h.name].get('complete'), 'wall_s': round(res[h.name]['wall'], 1) if 'wall' in res[h.name] else None, 'solver_s': round(res[h.name].get('solver_s', 0), 1)} for h in hs],
              'functions_encoded': sorted(f for f in fn),
              'sources_encoded': {k: {'file': os.path.relpath(v[0], REPO), 'sha1': v[1]} for k, v in sorted(src.items())},
              'exhaustive': not problems and not undec and not reported,
              'undecided': [u[:600] for u in undec[:20]], 'undecided_paths_run_on_impl': fval,
              'known_findings_seen': sorted(known_hit),
              'explanation': 'states = complete symbolic paths (each covers all inputs satisfying its path condition); transitions = solver-decided forks; traces = path witnesses run on a fresh build of the real package',
              'outside': getattr(mod, 'OUTSIDE', ''),
          },
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 1), 'violations': len(reported)}
    if problems: ev['coverage']['problems'] = [p[:600] for p in problems[:10]]
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d harnesses, %d paths, %d obligations (%d discharged), %d queries, solver %.1f s, %d witnesses validated on the real build, wall %.1f s' %
          (pid, tier, len(hs), T('paths'), T('obligations'), T('discharged'), T('queries'), T('solver_s'), val, time.time() - t0))
    if verbose:
        for h in hs:
            r = res[h.name]
            print('   %-34s paths %-6s obl %-6s wall %.1f solver %.1f compl %s viol %d' % (h.name, r.get('paths'), r.get('obligations'), r.get('wall', 0), r.get('solver_s', 0), r.get('complete'), len(r.get('violations', []))))
            for v in r.get('violations', []): print('        ', v[0][:200], '| key', v[3], '|', {k: str(x) for k, x in list(v[1][0].items())[:40]} if v[1] else None, v[2])
    if undec and not T('discharged') and not fval: problems.append('nothing was decided')
    for p in problems: print('  PROBLEM ' + p[:1500])
    for p in undec: print('  UNDECIDED ' + p[:1500])
    if undec: print('  %d undecided: the claim of this run does not cover them (%d solver inputs on such paths were run on the real build)' % (len(undec), fval))
    if os.environ.get('VERIF_STRICT'): problems += undec
    if lines:
        for l in lines: print(l)
        return 1
    return 2 if problems else 0


COMMON_ASSUMPTIONS = [
    'real arithmetic: rounding of doubles (and of the float32 conversions) is outside the claim',
    'numpy / scipy / sklearn / psutil / MPI are models in cysym/rt.py and cysym/world.py; path witnesses of the models are executed on the real build',
]
