"""Harness interface: one harness text, two readings.

SymH   inputs are symbols, the code is the translated source, eq/true are proof obligations
ConcH  inputs are numbers (from a solver model), the code is the real compiled package,
       eq/true are numeric comparisons: used to replay counterexamples and to validate path witnesses
"""
import math, random, sys
from fractions import Fraction
import numpy as rnp


class Skip(Exception):
    """concrete values outside the harness domain"""


class Mismatch(Exception):
    pass


def fr(x): return Fraction(x) if isinstance(x, str) else x


class SymH:
    sym = True

    def __init__(self, engine):
        from . import core, rt, world
        self.core = core; self.rt = rt; self.world_mod = world; self.e = engine
        self.np = rt.NP; self.nan = core.NAN; self.inf = core.INF
        self.begin()

    def begin(self):
        self.rt.RT.reset(); self.choices = {}; self.notes = []
        self.e.choices = self.choices
        self.w = None

    # inputs
    def real(self, name, lo=None, hi=None, pos=False):
        import z3
        C = self.core.C
        lo, hi = fr(lo), fr(hi)
        s = self.core.Sym.var(name)
        a = C.byname[name]
        if not getattr(C, '_decl', None): C._decl = {}
        if name not in C._decl:
            C._decl[name] = (lo, hi, pos)
            if pos or (lo is not None and lo > 0): a.pos = '+'; self.core.assert_def(a, a.z > 0)
            elif lo is not None and lo == 0: a.pos = '0'
            if lo is not None: self.core.assert_def(a, a.z >= z3.RealVal(str(lo)))
            if hi is not None: self.core.assert_def(a, a.z <= z3.RealVal(str(hi)))
        elif C._decl[name] != (lo, hi, pos): raise TypeError('symbol %s declared with different bounds' % name)
        return s

    def reals(self, name, shape, lo=None, hi=None, pos=False):
        if isinstance(shape, int): shape = (shape,)
        o = rnp.empty(shape, dtype=object)
        for i in rnp.ndindex(*shape): o[i] = self.real(name + '_' + '_'.join(map(str, i)), lo, hi, pos)
        return o.view(self.rt.A)

    def int(self, name, lo, hi):
        import z3
        C = self.core.C
        s = self.core.Sym.var(name, True)
        a = C.byname[name]
        if not getattr(C, '_decl', None): C._decl = {}
        if name not in C._decl:
            C._decl[name] = (lo, hi, False)
            self.core.assert_def(a, a.z >= lo, a.z <= hi)
            if lo > 0: a.pos = '+'
            elif lo == 0: a.pos = '0'
        elif C._decl[name] != (lo, hi, False): raise TypeError('symbol %s declared with different bounds' % name)
        return s

    def ints(self, name, n, lo, hi):
        o = rnp.empty(n, dtype=object)
        for i in range(n): o[i] = self.int('%s_%d' % (name, i), lo, hi)
        return o.view(self.rt.A)

    def choice(self, name, n):
        if name in self.choices: return self.choices[name]
        v = self.e.choose(n); self.choices[name] = v
        return v

    def scratch(self): return '/scratch'

    def printed(self, f):
        """what f() prints"""
        R = self.rt.RT; R.printed = []; self.core.FMTINT[0] = True
        try: f()
        finally: out = ''.join(R.printed); R.printed = None; self.core.FMTINT[0] = False
        return out

    def const(self, x):
        return self.core.Sym.c(Fraction(x)) if not isinstance(x, str) else self.core.Sym.c(Fraction(x))

    def arr(self, x): return self.np.array(x, dtype=float)
    def i32(self, x): return rnp.array([int(v) for v in x], dtype=rnp.int32) if not any(isinstance(v, self.core.Sym) for v in x) else self.rt.NP.array(list(x))

    # code under test
    def world(self, **k):
        self.w = self.world_mod.World(**k); return self.w

    def load(self, mod):
        if self.w is None: self.world()
        return self.w.load(mod)

    def fresh(self, f):
        """f() with newly loaded modules (numeric runs: in a process of its own; call it before any other code under test)"""
        R = self.rt.RT; w, fs = self.w, R.fs
        self.w = None; R.fs = dict(fs)
        try: return f()
        finally: self.w = w; R.fs = fs

    # assertions
    def assume(self, c): self.e.assume(c)

    def true(self, c, what, key=None): return self.e.check(c, what, key)

    def eq(self, a, b, what, key=None, tol=None, scale=None):
        rt = self.rt
        a, b = rt.unmv(a), rt.unmv(b)
        if isinstance(a, (rnp.ndarray, list, tuple)) or isinstance(b, (rnp.ndarray, list, tuple)):
            a, b = rnp.asarray(a) if isinstance(a, rnp.ndarray) else rt.toarr(a), rnp.asarray(b) if isinstance(b, rnp.ndarray) else rt.toarr(b)
            if a.shape != b.shape:
                return self.e.check(False, '%s: shape %s instead of %s' % (what, a.shape, b.shape), key)
            ok = True
            for i in rnp.ndindex(*a.shape):
                r = self.e.check_eq(rnp.ndarray.__getitem__(a, i), rnp.ndarray.__getitem__(b, i), '%s%s' % (what, list(i) if i else ''), key)
                ok = ok and r
            return ok
        return self.e.check_eq(a, b, what, key)

    def raises(self, exc, f, what, key=None):
        try: f()
        except exc: return self.e.check(True, what, key)
        except Exception as e:
            return self.e.check(False, '%s: raised %s(%s)' % (what, type(e).__name__, e), key)
        return self.e.check(False, what + ': nothing raised', key)

    # maths
    def sqrt(self, x): return self.core.sqrt_(x)
    def exp(self, x): return self.core.exp_(x)
    def log(self, x): return self.core.log_(x)
    def pow(self, a, b): return self.core.sym_pow(a, b)
    @property
    def pi(self): return self.core.pi_()
    def isnan(self, x): return isinstance(x, float) and x != x
    def q(self, a, b): return self.core.num(a) / self.core.num(b)
    def ite(self, c, a, b): return a if c else b
    def uninit(self, *a): pass
    def note(self, *a): self.notes.append(a)


class ConcH:
    sym = False

    def __init__(self, values, choices, seed=0, jitter=None, rtol=2e-4, verbose=False):
        self.values = values; self.choices_in = choices; self.rng = random.Random(seed); self.jitter = jitter
        self.rtol = rtol; self.used = {}; self.fails = []; self.nchecks = 0; self.skipeq = False
        self.np = rnp; self.nan = float('nan'); self.inf = float('inf')
        self.choices = {}

    def _val(self, name, lo, hi, pos):
        if name in self.used: return self.used[name]
        v = self.values.get(name)
        lo, hi = fr(lo), fr(hi)
        l = lo if lo is not None else (0.1 if pos else -5.0)
        u = hi if hi is not None else (max(float(l), 0.0) + 5.0)
        if v is None or self.jitter == 'random': r = self.rng.uniform(float(l), float(u))
        else:
            r = float(v)
            if self.jitter: r = r + self.rng.uniform(-1, 1) * self.jitter * (abs(r) or 1.0)
            if lo is not None: r = max(r, float(lo))
            if hi is not None: r = min(r, float(hi))
            if pos and r <= 0: r = self.rng.uniform(0.1, 1)
        self.used[name] = r
        return r

    def real(self, name, lo=None, hi=None, pos=False): return self._val(name, lo, hi, pos)

    def reals(self, name, shape, lo=None, hi=None, pos=False):
        if isinstance(shape, int): shape = (shape,)
        o = rnp.empty(shape)
        for i in rnp.ndindex(*shape): o[i] = self.real(name + '_' + '_'.join(map(str, i)), lo, hi, pos)
        return o

    def int(self, name, lo, hi):
        if name in self.used: return self.used[name]
        v = self.values.get(name)
        v = self.rng.randint(lo, hi) if v is None or self.jitter == 'random' else int(v)
        v = min(max(v, lo), hi)
        self.used[name] = v
        return v

    def ints(self, name, n, lo, hi): return rnp.array([self.int('%s_%d' % (name, i), lo, hi) for i in range(n)], dtype=rnp.int32)

    def choice(self, name, n):
        if name in self.choices: return self.choices[name]
        v = self.choices_in.get(name)
        if v is None: v = self.rng.randrange(n)
        self.choices[name] = v
        return v

    def scratch(self):
        """a fresh directory of this run (removed by the runner)"""
        if getattr(self, '_scratch', None) is None:
            import tempfile, os
            self._scratch = tempfile.mkdtemp(prefix='s', dir=os.getcwd())
        return self._scratch

    def printed(self, f):
        import io, contextlib
        b = io.StringIO()
        with contextlib.redirect_stdout(b): f()
        return b.getvalue()

    def const(self, x): return float(Fraction(x))
    def arr(self, x): return rnp.array(x, dtype=float)
    def i32(self, x): return rnp.array(x, dtype=rnp.int32)
    def world(self, **k): return None

    def fresh(self, f):
        import os, pickle
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                try: out = (True, f())
                except Exception as x: out = (False, '%s: %s' % (type(x).__name__, x))
                with os.fdopen(w, 'wb') as o: pickle.dump(out, o)
            finally: os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as i: data = i.read()
        os.waitpid(pid, 0)
        ok, v = pickle.loads(data)
        if not ok: raise RuntimeError(v)
        return v

    def load(self, mod):
        import importlib
        return importlib.import_module(mod)

    def assume(self, c):
        if not bool(c): raise Skip('assumption')

    def true(self, c, what, key=None):
        self.nchecks += 1
        if not bool(c): self.fails.append((what, key, None))
        return bool(c)

    def eq(self, a, b, what, key=None, tol=None, scale=None):
        self.nchecks += 1
        try:
            a = rnp.array(a, dtype=float); b = rnp.array(b, dtype=float)
        except (TypeError, ValueError) as e:
            self.fails.append(('%s: not numeric (%s)' % (what, e), key, None)); return False
        if a.shape != b.shape:
            self.fails.append(('%s: shape %s instead of %s' % (what, a.shape, b.shape), key, None)); return False
        rt = tol if tol is not None else self.rtol
        with rnp.errstate(all='ignore'):
            sc = rnp.maximum(rnp.abs(a), rnp.abs(b))
            if scale is not None: sc = rnp.maximum(sc, scale)
            d = rnp.abs(a - b)
            ok = (d <= rt * sc + 1e-12) | (rnp.isnan(a) & rnp.isnan(b)) | (a == b)
        if not rnp.all(ok):
            i = tuple(int(v) for v in rnp.argwhere(~ok)[0]) if ok.shape else ()
            self.fails.append((what + (str(list(i)) if i else ''), key, (float(a[i]), float(b[i])))); return False
        return True

    def raises(self, exc, f, what, key=None):
        self.nchecks += 1
        try: f()
        except exc: return True
        except Exception as e:
            self.fails.append(('%s: raised %s(%s)' % (what, type(e).__name__, e), key, None)); return False
        self.fails.append((what + ': nothing raised', key, None)); return False

    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float('nan')
    def exp(self, x): return math.exp(x)
    def log(self, x): return math.log(x)
    def pow(self, a, b): return a ** b
    pi = math.pi
    def isnan(self, x): return x != x
    def q(self, a, b): return a / b
    def ite(self, c, a, b): return a if c else b
    def note(self, *a): pass
