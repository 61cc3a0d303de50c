"""Loads cosmic_profiles modules from the current source tree for symbolic execution.

Cython modules are translated by cy2py, Python modules by pytrans; third-party
and environment modules are replaced by the models in rt.py and the stubs here.
One World is one fresh interpreter state (configuration, caches)."""
import builtins, hashlib, importlib, os, sys, types
from . import core, cy2py, pytrans, rt
from .core import Sym, num, Inconclusive
from .rt import RT, NP, MV, A

REPO = os.environ.get('VERIF_REPO', '/repo')
_code = {}
SOURCES = {}        # module name -> (path, sha1) of everything encoded in this process


class Fake:
    """plotting & co.: accepts everything, records nothing"""
    def __init__(self, name='fake', rec=None):
        object.__setattr__(self, '_n', name); object.__setattr__(self, '_rec', rec)
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Fake(self._n + '.' + k, self._rec)
    def __setattr__(self, k, v): pass
    def __call__(self, *a, **k):
        if self._rec is not None: self._rec.append((self._n, a, k))
        if self._n.endswith('.subplots'): return Fake('fig', self._rec), Fake('ax', self._rec)
        return Fake(self._n + '()', self._rec)
    def __getitem__(self, k): return Fake(self._n, self._rec)
    def __setitem__(self, k, v): pass
    def __iter__(self): return iter([Fake(self._n, self._rec)])
    def __enter__(self): return self
    def __exit__(self, *a): return False


class Comm:
    def __init__(self, rank=0, size=1): self.rank = rank; self.size = size
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def Barrier(self): pass
    barrier = Barrier
    def bcast(self, x, root=0): return x
    def Bcast(self, x, root=0): pass
    def gather(self, x, root=0): return [x]
    def allgather(self, x): return [x]
    def Gatherv(self, send, recv, root=0):
        buf = recv[0] if isinstance(recv, (list, tuple)) else recv
        buf[:] = send


class MPIMod:
    INT = 'INT'; FLOAT = 'FLOAT'; DOUBLE = 'DOUBLE'; LONG = 'LONG'
    def __init__(self, comm): self.COMM_WORLD = comm


class Pool:
    """pathos ProcessingPool: map keeps argument order, every task sees its own copies"""
    def __init__(self, *a, **k): pass
    def map(self, f, *its): return [f(*x) for x in zip(*its)]
    imap = map
    def uimap(self, f, *its): return list(self.map(f, *its))
    def close(self): pass
    def join(self): pass
    def clear(self): pass
    def terminate(self): pass
    def restart(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class Optimize:
    """scipy.optimize: minimize is whatever the harness puts into impl"""
    def __init__(self):
        self.impl = None
        self.minimize = lambda *a, **k: self._run(*a, **k)
    def _run(self, *a, **k):
        if self.impl is None: raise Inconclusive('scipy.optimize.minimize is not modelled here')
        return self.impl(*a, **k)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Inconclusive('scipy.optimize.%s is not modelled' % n)


class Psutil:
    class _VM:
        @property
        def available(self):
            return 100 * 1024 ** 3 if RT.available_gb is None else RT.available_gb * 1024 ** 3
    def virtual_memory(self): return self._VM()


class OsPath:
    def __getattr__(self, k): return getattr(os.path, k)
    def exists(self, p): return p in RT.fs or any(q.startswith(p.rstrip('/') + '/') for q in RT.fs)
    isfile = lambda self, p: p in RT.fs
    isdir = lambda self, p: any(q.startswith(p.rstrip('/') + '/') for q in RT.fs)


class OsMod:
    path = OsPath(); sep = '/'; environ = {}; SEEK_SET = 0; SEEK_CUR = 1; SEEK_END = 2
    def __getattr__(self, k): raise Inconclusive('os.%s is not modelled' % k)
    def makedirs(self, *a, **k): pass
    mkdir = makedirs
    def getcwd(self): return '/cwd'
    def getpid(self): return 1
    def cpu_count(self): return 2
    def sched_getaffinity(self, p): return {0, 1}
    def remove(self, p):
        if p not in RT.fs: raise FileNotFoundError(p)
        RT.fs.pop(p)
    unlink = remove
    def replace(self, a, b):
        if a not in RT.fs: raise FileNotFoundError(a)
        RT.fs[b] = RT.fs.pop(a)
    rename = replace
    def listdir(self, p): return sorted({q[len(p.rstrip('/')) + 1:].split('/')[0] for q in RT.fs if q.startswith(p.rstrip('/') + '/')})


class Cython:
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return lambda *a, **kw: (lambda f: f)


class Unmodelled:
    def __init__(self, n): self._n = n
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Unmodelled(self._n + '.' + k)
    def __call__(self, *a, **k): raise Inconclusive(self._n + ' is not modelled')


class Resample:
    @staticmethod
    def resample(x, replace=True, n_samples=None, random_state=None, **k):
        import numpy as np
        n = len(x)
        if n == 0: raise ValueError('Cannot sample from an empty array')
        idx = np.random.RandomState(random_state).randint(0, n, size=(n if n_samples is None else n_samples,)) if replace else np.random.RandomState(random_state).permutation(n)[:n_samples]
        return [x[int(i)] for i in idx] if isinstance(x, list) else rt.mk(rt.toarr(x)[idx])


class KDTree:
    """cKDTree of few points: radius queries by comparing every distance"""
    def __init__(self, data, leafsize=16, compact_nodes=True, copy_data=False, balanced_tree=True, boxsize=None):
        if boxsize is not None: raise Inconclusive('periodic cKDTree')
        self.data = rt.toarr(data); self.n, self.m = self.data.shape
    def query_ball_point(self, x, r, p=2.0, eps=0, workers=1, return_sorted=None, return_length=False):
        if p != 2 or eps != 0: raise Inconclusive('cKDTree query in an unmodelled mode')
        x = rt.toarr(x)
        if x.ndim != 1: raise Inconclusive('cKDTree query of several points')
        out = []
        for i in range(self.n):
            d = core.num(0)
            for a in range(self.m): d = d + (self.data[i, a] - x[a]) * (self.data[i, a] - x[a])
            rr = num(r)
            if rr >= 0 and d <= rr * rr: out.append(i)
        return len(out) if return_length else out


class Rotation:
    """rotations about the z axis"""
    def __init__(self, m): self.m = m
    @staticmethod
    def from_rotvec(v, degrees=False):
        v = [num(x) for x in rt.flat(rt.toarr(v))]
        if degrees or not all(x.isconst and x.cval == 0 for x in v[:2]): raise Inconclusive('rotation about another axis')
        c, s = core.cos_(v[2]), core.sin_(v[2])
        return Rotation(NP.array([[c, -s, 0], [s, c, 0], [0, 0, 1]], dtype=float))
    def as_matrix(self): return self.m.copy()
    def apply(self, p): raise Inconclusive('Rotation.apply')


class Stats_:
    class chi2:
        @staticmethod
        def cdf(x, dof): return core.uf_('chi2cdf', [x, dof], 0, 1)
        @staticmethod
        def sf(x, dof): return 1 - core.uf_('chi2cdf', [x, dof], 0, 1)
    @staticmethod
    def ks_2samp(x, y): raise Inconclusive('ks_2samp')


def sprint(*a, sep=' ', end='\n', file=None, **k):
    if RT.printed is not None and file is None: RT.printed.append(sep.join(fmt(x) for x in a) + end)


def _cdefs():
    d = {}
    m = rt.SymMath()
    for k in ('sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'fabs', 'pow', 'floor', 'ceil', 'isnan', 'isinf', 'isfinite', 'acos', 'atan2', 'hypot'):
        d[k] = getattr(m, k)
    for k, n in (('asin', 'arcsin'), ('atan', 'arctan'), ('tan', 'tan'), ('cbrt', 'cbrt'), ('trunc', 'trunc'), ('log2', 'log2'), ('exp2', 'exp2'), ('log1p', 'log1p'), ('expm1', 'expm1'), ('fmax', 'fmax'), ('fmin', 'fmin')):
        d[k] = (lambda f: lambda *a: f(*[num(x) for x in a]))(getattr(rt.NP, n))
    d['fabsf'] = d['fabs']; d['sqrtf'] = lambda x: core.sqrt_(num(x))
    d['sqrt'] = lambda x: core.sqrt_(num(x))
    d['NAN'] = core.NAN; d['INFINITY'] = core.INF
    return d


def cmath(name):
    if name in ('pi', 'M_PI'): return core.pi_()
    d = _cdefs()
    if name not in d: raise Inconclusive('libc.math.' + name)
    return d[name]


class PtrNew:
    pass


def fmt(v, spec='', conv=None):
    if conv == 'r': v = repr(v)
    elif conv == 's': v = str(v)
    if isinstance(spec, Sym): spec = str(spec)
    if isinstance(v, Sym):
        if v.isint and not spec: return str(int(v))
        return v.__format__(spec or '')
    return format(v, spec or '')


def pctfmt(s, a):
    def c(x):
        if isinstance(x, Sym):
            if x.isconst: return int(x.cval) if x.isint else float(x.cval)
            return 0
        return x
    a = tuple(c(x) for x in a) if isinstance(a, tuple) else c(a)
    try: return s % a
    except TypeError: return s


def idiv(a, b):
    import numpy as rnp
    if isinstance(a, rnp.ndarray):
        a[...] = rt.div(a, b); return a
    return rt.div(a, b)


def ipow(a, b):
    import numpy as rnp
    if isinstance(a, rnp.ndarray):
        a[...] = rt.pow_(a, b); return a
    return rt.pow_(a, b)


def zheevr(jobz, rnge, uplo, n, a, lda, vl, vu, il, iu, abstol, m, w, z, ldz, isuppz, work, lwork, rwork, lrwork, iwork, liwork, info):
    def g(p): return p.get() if isinstance(p, rt.PtrName) else p
    up, jz, rg = g(uplo), g(jobz), g(rnge)
    def ch(c): return c.decode() if isinstance(c, bytes) else chr(c) if isinstance(c, int) else str(c)
    up, jz, rg = ch(up), ch(jz), ch(rg)
    N = int(g(n))
    if jz != 'V' or rg != 'A' or N != 3: raise Inconclusive('zheevr called in an unmodelled mode')
    H = a.base; Z = z.base
    T = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            k = (i, j) if ((i >= j) == (up == 'L') or i == j) else (j, i)
            T[i][j] = H[k[0], k[1]]
    if RT.zheevr is None: raise Inconclusive('no eigen-solver model installed')
    vals, vecs = RT.zheevr(T)
    for k in range(3):
        if isinstance(w, rt.PtrItem): w.base[tuple([int(i) for i in w.idx[:-1]] + [int(w.idx[-1]) + k])] = vals[k]
        else: w[k] = vals[k]
        for i in range(3): Z[i, k] = vecs[k][i]


class World:
    def __init__(self, overrides=None, rank=0, size=1, nocache=False, transform=None):
        self.mods = {}
        self.transform = transform or {}
        self.rec = []
        self.nocache = nocache
        comm = Comm(rank, size)
        fake = Fake('matplotlib', self.rec)
        cp = types.SimpleNamespace(prange=rt.prange, parallel=types.SimpleNamespace(prange=rt.prange))
        opt = self.optimize = Optimize()
        self.shims = {
            'numpy': NP, 'numpy.random': NP.random, 'numpy.linalg': rt.Linalg, 'math': rt.SymMath(),
            'scipy.interpolate': types.SimpleNamespace(interp1d=rt.interp1d),
            'scipy.linalg': types.SimpleNamespace(cholesky=rt.cholesky, inv=rt.inv, norm=rt.Linalg.norm),
            'scipy.spatial': types.SimpleNamespace(cKDTree=KDTree, KDTree=KDTree),
            'scipy.spatial.transform': types.SimpleNamespace(Rotation=Rotation),
            'scipy': types.SimpleNamespace(stats=Stats_, optimize=opt),
            'scipy.stats': Stats_,
            'scipy.optimize': opt,
            'scipy.integrate': types.SimpleNamespace(quad=Unmodelled('scipy.integrate.quad')),
            'scipy.linalg.cython_lapack': types.SimpleNamespace(zheevr=zheevr),
            'sklearn': types.SimpleNamespace(utils=Resample), 'sklearn.utils': Resample,
            'matplotlib': fake, 'matplotlib.pyplot': fake.pyplot, 'matplotlib.font_manager': fake.font_manager,
            'mpl_toolkits': fake, 'mpl_toolkits.mplot3d': fake.mplot3d, 'matplotlib.ticker': fake.ticker,
            'mpi4py': types.SimpleNamespace(MPI=MPIMod(comm)), 'mpi4py.MPI': MPIMod(comm),
            'psutil': Psutil(), 'pathos': types.SimpleNamespace(multiprocessing=types.SimpleNamespace(ProcessingPool=Pool)),
            'pathos.multiprocessing': types.SimpleNamespace(ProcessingPool=Pool),
            'os': OsMod(), 'os.path': OsPath(), 'glob': Unmodelled('glob'), 'h5py': Unmodelled('h5py'),
            'subprocess': types.SimpleNamespace(call=lambda *a, **k: 0, run=lambda *a, **k: 0, check_call=lambda *a, **k: 0),
            'cython': Cython(), 'cython.parallel': cp.parallel, 'openmp': rt.OpenMP,
            'cython.cimports': None,
            'libc.stdio': types.SimpleNamespace(printf=lambda *a: 0),
            'libc.math': None,
        }
        if overrides: self.shims.update(overrides)
        self.builtins = dict(vars(builtins))
        self.builtins.update({
            '__import__': self._import, 'float': rt.sfloat, 'int': rt.sint, 'type': rt.stype, 'sum': rt.ssum,
            'round': rt.sround, 'print': sprint, 'max': rt.smax, 'min': rt.smin,
            'open': self._open, 'complex': core.SymC, 'hash': rt.shash, 'len': rt.slen,
        })
        self.inject = {
            '_R': rt.R, '_div': rt.div, '_pow': rt.pow_, '_div_c': rt.div_c, '_idiv': idiv, '_ipow': ipow, '_pctfmt': pctfmt,
            '_enter': lambda n: RT.functions.add(n), '_c_int': rt.c_int, '_c_double': rt.c_double, '_c_float': rt.c_double,
            '_c_complex': rt.c_double, '_c_bint': rt.c_bint, '_c_str': rt.c_str, '_c_mv': rt.c_mv, '_uninit': rt.Uninit,
            '_cast_int': rt.cast_int, '_cast_double': rt.c_double, '_cast_float': rt.c_double, '_cast_complex': rt.c_double, '_cast_bint': rt.c_bint,
            '_PtrItem': rt.PtrItem, '_PtrName': rt.PtrName, '_cimport': self._cimport, '_fromcimport': self._fromcimport,
            '_CObject': rt.CObject, '_join': lambda *a: ''.join(a), '_fmt': fmt,
            'PyDataMem_NEW': lambda n: PtrNew(), 'PyDataMem_FREE': lambda p: None,
        }
        self.open_hook = None
        self.mods['cosmic_profiles'] = self._pkg('cosmic_profiles')

    def _open(self, *a, **k):
        if self.open_hook is not None: return self.open_hook(*a, **k)
        raise Inconclusive('open() is not modelled here')

    def _pkg(self, name):
        m = types.ModuleType(name); m.__path__ = []; m.__package__ = name
        return m

    # ---------------------------------------------------------------- import
    def load(self, name):
        if name in self.shims:
            r = self.shims[name]
            if r is not None: return r
        if name in self.mods: return self.mods[name]
        if name.split('.')[0] == 'cosmic_profiles': return self._load_repo(name)
        top = name.split('.')[0]
        if top in ('time', 'functools', 'inspect', 're', 'sys', 'collections', 'itertools', 'operator', 'copy', 'warnings', 'string',
                   'struct', 'io', 'abc', 'typing', 'types', 'threading', 'heapq', 'bisect', 'numbers', 'fractions', 'contextlib', '__future__',
                   'weakref', 'datetime', 'hashlib', 'pathlib', 'enum', 'dataclasses', 'random', 'logging', 'textwrap', 'json', 'pickle'):
            return importlib.import_module(name)
        if name.startswith('numpy._core') or name.startswith('numpy.core'): return importlib.import_module(name)      # numpy's own lazy imports
        raise Inconclusive('import of unmodelled module ' + name)

    def _load_repo(self, name):
        rel = name.split('.')
        base = os.path.join(REPO, *rel)
        par = name.rpartition('.')[0]
        if par and par not in self.mods: self._load_repo(par)
        if os.path.isdir(base):
            m = self.mods[name] = self._pkg(name)
        else:
            path = base + '.pyx' if os.path.exists(base + '.pyx') else base + '.py'
            if not os.path.exists(path): raise ImportError('No module named %r' % name)
            code = compile_file(path, name, self.transform.get(name))
            m = types.ModuleType(name); m.__file__ = path; m.__package__ = par
            m.__dict__['__builtins__'] = self.builtins
            m.__dict__.update(self.inject)
            self.mods[name] = m
            try: exec(code, m.__dict__)
            except BaseException:
                self.mods.pop(name, None); raise
            if self.nocache and name == 'cosmic_profiles.common.caching':
                m.np_cache_factory = lambda a, b: (lambda f: f)
        if par: setattr(self.mods[par], rel[-1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals.get('__package__') or '').split('.')
            pkg = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        if fromlist:
            m = self.load(name)
            for f in fromlist:
                sub = name + '.' + f
                if not hasattr(m, f) and name.split('.')[0] == 'cosmic_profiles':
                    try: self._load_repo(sub)
                    except ImportError: pass
                elif sub in self.shims and self.shims[sub] is not None and not hasattr(m, f):
                    try: setattr(m, f, self.shims[sub])
                    except Exception: pass
            return m
        m = self.load(name)
        top = name.split('.')[0]
        return m if top == name else self.load(top)

    def _cimport(self, g, mod, as_):
        if mod.split('.')[0] in ('libc', 'numpy') and mod not in ('numpy',):
            return
        m = self.load(mod)
        g[as_ or mod.split('.')[0]] = m

    def _fromcimport(self, g, mod, name, as_):
        if mod == 'libc.math': g[as_] = cmath(name); return
        if mod in ('libc.stdlib', 'libc.string', 'libc.stdint'): raise Inconclusive('cimport from ' + mod)
        m = self.load(mod)
        g[as_] = getattr(m, name)


def compile_file(path, name, transform=None):
    with open(path) as f: src = f.read()
    if transform is not None: src = transform(src)
    pxd = None
    if path.endswith('.pyx') and os.path.exists(path[:-4] + '.pxd'):
        with open(path[:-4] + '.pxd') as f: pxd = f.read()
    h = hashlib.sha1((src + '\0' + (pxd or '')).encode()).hexdigest()
    SOURCES[name] = (path, h)
    k = (path, h)
    c = _code.get(k)
    if c is None:
        if path.endswith('.pyx'):
            text = cy2py.translate(src, pxd)
            c = pytrans.compile_py(text, path, enter=False)
        else:
            c = pytrans.compile_py(src, path)
        _code[k] = c
    return c
