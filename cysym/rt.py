"""Run-time for translated code: C-typed coercions, memoryviews, OpenMP model, numpy model."""
import builtins, io, math, itertools
from fractions import Fraction
import numpy as rnp
from . import core
from .core import Sym, SymBool, num, NAN, INF, Inconclusive, OutOfBounds


class Uninit:
    """value of an uninitialised C variable: any use is an error"""
    def __init__(self, name): self.name = name
    def _bad(self, *a): raise OutOfBounds('use of uninitialised C variable ' + self.name)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __gt__ = __le__ = __ge__ = __index__ = __bool__ = __float__ = __neg__ = _bad


class RT:
    """mutable state of one run of translated code (reset per path)"""
    thread = 0
    nthreads = 1
    schedule = None       # fn(n) -> iterable of (thread, index)
    hook = None           # memory access hook (read(addr, val)->val, write(addr))
    zheevr = None         # eigen-solver contract stub
    fs = None             # dict path -> saved array (savetxt model)
    fromfile = None; frombuffer = None; byteswap = None
    functions = set()     # names of translated functions entered
    random = None
    cur_iter = None
    par_depth = 0
    printed = None        # list: what print() was given
    symint = False        # new int32 arrays can hold symbolic integers

    @classmethod
    def reset(cls):
        cls.thread = 0; cls.nthreads = 1; cls.schedule = None; cls.hook = None; cls.zheevr = None
        cls.fs = {}; cls.fromfile = None; cls.frombuffer = None; cls.byteswap = None; cls.random = None; cls.cur_iter = None; cls.par_depth = 0
        cls.available_gb = None; cls.symint = False; cls.printed = None


# ------------------------------------------------------------ arrays --------
def _width(v, rd):
    """what an integer array of this type keeps of v"""
    if isinstance(v, rnp.ndarray):
        if v.dtype != object: return v.astype(rd).astype(object)
        o = rnp.empty(v.shape, dtype=object)
        for i in rnp.ndindex(*v.shape): o[i] = _width(rnp.ndarray.__getitem__(v, i), rd)
        return o.view(A)
    if isinstance(v, float): raise ValueError('cannot convert float NaN to integer')
    if isinstance(v, Sym):
        if not v.isint: v = core.trunc_(v)
        if v.isconst: v = int(v.cval)
    if isinstance(v, (int, rnp.integer)) and not isinstance(v, bool):
        return int(rnp.array([int(v)], dtype=object).astype(rd)[0]) if rnp.iinfo(rd).min <= v <= rnp.iinfo(rd).max else int(v) % (rnp.iinfo(rd).max - rnp.iinfo(rd).min + 1)
    if isinstance(v, Sym):
        i = rnp.iinfo(rd)
        if bool(v >= int(i.min)) and bool(v <= int(i.max)): return v
        return core.fresh('wrapped', True)
    return v


class A(rnp.ndarray):
    """object ndarray of Sym / python values; indices may be symbolic (forks)."""

    def __array_finalize__(self, obj): pass

    def __getitem__(self, k): return rnp.ndarray.__getitem__(self, idx(k))

    def __setitem__(self, k, v):
        v = unmv(v)
        if self.dtype == object: v = symify(v)
        iw = self.__dict__.get('_iw')
        if iw is not None: v = _width(v, iw)
        rnp.ndarray.__setitem__(self, idx(k), v)

    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __itruediv__(self, o):
        self[...] = div(self, o); return self

    def __pow__(self, o): return pow_(self, o)
    def __rpow__(self, o): return pow_(o, self)

    def round(self, *a): return emap(lambda x: x if isinstance(x, float) else num(x).__round__(0), self)
    def astype(self, dt, *a, **k): return NP.array(self, dtype=dt)

    def byteswap(self, inplace=False):
        if RT.byteswap is None: raise Inconclusive('byteswap')
        o = self if inplace else self.copy()
        for i in rnp.ndindex(*o.shape): rnp.ndarray.__setitem__(o, i, RT.byteswap(rnp.ndarray.__getitem__(o, i)))
        return o
    def sum(self, *a, **k): return NP.sum(self, *a, **k)
    def mean(self, *a, **k): return NP.mean(self, *a, **k)
    def max(self, *a, **k): return NP.max(self, *a, **k)
    def min(self, *a, **k): return NP.min(self, *a, **k)
    def argmin(self, *a, **k): return NP.argmin(self, *a, **k)
    def argmax(self, *a, **k): return NP.argmax(self, *a, **k)
    def std(self, *a, **k): return NP.std(self, *a, **k)
    def var(self, *a, **k): return NP.var(self, *a, **k)
    def nonzero(self): return NP.nonzero(self)
    def dot(self, o): return NP.dot(self, o)
    def tolist(self): return rnp.ndarray.tolist(self)
    def cumsum(self, *a, **k): return NP.cumsum(self, *a, **k)
    def prod(self, *a, **k): return NP.prod(self, *a, **k)
    def ptp(self, *a, **k): return NP.ptp(self, *a, **k)
    def clip(self, *a, **k): return NP.clip(self, *a, **k)
    def argsort(self, *a, **k): return NP.argsort(self, *a, **k)
    def searchsorted(self, *a, **k): return NP.searchsorted(self, *a, **k)
    def sort(self, axis=-1, **k): rnp.ndarray.__setitem__(self, Ellipsis, NP.sort(self, axis))
    def any(self, *a, **k): return NP.any(self, *a, **k)
    def all(self, *a, **k): return NP.all(self, *a, **k)

    @property
    def real(self): return self

    def __reduce__(self): raise Inconclusive('pickling symbolic array')


def unmv(x):
    return x.a if isinstance(x, MV) else x


def idx(k):
    if isinstance(k, tuple): return tuple(idx1(x) for x in k)
    return idx1(k)


def idx1(x):
    if isinstance(x, MV): x = x.a
    if isinstance(x, Sym): return x.__index__()
    if isinstance(x, SymBool): return bool(x)
    if isinstance(x, slice): return slice(*(None if v is None else int(v) if isinstance(v, Sym) else v for v in (x.start, x.stop, x.step)))
    if isinstance(x, rnp.ndarray) and x.dtype == object:
        f = list(rnp.ndarray.reshape(x, -1))
        if f and isinstance(f[0], (bool, SymBool, rnp.bool_)):
            return rnp.array([bool(v) for v in f], dtype=bool).reshape(x.shape)
        return rnp.array([v.__index__() for v in f], dtype=rnp.int64).reshape(x.shape)
    if isinstance(x, list) and any(isinstance(v, Sym) for v in x): return [v.__index__() for v in x]
    return x


def mk(x):
    """ndarray -> A view if object"""
    if isinstance(x, rnp.ndarray) and x.dtype == object and not isinstance(x, A): return x.view(A)
    return x


def haso(x):
    return isinstance(x, Sym) or (isinstance(x, rnp.ndarray) and x.dtype == object)


def symify(v):
    """native numeric -> object array of Sym (floats) / ints"""
    if isinstance(v, rnp.ndarray):
        if v.dtype.kind == 'f':
            o = rnp.empty(v.shape, dtype=object)
            for i in rnp.ndindex(*v.shape): o[i] = num(float(v[i]))
            return o.view(A)
        return v
    if isinstance(v, (float, rnp.floating)): return num(float(v))
    if isinstance(v, (list, tuple)): return NP.array(v)
    return v


def floatify(x):
    """to object array of reals (Sym real)"""
    x = unmv(x)
    if isinstance(x, Sym): return Sym(x.n, x.d, False)
    if isinstance(x, rnp.ndarray):
        o = rnp.empty(x.shape, dtype=object)
        f = o.reshape(-1) if o.ndim else o
        for i in rnp.ndindex(*x.shape):
            v = rnp.ndarray.__getitem__(x, i)
            v = num(v.item() if isinstance(v, rnp.generic) else v)
            if v is NotImplemented: raise ValueError('could not convert to float')
            o[i] = v if isinstance(v, float) else Sym(v.n, v.d, False)
        return o.view(A)
    if isinstance(x, str):
        return num(Fraction(x)) if x not in ('nan', 'inf', '-inf') else float(x)
    v = num(x)
    if v is NotImplemented: raise TypeError('float() argument must be a number')
    return v if isinstance(v, float) else Sym(v.n, v.d, False)


def emap(f, x):
    x = unmv(x)
    if isinstance(x, (list, tuple)): x = NP.array(x)
    if not isinstance(x, rnp.ndarray): return f(x)
    o = rnp.empty(x.shape, dtype=object)
    for i in rnp.ndindex(*x.shape): o[i] = f(rnp.ndarray.__getitem__(x, i))
    return o.view(A)


def bmap(f, x):
    x = unmv(x)
    if isinstance(x, (list, tuple)): x = NP.array(x)
    if not isinstance(x, rnp.ndarray): return f(x)
    o = rnp.empty(x.shape, dtype=bool)
    for i in rnp.ndindex(*x.shape): o[i] = bool(f(rnp.ndarray.__getitem__(x, i)))
    return o


def div(a, b):
    """numpy / python true division"""
    a = unmv(a); b = unmv(b)
    if isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray):
        a = floatify(a) if not haso(a) else a
        b = floatify(b) if not haso(b) else b
        return mk(rnp.true_divide(a if isinstance(a, rnp.ndarray) else obj0(a), b if isinstance(b, rnp.ndarray) else obj0(b)))
    if isinstance(a, (list, str)) or isinstance(b, (list, str)): raise TypeError('unsupported operand for /')
    x, y = num(a), num(b)
    if x is NotImplemented or y is NotImplemented: return a / b
    native = not isinstance(a, (Sym, rnp.generic)) and not isinstance(b, (Sym, rnp.generic))
    if native and not isinstance(x, float) and not isinstance(y, float) and y.isconst and y.cval == 0: raise ZeroDivisionError('division by zero')
    if isinstance(x, float) and isinstance(y, float): return NAN
    return x / y


def obj0(v):
    o = rnp.empty((), dtype=object); o[()] = v
    return o


def div_c(a, b):
    """Cython '/': C doubles raise ZeroDivisionError on a zero divisor"""
    a = unmv(a); b = unmv(b)
    if isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray): return div(a, b)
    x, y = num(a), num(b)
    if x is NotImplemented or y is NotImplemented: return a / b
    if isinstance(y, Sym) and isinstance(x, Sym): return x._div(y, raising=True)
    if isinstance(y, Sym) and (y == 0): raise ZeroDivisionError('float division')
    if isinstance(x, float) and isinstance(y, float): return NAN
    return x / y


def pow_(a, b):
    a = unmv(a); b = unmv(b)
    if isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray):
        if not isinstance(a, rnp.ndarray): return emap(lambda e: pow_(a, e), b)
        if isinstance(b, rnp.ndarray):
            a2, b2 = rnp.broadcast_arrays(a, b)
            o = rnp.empty(a2.shape, dtype=object)
            for i in rnp.ndindex(*a2.shape): o[i] = pow_(a2[i], b2[i])
            return o.view(A)
        if a.dtype != object and isinstance(b, int): return a ** b
        return emap(lambda e: pow_(e, b), a)
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        if b >= 0: return a ** b
        return Sym.c(Fraction(1, a ** (-b)))
    x, y = num(a), num(b)
    if x is NotImplemented or y is NotImplemented: return a ** b
    return core.sym_pow(x, y)


# ------------------------------------------------------- memoryviews --------
class MV:
    """Cython typed memoryview"""
    __slots__ = ('a', 'owner', 'el')
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, a, owner, el):
        self.a = a; self.owner = owner; self.el = el

    @property
    def base(self): return self.owner
    @property
    def shape(self): return self.a.shape
    @property
    def ndim(self): return self.a.ndim
    @property
    def size(self): return self.a.size
    @property
    def T(self): return MV(self.a.T, self.owner, self.el)
    @property
    def strides(self): return self.a.strides
    @property
    def nbytes(self): return self.a.size * 8
    @property
    def itemsize(self): return 8
    def copy(self):
        c = rnp.array(self.a, copy=True); c = mk(c)
        return MV(c, c, self.el)
    def __len__(self): return self.a.shape[0]

    def __iter__(self):
        for i in range(self.a.shape[0]): yield self[i]

    def _idx(self, k):
        if not isinstance(k, tuple): k = (k,)
        if any(x is Ellipsis for x in k):
            p = [i for i, x in enumerate(k) if x is Ellipsis][0]
            k = k[:p] + (slice(None),) * (self.a.ndim - len(k) + 1) + k[p + 1:]
        out = []
        full = len(k) == self.a.ndim
        for d, x in enumerate(k):
            if isinstance(x, slice):
                x = slice(*(None if v is None else int(v) for v in (x.start, x.stop, x.step)))
                full = False
            else:
                if isinstance(x, Uninit): x._bad()
                if not isinstance(x, int): x = x.__index__()
                n = self.a.shape[d] if d < self.a.ndim else 0
                if x >= n or x < -n: raise OutOfBounds('index %d out of bounds for axis %d with size %d' % (x, d, n))
            out.append(x)
        return tuple(out), full

    def __getitem__(self, k):
        k, full = self._idx(k)
        if full:
            v = rnp.ndarray.__getitem__(self.a, k)
            if isinstance(v, rnp.generic): v = v.item()
            if RT.hook is not None: v = RT.hook.read(self, k, v)
            return v
        return MV(rnp.ndarray.__getitem__(self.a, k), self.owner, self.el)

    def __setitem__(self, k, v):
        k, full = self._idx(k)
        if full:
            v = EL[self.el](v)
            if RT.hook is not None: RT.hook.write(self, k)
            rnp.ndarray.__setitem__(self.a, k, v)
            return
        dst = rnp.ndarray.__getitem__(self.a, k)
        if RT.hook is not None:
            # element-wise so that the hook sees every access
            if isinstance(v, MV):
                if v.a.shape != dst.shape: raise ValueError('memoryview assignment: Differing extents')
                d = MV(dst, None, self.el); tmp = {}
                same = dst.__array_interface__['data'][0] == v.a.__array_interface__['data'][0] and dst.strides == v.a.strides
                if same: return
                for i in rnp.ndindex(*dst.shape): tmp[i] = v[i]
                for i, x in tmp.items(): d[i] = x
                return
            d = MV(dst, None, self.el)
            src = v
            for i in rnp.ndindex(*dst.shape): d[i] = src if not isinstance(src, rnp.ndarray) else src[i]
            return
        if isinstance(v, MV):
            if v.a.shape != dst.shape:
                raise ValueError('memoryview assignment: Differing extents %s and %s' % (dst.shape, v.a.shape))
            src = rnp.array(v.a, copy=True)
            rnp.ndarray.__setitem__(self.a, k, src)
        elif isinstance(v, rnp.ndarray):
            if v.shape != dst.shape: raise ValueError('memoryview assignment: Differing extents')
            rnp.ndarray.__setitem__(self.a, k, symify(v) if self.a.dtype == object else v)
        else:
            v = EL[self.el](v)
            fill(dst, v)

    # python-level arithmetic on memoryviews is a TypeError in Cython


def fill(dst, v):
    for i in rnp.ndindex(*dst.shape): rnp.ndarray.__setitem__(dst, i, v)


def c_int(x):
    if type(x) is int: return x
    if isinstance(x, (bool, rnp.integer, rnp.bool_)): return int(x)
    if isinstance(x, SymBool): return int(bool(x))
    if isinstance(x, Sym):
        if x.isint:
            return int(x.cval) if x.isconst else x
        raise TypeError('expected int, got float')
    if isinstance(x, rnp.ndarray) and x.ndim == 0: return c_int(x[()])
    if isinstance(x, Uninit): x._bad()
    raise TypeError('an integer is required (got %s)' % type(x).__name__)


def c_double(x):
    if isinstance(x, Sym): return x if not x.isint else Sym(x.n, x.d, False)
    if isinstance(x, float): return num(x)
    if isinstance(x, Uninit): x._bad()
    if isinstance(x, rnp.ndarray) and x.ndim == 0: return c_double(x[()])
    v = num(x)
    if v is NotImplemented or isinstance(x, str): raise TypeError('must be real number, not %s' % type(x).__name__)
    return v if isinstance(v, float) else Sym(v.n, v.d, False)


def c_bint(x): return bool(x)


def c_str(x):
    if x is not None and not isinstance(x, str): raise TypeError('Expected str, got %s' % type(x).__name__)
    return x


EL = {'double': c_double, 'float': c_double, 'complex': c_double, 'int': c_int, 'bint': c_bint}


def c_mv(el, nd, x):
    if x is None: return None
    if isinstance(x, MV):
        if x.a.ndim != nd: raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (nd, x.a.ndim))
        if (x.el == 'int') != (el == 'int'): raise ValueError('Buffer dtype mismatch')
        return x
    if not isinstance(x, rnp.ndarray): raise TypeError('a bytes-like object is required, not %r' % type(x).__name__)
    if x.ndim != nd: raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (nd, x.ndim))
    if x.dtype == object:
        if el == 'int':
            if any(isinstance(v, float) or (isinstance(v, Sym) and not v.isint) for v in rnp.ndarray.reshape(x, -1)): raise ValueError('Buffer dtype mismatch, expected int')
        return MV(mk(x), mk(x), el)
    if el == 'int':
        if x.dtype != rnp.int32: raise ValueError("Buffer dtype mismatch, expected 'int' but got %s" % x.dtype)
        return MV(x, x, el)
    if x.dtype.kind == 'f':
        if x.dtype == rnp.float64:
            y = symify(x); return MV(y, y, el)
    if x.dtype.kind == 'c':
        y = floatify(x); return MV(y, y, el)
    raise ValueError("Buffer dtype mismatch, expected %r but got %s" % (el, x.dtype))


class PtrItem:
    def __init__(self, base, idx): self.base = base; self.idx = idx


class PtrName:
    def __init__(self, name, get): self.name = name; self.get = get


class CObject:
    """base of cdef classes: typed attributes"""
    _ctypes = {}

    def __setattr__(self, k, v):
        ct = None
        for c in type(self).__mro__:
            d = c.__dict__.get('_ctypes')
            if d and k in d: ct = d[k]; break
        if ct: v = coerce(ct, v)
        object.__setattr__(self, k, v)


def coerce(ct, v):
    if ct.startswith('mv:'):
        _, el, nd = ct.split(':'); return c_mv(el, int(nd), v)
    return {'int': c_int, 'double': c_double, 'float': c_double, 'bint': c_bint, 'str': c_str, 'complex': c_double}.get(ct, lambda x: x)(v)


def prange(*args, schedule=None, nogil=None, num_threads=None, chunksize=None, **k):
    a = [int(x) for x in args]
    r = range(*a)
    RT.par_depth += 1
    if RT.schedule is None: order = [(0, j) for j in range(len(r))]
    else: order = RT.schedule(len(r))
    try:
        for t, j in order:
            RT.thread = t; RT.cur_iter = (RT.par_region, j)
            if RT.hook is not None: RT.hook.iteration(t, j)
            yield r[j]
    finally:
        RT.thread = 0; RT.cur_iter = None; RT.par_depth -= 1; RT.par_region += 1


RT.par_region = 0


class OpenMP:
    @staticmethod
    def omp_get_thread_num(): return RT.thread
    @staticmethod
    def omp_get_max_threads(): return RT.nthreads
    @staticmethod
    def omp_get_num_threads(): return RT.nthreads if RT.par_depth else 1
    @staticmethod
    def omp_get_num_procs(): return RT.nthreads
    @staticmethod
    def omp_set_num_threads(n): pass


# --------------------------------------------------------------- numpy ------
class DType:
    def __init__(self, real): self.real = real; self.__name__ = real.__name__

    def __call__(self, x=0, *a):
        return NP.array(x, dtype=self, scalar=True)

    def __eq__(self, o):
        return realdt(o) == rnp.dtype(self.real)
    def __hash__(self): return hash(self.real)
    @property
    def itemsize(self): return rnp.dtype(self.real).itemsize
    @property
    def dtype(self):        # numpy itself asks for this (astype of an integer array and the like)
        r = rnp.dtype(self.real)
        if r.kind not in 'iub': raise AttributeError('dtype')
        return r


def realdt(dt):
    if dt is None: return None
    if isinstance(dt, DType): return rnp.dtype(dt.real)
    if dt in (float, builtins.float): return rnp.dtype(float)
    if getattr(dt, '_is_float', False): return rnp.dtype(float)
    if getattr(dt, '_is_int', False): return rnp.dtype(int)
    if isinstance(dt, list):
        return rnp.dtype([(t[0], realdt(t[1])) + tuple(t[2:]) for t in dt])
    if isinstance(dt, tuple) and len(dt) == 2 and not isinstance(dt[0], str): return rnp.dtype((realdt(dt[0]), dt[1]))
    return rnp.dtype(dt)


def flat(x):
    x = unmv(x)
    return [rnp.ndarray.__getitem__(x, i) for i in rnp.ndindex(*x.shape)]


def anysym(x):
    """nested list/array contains Sym"""
    if isinstance(x, (Sym, SymBool, core.SymC)): return True
    if isinstance(x, MV): return x.a.dtype == object
    if isinstance(x, rnp.ndarray): return x.dtype == object
    if isinstance(x, (list, tuple)): return any(anysym(v) for v in x)
    return False


def anyfloat(x):
    if isinstance(x, (float, rnp.floating)): return True
    if isinstance(x, Sym): return not x.isint
    if isinstance(x, rnp.ndarray): return x.dtype.kind == 'f' or (x.dtype == object and any(anyfloat(v) for v in flat(x)))
    if isinstance(x, MV): return anyfloat(x.a)
    if isinstance(x, (list, tuple)): return any(anyfloat(v) for v in x)
    return False


def toarr(x):
    """anything -> ndarray (A when it carries reals)"""
    x = unmv(x)
    if isinstance(x, rnp.ndarray): return symify(x) if x.dtype.kind == 'f' else mk(x)
    return NP.array(x)


STRUCT = set("""tril triu compress extract rollaxis rot90 fliplr flipud hsplit vsplit dsplit split atleast_3d block resize trace
    diagonal meshgrid apply_along_axis insert copyto place putmask put put_along_axis take_along_axis inner vdot tensordot kron ediff1d
    convolve triu_indices_from tril_indices_from row_stack unstack permute_dims matrix_transpose astype fill_diagonal diagflat select choose
    concat shares_memory may_share_memory vander apply_over_axes trim_zeros broadcast_arrays""".split())


def structarg(x):
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, (list, tuple, rnp.ndarray, MV)) for v in x): return type(x)(structarg(v) for v in x)
        return toarr(x) if anysym(x) else x
    x = unmv(x)
    if isinstance(x, rnp.ndarray) and x.dtype == object and x.size and all(isinstance(v, (SymBool, bool, rnp.bool_)) for v in flat(x)): return bmap(bool, x)
    return conc(x)


def structres(r):
    if isinstance(r, (tuple, list)): return type(r)(structres(v) for v in r)
    if isinstance(r, rnp.ndarray): return emap(lambda v: num(v) if isinstance(v, (float, rnp.floating)) else v, r) if r.dtype == object else symify(r) if r.dtype.kind == 'f' else mk(r)
    return r


def defer(name):
    f = getattr(rnp, name)

    def g(*a, **k):
        if any(anysym(x) for x in a) or any(anysym(x) for x in k.values()):
            if name in STRUCT:
                # pure rearrangement (or sums of products written with + and *): numpy itself on object arrays
                r = f(*[structarg(x) for x in a], **{kk: structarg(v) for kk, v in k.items()})
                return structres(r)
            raise Inconclusive('numpy.%s is not modelled for symbolic arguments' % name)
        r = f(*[conc(x) for x in a], **{kk: conc(v) for kk, v in k.items()})
        return symres(r)
    return g


def conc(x):
    if isinstance(x, DType): return x.real
    if isinstance(x, MV): return x.a
    return x


def symres(r):
    if isinstance(r, rnp.ndarray) and r.dtype.kind == 'f': return symify(r)
    if isinstance(r, (float, rnp.floating)): return num(float(r))
    if isinstance(r, tuple): return tuple(symres(x) for x in r)
    return r


def ax_reduce(x, axis, f):
    x = toarr(x)
    if axis is None: return f(flat(x))
    if axis < 0: axis += x.ndim
    y = rnp.moveaxis(x, axis, -1)
    o = rnp.empty(y.shape[:-1], dtype=object)
    for i in rnp.ndindex(*o.shape): o[i] = f([rnp.ndarray.__getitem__(y, i + (j,)) for j in range(y.shape[-1])])
    return o.view(A)


def isnan1(v):
    if isinstance(v, rnp.generic): v = v.item()
    return isinstance(v, float) and v != v


def _sum(l):
    if not l: return Sym.c(0)
    if all(isinstance(v, (int, rnp.integer, bool, rnp.bool_)) for v in l): return rnp.int64(builtins.sum(int(v) for v in l))
    r = l[0]
    for v in l[1:]: r = r + v
    return r


def _cmpmax(l, sgn):
    if not l: raise ValueError('zero-size array to reduction operation maximum which has no identity')
    if any(isnan1(v) for v in l): return NAN
    r = l[0]
    for v in l[1:]:
        if (v > r if sgn > 0 else v < r): r = v
    return r


def sort_list(l):
    """stable insertion sort, nan last (forks on comparisons)"""
    nn = [v for v in l if not isnan1(v)]; n = [v for v in l if isnan1(v)]
    out = []
    for v in nn:
        i = len(out)
        while i > 0 and v < out[i - 1]: i -= 1
        out.insert(i, v)
    return out + n


def argsort_list(l):
    ids = []
    for j, v in enumerate(l):
        if isnan1(v): ids.append(j); continue
        i = len(ids)
        while i > 0 and (isnan1(l[ids[i - 1]]) or v < l[ids[i - 1]]): i -= 1
        ids.insert(i, j)
    return ids


def _median(l):
    if any(isnan1(v) for v in l) or not l: return NAN
    s = sort_list(l); n = len(s)
    return floatify(s[n // 2]) if n % 2 else div(s[n // 2 - 1] + s[n // 2], 2)


def _quantile(l, q):
    if any(isnan1(v) for v in l): return NAN
    s = sort_list(l); n = len(s)
    q = num(q); pos = q * (n - 1)
    if not pos.isconst: raise Inconclusive('symbolic quantile')
    k = math.floor(pos.cval); fr = pos.cval - k
    if k >= n - 1: return s[-1]
    return s[k] + (s[k + 1] - s[k]) * Sym.c(fr)


def _mean(l):
    if not l: return NAN
    return div(_sum(l), len(l))


def _var(l, ddof=0):
    if any(isnan1(v) for v in l) or len(l) - ddof <= 0: return NAN
    m = _mean(l)
    return div(_sum([(v - m) * (v - m) for v in l]), len(l) - ddof)


def _std(l, ddof=0):
    v = _var(l, ddof)
    return v if isnan1(v) else core.sqrt_(v)


class _LinalgMeta(type):
    def __getattr__(cls, name):
        if name.startswith('__'): raise AttributeError(name)
        f = getattr(rnp.linalg, name)
        if isinstance(f, type): return f
        def g(*a, **k):
            if any(anysym(x) for x in a): raise Inconclusive('numpy.linalg.%s is not modelled' % name)
            return symres(f(*[conc(x) for x in a], **k))
        return g


class Linalg(metaclass=_LinalgMeta):
    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2): raise Inconclusive('norm ord')
        f = lambda l: core.sqrt_(_sum([floatify(v) * v for v in l]))
        x = toarr(x)
        r = ax_reduce(x, axis, f)
        if keepdims and axis is not None: r = rnp.expand_dims(r, axis)
        return mk(r) if isinstance(r, rnp.ndarray) else r

    @staticmethod
    def inv(m): return inv(m)

    @staticmethod
    def det(m):
        m = toarr(m); n = m.shape[0]
        if n == 1: return m[0, 0]
        r = Sym.c(0)
        for j in range(n):
            sub = NP.array([[m[i, k] for k in range(n) if k != j] for i in range(1, n)])
            r = r + m[0, j] * Linalg.det(sub) * (-1) ** j
        return r

    @staticmethod
    def solve(m, b):
        return NP.dot(inv(m), toarr(b))

    @staticmethod
    def eigh(*a, **k): raise Inconclusive('eigh')
    eig = eigh


def inv(m):
    m = [[floatify(v) for v in r] for r in toarr(m)]
    n = len(m)
    a = [r + [Sym.c(1 if i == j else 0) for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = None
        for r in range(c, n):
            if a[r][c] != 0: p = r; break
        if p is None: raise rnp.linalg.LinAlgError('Singular matrix')
        a[c], a[p] = a[p], a[c]
        d = a[c][c]; a[c] = [v / d for v in a[c]]
        for r in range(n):
            if r != c:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return NP.array([r[n:] for r in a])


def cholesky(m, lower=False, **k):
    m = toarr(m); n = m.shape[0]
    L = [[Sym.c(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = floatify(m[i, j])
            for q in range(j): s = s - L[i][q] * L[j][q]
            if i == j:
                if not s > 0: raise rnp.linalg.LinAlgError('not positive definite')
                L[i][i] = core.sqrt_(s)
            else: L[i][j] = s / L[j][j]
    r = NP.array(L)
    return r if lower else mk(r.T)


class Random:
    def seed(self, *a):
        if RT.random: RT.random('seed', a, None)

    def _draw(self, kind, a, size):
        if RT.random is None: raise Inconclusive('random numbers without a harness model')
        shape = () if size is None else (tuple(int(v) for v in size) if isinstance(size, (tuple, list)) else (int(size),))
        if shape == (): return RT.random(kind, a, None)
        o = rnp.empty(shape, dtype=object)
        for i in rnp.ndindex(*shape): o[i] = RT.random(kind, a, i)
        return o.view(A)

    def uniform(self, low=0, high=1, size=None): return self._draw('uniform', (low, high), size)
    def random(self, size=None): return self._draw('uniform', (0, 1), size)
    random_sample = random
    def rand(self, *s): return self._draw('uniform', (0, 1), s or None)
    def normal(self, loc=0, scale=1, size=None): return self._draw('normal', (loc, scale), size)
    def randn(self, *s): return self._draw('normal', (0, 1), s or None)

    def default_rng(self, seed=None):
        if seed is None: raise Inconclusive('unseeded generator')
        return Rng(seed)


class Rng:
    def __init__(self, seed): self.r = rnp.random.default_rng(seed)

    def choice(self, a, size=None, replace=True, p=None, **k):
        a = toarr(a) if not isinstance(a, int) else a
        if not isinstance(a, int) and a.dtype == object: raise Inconclusive('choice from symbolic array')
        return self.r.choice(a, size, replace=replace, **k)

    def permutation(self, n): return self.r.permutation(n)
    def integers(self, *a, **k): return self.r.integers(*a, **k)
    def uniform(self, *a, **k): return NP.random.uniform(*a, **k)
    def normal(self, *a, **k): return NP.random.normal(*a, **k)


class _RC:
    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if any(isinstance(v, (slice, str)) for v in k):
            if anysym(list(v for v in k if not isinstance(v, (slice, str)))): raise Inconclusive('r_')
            return symres(rnp.r_[k])
        return NP.concatenate([NP.atleast_1d(v) for v in k])


class _NP:
    nan = NAN; inf = INF; newaxis = None; NaN = NAN
    ndarray = rnp.ndarray
    float64 = DType(rnp.float64); float32 = DType(rnp.float32); int32 = DType(rnp.int32); int64 = DType(rnp.int64)
    uint32 = DType(rnp.uint32); uint64 = DType(rnp.uint64); int8 = DType(rnp.int8); int16 = DType(rnp.int16)
    uint8 = DType(rnp.uint8); uint16 = DType(rnp.uint16)
    complex128 = DType(rnp.complex128); bool_ = DType(rnp.bool_); float_ = float64; double = float64; intc = int32
    linalg = Linalg; random = Random(); errstate = staticmethod(rnp.errstate); exceptions = rnp.exceptions
    integer = rnp.integer; floating = rnp.floating; number = rnp.number; generic = rnp.generic

    @property
    def pi(self): return core.pi_()

    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        if hasattr(rnp, name):
            f = getattr(rnp, name)
            if callable(f) and not isinstance(f, type): return defer(name)
            return f
        raise AttributeError(name)

    def dtype(self, x, *a, **k): return realdt(x)

    def array(self, x, dtype=None, copy=True, scalar=False, ndmin=0, order=None):
        x = unmv(x)
        if isinstance(x, (range, set, dict)) or hasattr(x, '__next__'):
            x = list(x) if not isinstance(x, (set, dict)) else x
        rd = realdt(dtype)
        sc = not isinstance(x, (list, tuple, rnp.ndarray))
        if isinstance(x, (list, tuple)):
            x = self._nest(x)
        if rd is None:
            if isinstance(x, rnp.ndarray): return symify(x.copy()) if x.dtype.kind == 'f' else mk(rnp.array(x))
            if isinstance(x, (Sym, float)):
                return obj0(num(x)).view(A)
            return rnp.array(x)
        kind = rd.kind
        if kind == 'f' or kind == 'c':
            r = floatify(x)
            if sc: return r if scalar else obj0(r).view(A)
            return r
        if kind in 'iu':
            if sc:
                if isinstance(x, str): return rd.type(int(x))
                v = num(x)
                if isinstance(v, float): raise ValueError('cannot convert float NaN to integer')
                v = v if v.isint else core.trunc_(v)
                if v.isconst:
                    return rd.type(int(v.cval))
                return v if scalar else obj0(v).view(A)
            if isinstance(x, rnp.ndarray) and x.dtype == object:
                vs = [num(v.item() if isinstance(v, rnp.generic) else v) for v in flat(x)]
                if any(isinstance(v, float) for v in vs): raise ValueError('cannot convert float NaN to integer')
                vs = [v if v.isint else core.trunc_(v) for v in vs]
                if all(v.isconst for v in vs): return rnp.array([int(v.cval) for v in vs], dtype=rd).reshape(x.shape)
                o = rnp.empty(x.shape, dtype=object)
                for i, v in zip(rnp.ndindex(*x.shape), vs): o[i] = int(v.cval) if v.isconst else v
                return o.view(A)
            return rnp.array(x).astype(rd)
        if kind == 'b':
            return bmap(lambda v: bool(v), x) if not sc else bool(x)
        if kind == 'O':
            return mk(rnp.array(x, dtype=object))
        return rnp.array(x, dtype=rd)

    def _nest(self, x):
        """list/tuple -> ndarray"""
        if not anysym(x) and not anyfloat(x):
            try: return rnp.array([unmv(v) for v in x])
            except ValueError: raise
        if all(not isinstance(v, (list, tuple, rnp.ndarray, MV)) or (isinstance(v, rnp.ndarray) and v.ndim == 0) for v in x):
            o = rnp.empty(len(x), dtype=object)
            for i, v in enumerate(x):
                if isinstance(v, rnp.ndarray): v = v[()]
                w = num(v)
                if w is NotImplemented: w = v
                o[i] = w if isinstance(w, float) or not isinstance(w, Sym) else (w if not anyfloat(x) else Sym(w.n, w.d, False))
            return o.view(A)
        parts = [toarr(v) for v in x]
        if len({p.shape for p in parts}) > 1: raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        o = rnp.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            o[i] = p if p.ndim else p[()]
        return floatify(o) if anyfloat(o) else o.view(A)

    def asarray(self, x, dtype=None, **k):
        x = unmv(x)
        if isinstance(x, rnp.ndarray) and (dtype is None or (x.dtype == object and realdt(dtype).kind in 'fc') or x.dtype == realdt(dtype)): return symify(x) if x.dtype.kind == 'f' else mk(x)
        return self.array(x, dtype=dtype)
    asanyarray = asarray
    def ascontiguousarray(self, x, dtype=None): return self.asarray(x, dtype)

    def _new(self, shape, dtype, v):
        shape = tuple(int(s) for s in shape) if isinstance(shape, (tuple, list, rnp.ndarray)) else (int(shape),)
        if isinstance(dtype, list):
            def f(t):
                r = realdt(t[1])
                return (t[0], object if r.kind in 'fc' else r) + tuple(t[2:])
            r = rnp.zeros(shape, dtype=[f(t) for t in dtype])
            return r
        rd = realdt(dtype) if dtype is not None else rnp.dtype(float)
        if rd.subdtype is not None: shape = shape + rd.shape; rd = rd.base
        if rd.kind in 'fc':
            o = rnp.empty(shape, dtype=object); fill(o, v); return o.view(A)
        if rd.kind == 'O':
            o = rnp.empty(shape, dtype=object); fill(o, v if isinstance(v, int) else 0); return o.view(A)
        iv = int(v.cval) if isinstance(v, Sym) else 0
        if RT.symint == 'all':                         # the same for every integer type, with its range
            o = rnp.empty(shape, dtype=object); fill(o, iv); o = o.view(A); o._iw = rd
            return o
        if RT.symint and rd == rnp.dtype(rnp.int32):   # integer arrays that may have to hold symbols
            o = rnp.empty(shape, dtype=object); fill(o, iv); return o.view(A)
        return rnp.full(shape, iv, dtype=rd)

    def zeros(self, shape, dtype=None, order=None): return self._new(shape, dtype, Sym.c(0))
    def ones(self, shape, dtype=None, order=None): return self._new(shape, dtype, Sym.c(1))
    def empty(self, shape, dtype=None, order=None):
        # contents arbitrary: poison reals with fresh symbols
        r = self._new(shape, dtype, Sym.c(0))
        if isinstance(r, A) and r.size:
            for i in rnp.ndindex(*r.shape): rnp.ndarray.__setitem__(r, i, core.fresh('uninit'))
        return r
    def full(self, shape, v, dtype=None):
        r = self._new(shape, dtype if dtype is not None else (None if anyfloat(v) or isinstance(v, Sym) else int), Sym.c(0))
        if isinstance(r, A): fill(r, num(v))
        else: r[...] = v
        return r
    def zeros_like(self, x, dtype=None):
        x = toarr(x)
        if dtype is None and x.dtype != object: return rnp.zeros_like(x)
        return self.zeros(x.shape, dtype)
    def ones_like(self, x, dtype=None): return self.zeros_like(x, dtype) + 1
    def empty_like(self, x, dtype=None): return self.zeros_like(x, dtype)
    def full_like(self, x, v, dtype=None):
        return self.zeros_like(x, dtype) + v

    def arange(self, *a, **k):
        a2 = [num(v) if not isinstance(v, int) else v for v in a]
        if any(isinstance(v, Sym) and not v.isint for v in a2): raise Inconclusive('float arange')
        k = {kk: conc(v) for kk, v in k.items()}
        return rnp.arange(*[int(v) for v in a2], **k)

    def linspace(self, a, b, num=50, endpoint=True, **k):
        n = int(num); a = core.num(a); b = core.num(b); st = (b - a) / Sym.c(n - 1 if endpoint else n) if n > 1 else Sym.c(0)
        return self.array([a + st * i for i in range(n)]) if n else self.zeros((0,))

    def logspace(self, a, b, num=50, endpoint=True, base=10, **k):
        a, b = core.num(a), core.num(b)
        if a.isconst and b.isconst and not anysym(base):
            return symify(rnp.logspace(float(a.cval), float(b.cval), int(num), endpoint=endpoint, base=float(base)))
        return emap(lambda e: pow_(base, e), self.linspace(a, b, num, endpoint))

    # structural
    def _seq(self, t): return [toarr(v) for v in t]

    def _unify(self, ps):
        if any(p.dtype == object for p in ps):
            fl = any(p.dtype == object and (anyfloat(p)) for p in ps)
            ps = [floatify(p) if fl else p.astype(object) if p.dtype != object else p for p in ps]
        return ps

    def hstack(self, t): return mk(rnp.hstack(self._unify(self._seq(t))))
    def vstack(self, t): return mk(rnp.vstack(self._unify(self._seq(t))))
    def concatenate(self, t, axis=0): return mk(rnp.concatenate(self._unify(self._seq(t)), axis=axis))
    def append(self, a, b, axis=None):
        a, b = self._unify([toarr(a), toarr(b)]); return mk(rnp.append(a, b, axis=axis))
    def stack(self, t, axis=0): return mk(rnp.stack(self._unify(self._seq(t)), axis=axis))
    def column_stack(self, t): return mk(rnp.column_stack(self._unify(self._seq(t))))
    def dstack(self, t): return mk(rnp.dstack(self._unify(self._seq(t))))
    def reshape(self, x, shape, *a, **k): return mk(rnp.reshape(toarr(x), shape, *a, **k))
    def transpose(self, x, axes=None): return mk(rnp.transpose(toarr(x), axes))
    def swapaxes(self, x, a, b): return mk(rnp.swapaxes(toarr(x), a, b))
    def moveaxis(self, x, a, b): return mk(rnp.moveaxis(toarr(x), a, b))
    def tile(self, x, reps): return mk(rnp.tile(toarr(x), reps))
    def repeat(self, x, n, axis=None): return mk(rnp.repeat(toarr(x), n, axis))
    def copy(self, x): return mk(rnp.array(toarr(x), copy=True))
    def ravel(self, x): return mk(rnp.ravel(toarr(x)))
    def squeeze(self, x, axis=None): return mk(rnp.squeeze(toarr(x), axis))
    def atleast_1d(self, x): return mk(rnp.atleast_1d(toarr(x)))
    def atleast_2d(self, x): return mk(rnp.atleast_2d(toarr(x)))
    def expand_dims(self, x, a): return mk(rnp.expand_dims(toarr(x), a))
    def flip(self, x, axis=None): return mk(rnp.flip(toarr(x), axis))
    def roll(self, x, s, axis=None): return mk(rnp.roll(toarr(x), s, axis))
    def take(self, x, i, axis=None): return mk(rnp.take(toarr(x), idx1(toarr(i)), axis))
    def delete(self, x, i, axis=None): return mk(rnp.delete(toarr(x), idx1(i), axis))
    def split(self, x, n, axis=0): return [mk(v) for v in rnp.split(toarr(x), n, axis)]
    def array_split(self, x, n, axis=0): return [mk(v) for v in rnp.array_split(toarr(x), n, axis)]
    def diag(self, x):
        x = toarr(x); n = x.shape[0]; o = self.zeros((n, n))
        for i in range(n): o[i, i] = x[i]
        return o
    def eye(self, n): return floatify(rnp.eye(n))
    def diff(self, x, n=1, axis=-1):
        x = toarr(x)
        for _ in range(int(n)):
            y = rnp.moveaxis(x, axis, 0); x = mk(rnp.moveaxis(y[1:] - y[:-1], 0, axis))
        return x
    def ndim(self, x): return toarr(x).ndim
    def shape(self, x): return toarr(x).shape
    def size(self, x): return toarr(x).size
    def iterable(self, x): return rnp.iterable(unmv(x))
    def isscalar(self, x): return isinstance(x, Sym) or rnp.isscalar(x)
    def ndindex(self, *a): return rnp.ndindex(*a)
    def broadcast_to(self, x, s): return mk(rnp.broadcast_to(toarr(x), s))

    # elementwise
    def sqrt(self, x): return emap(lambda v: core.sqrt_(num(v)), x)
    def exp(self, x): return emap(lambda v: core.exp_(num(v)), x)
    def log(self, x): return emap(lambda v: core.log_(num(v)), x)
    def log10(self, x): return div(self.log(x), core.log_(Sym.c(10)))
    def sin(self, x): return emap(core.sin_, x)
    def cos(self, x): return emap(core.cos_, x)
    def arctan2(self, y, x):
        y, x = toarr(y), toarr(x)
        o = rnp.empty(y.shape, dtype=object)
        for i in rnp.ndindex(*y.shape): o[i] = atan2(y[i], x[i])
        return o.view(A) if o.shape else o[()]
    def arccos(self, x): return emap(lambda v: core.uf_('acos', [v], 0, Fraction('3.1415927')), x)
    def arcsin(self, x): return emap(lambda v: core.uf_('asin', [v], Fraction('-1.5707964'), Fraction('1.5707964')), x)
    def arctan(self, x): return emap(lambda v: core.uf_('atan', [v], Fraction('-1.5707964'), Fraction('1.5707964')), x)
    def abs(self, x):
        x = unmv(x)
        if isinstance(x, rnp.ndarray) and x.dtype != object: return rnp.abs(x)
        return emap(lambda v: builtins.abs(v) if isinstance(v, float) else builtins.abs(num(v)), x)
    absolute = fabs = abs
    def square(self, x): return emap(lambda v: v * v, x)
    def power(self, x, e): return pow_(toarr(x), e) if isinstance(unmv(x), (list, tuple, rnp.ndarray)) else pow_(x, e)
    def multiply(self, a, b): return mk(rnp.multiply(toarr(a), toarr(b)))
    def add(self, a, b): return mk(rnp.add(toarr(a), toarr(b)))
    def subtract(self, a, b): return mk(rnp.subtract(toarr(a), toarr(b)))
    def divide(self, a, b): return div(a, b)
    true_divide = divide
    def floor(self, x): return emap(lambda v: core.floor_(num(v), False), x)
    def ceil(self, x): return emap(lambda v: -core.floor_(-num(v), False), x)
    def round(self, x, nd=0):
        if nd: raise Inconclusive('round digits')
        return emap(lambda v: v if isinstance(v, float) else num(v).__round__(0), x)
    around = rint = round
    def mod(self, a, b): return mk(toarr(a) % b)
    remainder = mod
    def sign(self, x): return emap(lambda v: Sym.c(num(v).sign()), x)
    def isnan(self, x):
        if not isinstance(unmv(x), (list, tuple, rnp.ndarray)): return isnan1(x)
        return bmap(isnan1, x)
    def isfinite(self, x): return bmap(lambda v: not isinstance(v, float), x) if isinstance(unmv(x), (list, tuple, rnp.ndarray)) else not isinstance(x, float)
    def isinf(self, x): return bmap(lambda v: isinstance(v, float) and v == v, x) if isinstance(unmv(x), (list, tuple, rnp.ndarray)) else (isinstance(x, float) and x == x)
    def nan_to_num(self, x, nan=0): return emap(lambda v: num(nan) if isnan1(v) else v, x)
    def real(self, x): return x
    def clip(self, x, lo, hi):
        def f(v):
            if lo is not None and v < lo: return num(lo)
            if hi is not None and v > hi: return num(hi)
            return v
        return emap(f, x)
    def _bin(self, a, b, f):
        a, b = rnp.broadcast_arrays(toarr(a), toarr(b)); o = rnp.empty(a.shape, dtype=object)
        for i in rnp.ndindex(*a.shape): o[i] = f(a[i], b[i])
        return o.view(A) if o.shape else o[()]
    def maximum(self, a, b): return self._bin(a, b, lambda x, y: _cmpmax([x, y], 1))
    def minimum(self, a, b): return self._bin(a, b, lambda x, y: _cmpmax([x, y], -1))
    def fmax(self, a, b): return self._bin(a, b, lambda x, y: y if isnan1(x) else x if isnan1(y) else _cmpmax([x, y], 1))
    def fmin(self, a, b): return self._bin(a, b, lambda x, y: y if isnan1(x) else x if isnan1(y) else _cmpmax([x, y], -1))
    def hypot(self, a, b): return self._bin(a, b, lambda x, y: core.sqrt_(x * x + y * y))
    def logical_not(self, x): return bmap(lambda v: not v, x) if isinstance(unmv(x), (list, tuple, rnp.ndarray)) else not x
    def logical_and(self, a, b): return rnp.logical_and(bmap(bool, a), bmap(bool, b))
    def logical_or(self, a, b): return rnp.logical_or(bmap(bool, a), bmap(bool, b))
    def invert(self, x): return ~toarr(x)

    # reductions
    def sum(self, x, axis=None, **k):
        x = toarr(x)
        if x.dtype != object: return rnp.sum(x, axis=axis)
        return ax_reduce(x, axis, _sum)
    nansum = lambda self, x, axis=None: ax_reduce(x, axis, lambda l: _sum([v for v in l if not isnan1(v)]))
    def prod(self, x, axis=None):
        def f(l):
            r = Sym.c(1)
            for v in l: r = r * v
            return r
        return ax_reduce(x, axis, f)
    def mean(self, x, axis=None, **k): return ax_reduce(x, axis, _mean)
    def average(self, x, axis=None, weights=None):
        if weights is None: return ax_reduce(x, axis, _mean)
        x = toarr(x); w = toarr(weights)
        if axis is None: return div(_sum(flat(x * w)), _sum(flat(w)))
        if x.ndim != w.ndim:
            sh = [1] * x.ndim; sh[axis] = w.shape[0]; w = rnp.reshape(w, sh)
        return div(self.sum(mk(x * w), axis=axis), self.sum(mk(x * 0 + w), axis=axis))
    nanmean = lambda self, x, axis=None: ax_reduce(x, axis, lambda l: _mean([v for v in l if not isnan1(v)]))
    def median(self, x, axis=None): return ax_reduce(x, axis, _median)
    nanmedian = lambda self, x, axis=None: ax_reduce(x, axis, lambda l: _median([v for v in l if not isnan1(v)]))
    def std(self, x, axis=None, ddof=0, dtype=None): return ax_reduce(x, axis, lambda l: _std(l, ddof))
    def var(self, x, axis=None, ddof=0, dtype=None): return ax_reduce(x, axis, lambda l: _var(l, ddof))
    def quantile(self, x, q, axis=None): return ax_reduce(x, axis, lambda l: _quantile(l, q))
    def percentile(self, x, q, axis=None): return self.quantile(x, div(q, 100), axis)
    def max(self, x, axis=None, **k):
        x = toarr(x)
        if x.dtype != object: return rnp.max(x, axis=axis)
        return ax_reduce(x, axis, lambda l: _cmpmax(l, 1))
    def min(self, x, axis=None, **k):
        x = toarr(x)
        if x.dtype != object: return rnp.min(x, axis=axis)
        return ax_reduce(x, axis, lambda l: _cmpmax(l, -1))
    amax = max; amin = min
    def nanmax(self, x, axis=None): return ax_reduce(x, axis, lambda l: _cmpmax([v for v in l if not isnan1(v)], 1))
    def nanmin(self, x, axis=None): return ax_reduce(x, axis, lambda l: _cmpmax([v for v in l if not isnan1(v)], -1))
    def ptp(self, x, axis=None): return self.max(x, axis) - self.min(x, axis)
    def _arg(self, x, s, axis=None):
        x = toarr(x)
        if axis is not None and x.ndim > 1:
            if axis < 0: axis += x.ndim
            y = rnp.moveaxis(x, axis, -1)
            o = rnp.empty(y.shape[:-1], dtype=rnp.int64)
            for i in rnp.ndindex(*o.shape): o[i] = self._arg(mk(y[i]), s)
            return o
        if x.dtype != object: return (rnp.argmax if s > 0 else rnp.argmin)(x)
        l = flat(x); b = 0
        for i, v in enumerate(l):
            if isnan1(v): return rnp.int64(i)
            if (v > l[b] if s > 0 else v < l[b]): b = i
        return rnp.int64(b)
    def argmax(self, x, axis=None): return self._arg(x, 1, axis)
    def argmin(self, x, axis=None): return self._arg(x, -1, axis)
    def cumsum(self, x, axis=None): return self._accum(x, axis, lambda s, v: s + v)
    def cumprod(self, x, axis=None): return self._accum(x, axis, lambda s, v: s * v)
    def _accum(self, x, axis, f):
        x = toarr(x)
        if axis is not None and x.ndim > 1:
            y = rnp.moveaxis(x, axis, -1); o = rnp.empty(y.shape, dtype=x.dtype)
            for i in rnp.ndindex(*y.shape[:-1]): o[i] = self._accum(mk(y[i]), None, f)
            return mk(rnp.moveaxis(o, -1, axis))
        o = []
        for v in flat(x): o.append(v if not o else f(o[-1], v))
        r = rnp.empty(len(o), dtype=x.dtype)
        for i, v in enumerate(o): r[i] = v
        return mk(r)
    def any(self, x, axis=None):
        x = toarr(x)
        if x.dtype == object:
            if axis is not None: x = bmap(lambda v: True if isinstance(v, float) else bool(v), x)
            else: return builtins.any(bool(v) for v in flat(x))
        return rnp.ndarray.any(x.view(rnp.ndarray), axis=axis)
    def all(self, x, axis=None):
        x = toarr(x)
        if x.dtype == object:
            if axis is not None: x = bmap(lambda v: True if isinstance(v, float) else bool(v), x)
            else: return builtins.all(bool(v) for v in flat(x))
        return rnp.ndarray.all(x.view(rnp.ndarray), axis=axis)
    def nonzero(self, x):
        x = toarr(x)
        if x.dtype == object: x = bmap(lambda v: True if isinstance(v, float) else bool(v != 0), x)
        return rnp.ndarray.nonzero(x.view(rnp.ndarray))
    def flatnonzero(self, x): return self.nonzero(self.ravel(x))[0]
    def count_nonzero(self, x): return len(self.nonzero(x)[0])
    def argwhere(self, x): return rnp.transpose(self.nonzero(x))
    def where(self, c, *ab):
        c = unmv(c)
        if not ab: return self.nonzero(c)
        c = bmap(bool, c) if isinstance(c, (list, tuple, rnp.ndarray)) else rnp.array(bool(c))
        a, b = toarr(ab[0]), toarr(ab[1])
        if a.dtype == object or b.dtype == object:
            c, a, b = rnp.broadcast_arrays(c, a, b)
            o = rnp.empty(c.shape, dtype=object)
            for i in rnp.ndindex(*c.shape): o[i] = a[i] if c[i] else b[i]
            return o.view(A)
        return rnp.where(c, a, b)
    def sort(self, x, axis=-1):
        x = toarr(x)
        if x.dtype != object: return rnp.sort(x, axis=axis)
        if axis is None: x = mk(rnp.ravel(x))
        if x.ndim != 1:
            y = rnp.moveaxis(x, axis, -1); o = rnp.empty(y.shape, dtype=object)
            for i in rnp.ndindex(*y.shape[:-1]): o[i] = self.sort(mk(y[i]))
            return mk(rnp.moveaxis(o, -1, axis))
        o = rnp.empty(x.shape, dtype=object)
        for i, v in enumerate(sort_list(flat(x))): o[i] = v
        return o.view(A)
    def argsort(self, x, axis=-1, kind=None):
        x = toarr(x)
        if x.dtype != object: return rnp.argsort(x, axis=axis, kind='stable')
        if axis is None: x = mk(rnp.ravel(x))
        if x.ndim != 1:
            y = rnp.moveaxis(x, axis, -1); o = rnp.empty(y.shape, dtype=rnp.int64)
            for i in rnp.ndindex(*y.shape[:-1]): o[i] = argsort_list(flat(mk(y[i])))
            return rnp.moveaxis(o, -1, axis)
        return rnp.array(argsort_list(flat(x)), dtype=rnp.int64)
    def searchsorted(self, a, v, side='left'):
        l = flat(toarr(a))
        def f(x):
            i = 0
            while i < len(l) and (l[i] < x if side == 'left' else l[i] <= x): i += 1
            return i
        v = unmv(v)
        if isinstance(v, (list, tuple, rnp.ndarray)): return rnp.array([f(x) for x in v], dtype=rnp.int64)
        return rnp.int64(f(v))
    def digitize(self, x, bins, right=False):
        return self.searchsorted(bins, x, side='left' if right else 'right')
    def unique(self, x, **k):
        x = toarr(x)
        if x.dtype != object: return rnp.unique(x, **k)
        if k: raise Inconclusive('unique options')
        s = sort_list(flat(x)); o = []
        for v in s:
            if not o or v != o[-1]: o.append(v)
        r = rnp.empty(len(o), dtype=object)
        for i, v in enumerate(o): r[i] = v
        return r.view(A)
    def in1d(self, a, b):
        l = flat(toarr(b)); return rnp.array([builtins.any(bool(x == y) for y in l) for x in flat(toarr(a))], dtype=bool)
    isin = in1d
    def dot(self, a, b):
        a, b = toarr(a), toarr(b)
        if a.dtype != object and b.dtype != object: return rnp.dot(a, b)
        if a.ndim > 2 or b.ndim > 2: raise Inconclusive('dot of more than two dimensions')
        if a.ndim == 0 or b.ndim == 0: return mk(a * b)
        if a.ndim == 1 and b.ndim == 1: return _sum([x * y for x, y in zip(a, b)])
        if a.ndim == 2 and b.ndim == 1: return self.array([_sum([x * y for x, y in zip(r, b)]) for r in a])
        if a.ndim == 1 and b.ndim == 2: return self.dot(mk(b.T), a)
        return self.array([[_sum([x * y for x, y in zip(r, c)]) for c in b.T] for r in a])
    def matmul(self, a, b):
        a, b = toarr(a), toarr(b)
        if a.dtype != object and b.dtype != object: return rnp.matmul(a, b)
        if a.ndim > 2 or b.ndim > 2:
            sa = a.shape[:-2]; sb = b.shape[:-2]
            sh = rnp.broadcast_shapes(sa, sb)
            a2 = rnp.broadcast_to(rnp.asarray(a), sh + a.shape[-2:]) if a.ndim > 1 else None
            b2 = rnp.broadcast_to(rnp.asarray(b), sh + b.shape[-2:]) if b.ndim > 1 else None
            if a2 is None or b2 is None: raise Inconclusive('matmul of a batch and a vector')
            o = rnp.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
            for i in rnp.ndindex(*sh): o[i] = self.dot(mk(a2[i]), mk(b2[i]))
            return o.view(A)
        return self.dot(a, b)
    def outer(self, a, b): return self.array([[x * y for y in flat(toarr(b))] for x in flat(toarr(a))])
    def cross(self, a, b):
        a, b = toarr(a), toarr(b)
        return self.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    def einsum(self, sub, *ops, **k):
        if not isinstance(sub, str) or '.' in sub: raise Inconclusive('einsum form')
        ops = [toarr(o) for o in ops]
        sub = sub.replace(' ', '')
        ins, out = sub.split('->') if '->' in sub else (sub, None)
        ins = ins.split(',')
        if out is None: out = ''.join(sorted(c for c in set(''.join(ins)) if ''.join(ins).count(c) == 1))
        dim = {}
        for t, o in zip(ins, ops):
            for c, n in zip(t, o.shape): dim[c] = builtins.max(dim.get(c, 1), n)
        rest = [c for c in dict.fromkeys(''.join(ins)) if c not in out]
        res = rnp.empty(tuple(dim[c] for c in out), dtype=object)
        for ix in rnp.ndindex(*res.shape):
            e = dict(zip(out, ix)); terms = []
            for jx in rnp.ndindex(*[dim[c] for c in rest]):
                e.update(zip(rest, jx)); v = None
                for t, o in zip(ins, ops):
                    y = rnp.ndarray.__getitem__(o, tuple(e[c] if o.shape[q] > 1 else 0 for q, c in enumerate(t)))
                    v = y if v is None else v * y
                terms.append(v)
            res[ix] = _sum(terms)
        return mk(res) if out else res[()]
    def interp(self, x, xp, fp, left=None, right=None):
        xp, fp = flat(toarr(xp)), flat(toarr(fp))
        def f(v):
            if v < xp[0]: return num(fp[0] if left is None else left)
            if v > xp[-1]: return num(fp[-1] if right is None else right)
            for i in range(len(xp) - 1):
                if v <= xp[i + 1]: return fp[i] + div(fp[i + 1] - fp[i], xp[i + 1] - xp[i]) * (v - xp[i])
            return num(fp[-1])
        return emap(f, x)
    def trapezoid(self, y, x=None, dx=1):
        y = flat(toarr(y)); x = flat(toarr(x)) if x is not None else [dx * i for i in range(len(y))]
        return _sum([div((y[i] + y[i + 1]) * (x[i + 1] - x[i]), 2) for i in range(len(y) - 1)])
    trapz = trapezoid
    def bincount(self, x, weights=None, minlength=0):
        x = toarr(x)
        if weights is None or x.dtype == object: return rnp.bincount(rnp.array([int(v) for v in x], dtype=rnp.int64), minlength=int(minlength)) if weights is None else self._wbin(x, weights, minlength)
        return self._wbin(x, weights, minlength)
    def _wbin(self, x, w, n):
        x = [int(v) for v in x]; n = builtins.max([n] + [v + 1 for v in x]); o = self.zeros((n,))
        for v, y in zip(x, flat(toarr(w))): o[v] = o[v] + y
        return o
    def fromiter(self, it, dtype=None, count=-1): return self.array(list(it), dtype=dtype)
    def array_equal(self, a, b):
        a, b = toarr(a), toarr(b)
        return a.shape == b.shape and builtins.all(bool(x == y) for x, y in zip(flat(a), flat(b)))
    def allclose(self, a, b, **k): return builtins.all(bool(x == y) for x, y in zip(flat(toarr(a)), flat(toarr(b))))
    def seterr(self, *a, **k): return {}
    def set_printoptions(self, *a, **k): pass
    def histogram(self, x, bins=10, **k):
        x = flat(toarr(x)); b = flat(toarr(bins))
        h = []
        for i in range(len(b) - 1):
            last = i == len(b) - 2
            h.append(builtins.sum(1 for v in x if v >= b[i] and (v <= b[i + 1] if last else v < b[i + 1])))
        return rnp.array(h), toarr(bins)

    # files (RT.fs) -- real numpy decides the shapes, tokens stand for values
    def savetxt(self, fname, X, fmt='%.18e', **k):
        X = toarr(X)
        if X.ndim == 0 or X.ndim > 2: raise ValueError('Expected 1D or 2D array, got %dD array instead' % X.ndim)
        tok = rnp.arange(X.size, dtype=float).reshape(X.shape)
        buf = io.StringIO(); rnp.savetxt(buf, tok, fmt='%d', **{kk: v for kk, v in k.items() if kk in ('delimiter', 'newline', 'header', 'footer', 'comments')})
        RT.fs[fname] = (buf.getvalue(), [v for v in flat(X)], fmt)

    def loadtxt(self, fname, **k):
        if fname not in RT.fs: raise FileNotFoundError(fname)
        text, vals, fmt = RT.fs[fname]
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            k2 = {kk: conc(v) for kk, v in k.items() if kk != 'dtype'}
            t = rnp.loadtxt(io.StringIO(text), **k2)
        o = rnp.empty(t.shape, dtype=object)
        for i in rnp.ndindex(*t.shape): o[i] = self._printed(vals[int(t[i])], fmt)
        return floatify(o)

    def _printed(self, v, fmt):
        """the value a text file gives back: exact from 8 significant digits on (numeric runs allow for the rest), otherwise off by up to half a unit of the last digit"""
        import re
        m = re.fullmatch(r'%[-+ 0#]*(\d*)(?:\.(\d+))?([eEfFgGdi])', fmt) if isinstance(fmt, str) else None
        if m is None: raise Inconclusive('savetxt format %r' % (fmt,))
        v = num(v)
        if isinstance(v, float): return v
        n = 0 if m.group(3) in 'di' else 6 if m.group(2) is None else int(m.group(2)); c = m.group(3).lower()
        if (c == 'e' and n >= 7) or (c == 'g' and n >= 8) or v.isint: return v
        if c in 'di': return core.trunc_(v)
        e = core.fresh('print'); core.assume(e <= Fraction(1, 2) * Fraction(10) ** -n); core.assume(e >= Fraction(-1, 2) * Fraction(10) ** -n)
        return v + e if c == 'f' else v * (1 + e)

    # further elementwise and derived functions
    def polyval(self, p, x):
        r = Sym.c(0)
        for c in flat(toarr(p)): r = r * x + c
        return r
    def cbrt(self, x): return pow_(toarr(x) if isinstance(unmv(x), (list, tuple, rnp.ndarray)) else x, Fraction(1, 3))
    def log2(self, x): return div(self.log(x), core.log_(Sym.c(2)))
    def log1p(self, x): return self.log(x + 1)
    def expm1(self, x): return self.exp(x) - 1
    def exp2(self, x): return pow_(Sym.c(2), x) if not isinstance(unmv(x), rnp.ndarray) else emap(lambda v: pow_(Sym.c(2), v), x)
    def float_power(self, x, e): return self.power(floatify(x), e)
    def reciprocal(self, x): return div(1, floatify(x))
    def negative(self, x): return emap(lambda v: -v, x)
    def positive(self, x): return x
    def fix(self, x): return self.trunc(x)
    def trunc(self, x): return emap(lambda v: core.trunc_(num(v)), x)
    def floor_divide(self, a, b): return self._bin(a, b, lambda x, y: x // y)
    def fmod(self, a, b): return self._bin(a, b, lambda x, y: x - y * core.trunc_(div(num(x), num(y))))
    def divmod(self, a, b): return self.floor_divide(a, b), self.mod(a, b)
    def deg2rad(self, x): return toarr(x) * self.pi / 180
    radians = deg2rad
    def rad2deg(self, x): return toarr(x) * 180 / self.pi
    degrees = rad2deg
    def tan(self, x): return div(self.sin(x), self.cos(x))
    def greater(self, a, b): return self._cmp(a, b, lambda x, y: x > y)
    def greater_equal(self, a, b): return self._cmp(a, b, lambda x, y: x >= y)
    def less(self, a, b): return self._cmp(a, b, lambda x, y: x < y)
    def less_equal(self, a, b): return self._cmp(a, b, lambda x, y: x <= y)
    def equal(self, a, b): return self._cmp(a, b, lambda x, y: x == y)
    def not_equal(self, a, b): return self._cmp(a, b, lambda x, y: x != y)
    def _cmp(self, a, b, f):
        a, b = rnp.broadcast_arrays(toarr(a), toarr(b)); o = rnp.empty(a.shape, dtype=bool)
        for i in rnp.ndindex(*a.shape): o[i] = bool(f(rnp.ndarray.__getitem__(a, i), rnp.ndarray.__getitem__(b, i)))
        return o if o.ndim else bool(o)
    def logical_xor(self, a, b): return rnp.logical_xor(bmap(bool, a), bmap(bool, b))
    def bitwise_and(self, a, b): return rnp.bitwise_and(toarr(a), toarr(b))
    def bitwise_or(self, a, b): return rnp.bitwise_or(toarr(a), toarr(b))
    def bitwise_not(self, a): return ~toarr(a)
    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        def f(x, y):
            if isnan1(x) or isnan1(y): return equal_nan and isnan1(x) and isnan1(y)
            return abs(num(x) - num(y)) <= num(atol) + num(rtol) * abs(num(y))
        return self._cmp(a, b, f)
    def array_equiv(self, a, b): return bool(self.all(self._cmp(a, b, lambda x, y: x == y)))
    def copysign(self, a, b): return self._bin(a, b, lambda x, y: abs(x) if y >= 0 else -abs(x))
    def signbit(self, x): return self._cmp(x, 0, lambda v, z: v < z)
    def heaviside(self, a, b): return self._bin(a, b, lambda x, y: y if x == 0 else num(1 if x > 0 else 0))
    def nanstd(self, x, axis=None, ddof=0): return ax_reduce(x, axis, lambda l: _std([v for v in l if not isnan1(v)], ddof))
    def nanvar(self, x, axis=None, ddof=0): return ax_reduce(x, axis, lambda l: _var([v for v in l if not isnan1(v)], ddof))
    def nanquantile(self, x, q, axis=None):
        g = lambda l: _quantile([v for v in l if not isnan1(v)], q) if any(not isnan1(v) for v in l) else NAN
        return ax_reduce(x, axis, g)
    def nanpercentile(self, x, q, axis=None): return self.nanquantile(x, div(q, 100), axis)
    def nanprod(self, x, axis=None): return self.prod(emap(lambda v: Sym.c(1) if isnan1(v) else v, x), axis)
    def nancumsum(self, x, axis=None): return self.cumsum(emap(lambda v: Sym.c(0) if isnan1(v) else v, x), axis)
    def nanargmin(self, x, axis=None): return self._arg(emap(lambda v: INF if isnan1(v) else v, x), -1, axis)
    def nanargmax(self, x, axis=None): return self._arg(emap(lambda v: -INF if isnan1(v) else v, x), 1, axis)
    def piecewise(self, x, conds, funcs, *a):
        x = toarr(x); o = rnp.empty(x.shape, dtype=object); conds = [bmap(bool, c) for c in conds]
        for i in rnp.ndindex(*x.shape):
            q = [j for j, c in enumerate(conds) if c[i]]
            f = funcs[q[-1]] if q else funcs[len(conds)] if len(funcs) > len(conds) else 0
            o[i] = num(f(rnp.ndarray.__getitem__(x, i), *a)) if callable(f) else num(f)
        return o.view(A)
    def partition(self, x, kth, axis=-1): return self.sort(x, axis)
    def argpartition(self, x, kth, axis=-1): return self.argsort(x, axis)
    def lexsort(self, keys, axis=-1):
        keys = [toarr(k) for k in keys]
        ids = list(range(len(keys[0])))
        for k in keys:
            r = argsort_list([rnp.ndarray.__getitem__(k, i) for i in ids]); ids = [ids[j] for j in r]
        return rnp.array(ids)
    def vectorize(self, f, otypes=None, **k):
        def g(*a, **kw):
            if not any(isinstance(unmv(v), (list, tuple, rnp.ndarray)) for v in a): return f(*a, **kw)
            b = rnp.broadcast_arrays(*[toarr(v) for v in a])
            return self.array([f(*[rnp.ndarray.__getitem__(x, i) for x in b], **kw) for i in rnp.ndindex(*b[0].shape)]).reshape(b[0].shape)
        return g
    def geomspace(self, a, b, num=50):
        n = int(num); r = div(b, a)
        return self.array([a * pow_(floatify(r), Fraction(i, n - 1)) for i in range(n)])
    def setdiff1d(self, a, b, **k):
        b = flat(toarr(b)); return self.array([v for v in flat(self.unique(a)) if not any(bool(v == w) for w in b)])
    def intersect1d(self, a, b, **k):
        b = flat(toarr(b)); return self.array([v for v in flat(self.unique(a)) if any(bool(v == w) for w in b)])
    def union1d(self, a, b): return self.unique(self.concatenate((toarr(a), toarr(b))))
    def histogram_bin_edges(self, *a, **k): return self.histogram(*a, **k)[1]
    def average_(self, *a, **k): return self.average(*a, **k)
    def matvec(self, a, b): return self.dot(a, b)
    def vecdot(self, a, b): return self.sum(toarr(a) * toarr(b), axis=-1)
    def gradient(self, *a, **k): raise Inconclusive('gradient')
    @property
    def c_(self): return rnp.c_
    @property
    def r_(self): return _RC()

    def fromfile(self, *a, **k):
        if RT.fromfile is None: raise Inconclusive('fromfile')
        return RT.fromfile(*a, **k)

    def frombuffer(self, *a, **k):
        if RT.frombuffer is None: raise Inconclusive('frombuffer')
        return RT.frombuffer(*a, **k)


import inspect
REDUCE = set('sum nansum prod mean nanmean average median nanmedian std var quantile percentile max min amax amin nanmax nanmin ptp any all count_nonzero argmax argmin'.split())
HARMLESS = {'casting', 'order', 'subok', 'kind', 'copy', 'like', 'optimize', 'assume_unique', 'stable'}


def _wrap(name, fn):
    """keyword arguments of numpy that the model does not spell out: handled here or the run is inconclusive, never ignored"""
    sig = inspect.signature(fn); par = sig.parameters

    def g(self, *a, **k):
        out = k.pop('out', None) if 'out' not in par else None
        keep = k.pop('keepdims', False) if name in REDUCE else False
        dt = k.pop('dtype', None) if 'dtype' not in par and name not in ('fromfile', 'frombuffer') else None
        for q in list(k):
            if q in par: continue
            if q in HARMLESS or k[q] is rnp._NoValue: k.pop(q)
            elif q == 'method' and k[q] == 'linear': k.pop(q)
            elif q == 'axis' and toarr(a[0]).ndim == 1: k.pop(q)
            elif q in ('header', 'footer', 'delimiter', 'newline', 'comments', 'skiprows', 'usecols', 'ndmin', 'max_rows', 'unpack', 'encoding') and name in ('savetxt', 'loadtxt'): pass
            elif q in ('return_index', 'return_inverse', 'return_counts') and name == 'unique': pass
            elif q in ('stacklevel', 'all', 'divide', 'invalid', 'over', 'under', 'precision', 'suppress', 'threshold', 'linewidth', 'edgeitems', 'rtol', 'atol', 'equal_nan') or name in ('fromfile', 'frombuffer', 'seterr', 'set_printoptions'): pass
            elif q in ('count', 'endpoint', 'base', 'num'): pass
            else: raise Inconclusive('numpy.%s(%s=...) is not modelled' % (name, q))
        ax = None
        if name in REDUCE:
            pos = list(par)[1:]
            if 'axis' in k: ax = k['axis']
            elif 'axis' in pos and len(a) > pos.index('axis'): ax = a[pos.index('axis')]
            if isinstance(ax, (tuple, list)):
                x = toarr(a[0]); axs = sorted(int(v) % x.ndim for v in ax)
                if 'axis' not in k or len(a) > 1: raise Inconclusive('numpy.%s over several axes' % name)
                restx = [i for i in range(x.ndim) if i not in axs]
                y = rnp.transpose(x, restx + axs)
                y = mk(rnp.reshape(y, tuple(x.shape[i] for i in restx) + (-1,)))
                a = (y,) + a[1:]; k['axis'] = -1 if restx else None
        try: sig.bind(self, *a, **k)
        except TypeError: raise Inconclusive('numpy.%s with these arguments is not modelled' % name)
        r = fn(self, *a, **k)
        if keep:
            x = toarr(a[0]) if not isinstance(ax, (tuple, list)) else None
            if x is None:
                x0 = toarr(a[0]); r = toarr(r)
                for v in axs: r = rnp.expand_dims(r, v)
                r = mk(r)
            elif ax is None: r = mk(rnp.reshape(toarr(r), (1,) * x.ndim))
            else: r = mk(rnp.expand_dims(toarr(r), int(ax)))
        if dt is not None and name not in ('savetxt', 'loadtxt', 'fromfile', 'frombuffer', 'dtype'): r = self.asarray(r, dtype=dt) if isinstance(r, rnp.ndarray) else self.array(r, dtype=dt, scalar=True)
        if out is not None:
            out[...] = r; return out
        return r
    g.__name__ = name
    return g


for _n, _f in list(vars(_NP).items()):
    if not _n.startswith('_') and inspect.isfunction(_f): setattr(_NP, _n, _wrap(_n, _f))

for _n, _op, _one in (('add', lambda x, y: x + y, 0), ('multiply', lambda x, y: x * y, 1), ('maximum', lambda x, y: _cmpmax([x, y], 1), None), ('minimum', lambda x, y: _cmpmax([x, y], -1), None),
                      ('logical_and', lambda x, y: bool(x) and bool(y), True), ('logical_or', lambda x, y: bool(x) or bool(y), False)):
    def _mkuf(n, op, one):
        f = vars(_NP)[n]
        def red(l):
            if not l:
                if one is None: raise ValueError('zero-size array to reduction operation %s which has no identity' % n)
                return one if isinstance(one, bool) else Sym.c(one)
            r = l[0]
            for v in l[1:]: r = op(r, v)
            return r
        def reduce(x, axis=0, keepdims=False, **k):
            x = toarr(x)
            r = ax_reduce(x, axis if x.ndim > 1 or axis is None else None, red)
            if keepdims: r = mk(rnp.expand_dims(toarr(r), axis))
            return r
        def accumulate(x, axis=0): return NP._accum(x, axis, op)
        def outer(x, y): return NP.array([[op(u, v) for v in flat(toarr(y))] for u in flat(toarr(x))])
        def at(x, i, v=None):
            i = toarr(i); v = rnp.broadcast_to(toarr(v), i.shape)
            for j, y in zip(flat(i), flat(mk(v))): x[int(j)] = op(x[int(j)], y)
        def reduceat(x, ind):
            x = toarr(x); ind = [int(v) for v in ind]; o = []
            for q, i in enumerate(ind):
                j = ind[q + 1] if q + 1 < len(ind) else len(x)
                o.append(red([x[t] for t in range(i, j)]) if j > i else x[i])
            return NP.array(o)
        f.reduce = reduce; f.accumulate = accumulate; f.outer = outer; f.at = at; f.reduceat = reduceat
    _mkuf(_n, _op, _one)

NP = _NP()


def atan2(y, x):
    y, x = num(y), num(x)
    # represented through its sine and cosine: angle atom t with cos t = x/r, sin t = y/r
    r = core.sqrt_(x * x + y * y)
    if isinstance(r, float): return NAN
    key = ('atan2', y.key(), x.key())
    a = core.C.bykey.get(key)
    if a is None:
        a = core.C.atom('ang%d' % len(core.C.atoms), False, 'atan2', key, (y, x))
        core.assert_def(a, a.z <= 4, a.z >= -4)
    t = Sym.of_atom(a)
    if bool(r == 0): 
        return Sym.c(0)
    core.C.bykey[('trig', t.key())] = _AngPair(y / r, x / r)
    return t


class _AngPair(tuple):
    def __new__(cls, s, c): return tuple.__new__(cls, (s, c))


class SymMath:
    pi = property(lambda s: core.pi_())
    inf = INF; nan = NAN; e = 2.718281828459045
    def sqrt(self, x):
        x = num(x)
        if x < 0: raise ValueError('math domain error')
        return core.sqrt_(x)
    def exp(self, x): return core.exp_(x)
    def log(self, x, b=None):
        return core.log_(num(x)) if b is None else core.log_(num(x)) / core.log_(num(b))
    def log10(self, x): return core.log_(num(x)) / core.log_(Sym.c(10))
    def sin(self, x): return core.sin_(x)
    def cos(self, x): return core.cos_(x)
    def acos(self, x): return NP.arccos(x)
    def atan2(self, y, x): return atan2(y, x)
    def isnan(self, x): return isnan1(x)
    def isinf(self, x): return isinstance(x, float) and x == x
    def isfinite(self, x): return not isinstance(x, float)
    def pow(self, a, b): return pow_(num(a), b)
    def floor(self, x): return math.floor(x) if not isinstance(x, Sym) else core.floor_(x, True)
    def ceil(self, x): return math.ceil(x) if not isinstance(x, Sym) else -core.floor_(-x, True)
    def fabs(self, x): return abs(num(x))
    def hypot(self, a, b): return core.sqrt_(num(a) * a + num(b) * b)


class interp1d:
    """scipy.interpolate.interp1d, kind='linear'"""

    def __init__(self, x, y, kind='linear', bounds_error=None, fill_value=NAN, assume_sorted=False, axis=-1, copy=True):
        if kind not in ('linear', 1): raise Inconclusive('interp1d kind')
        x, y = toarr(x), toarr(y)
        if x.shape[0] != y.shape[axis]: raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        self.cols = None
        if y.ndim > 1:
            y2 = rnp.moveaxis(y, axis, 0); self.axis = axis; self.rest = y2.shape[1:]
            y2 = rnp.reshape(y2, (y2.shape[0], -1))
            self.cols = [interp1d(x, mk(y2[:, j]), kind, bounds_error, fill_value, assume_sorted) for j in range(y2.shape[1])]
            return
        self.x = [floatify(v) for v in flat(x)]; self.y = [floatify(v) for v in flat(y)]
        if not assume_sorted:    # NaN sorts last
            k = [i for i, v in enumerate(self.x) if not isnan1(v)]
            o = [k[i] for i in argsort_list([self.x[i] for i in k])] + [i for i, v in enumerate(self.x) if isnan1(v)]
            self.x = [self.x[i] for i in o]; self.y = [self.y[i] for i in o]
        self.ex = isinstance(fill_value, str) and fill_value == 'extrapolate'
        self.be = bounds_error if bounds_error is not None else not self.ex
        self.fv = fill_value
        if self.ex and len(self.x) < 1: raise ValueError('empty')

    def __call__(self, q):
        q = unmv(q)
        if self.cols is not None:
            c = [toarr(f(q)) for f in self.cols]
            o = rnp.empty(c[0].shape + (len(c),), dtype=object)
            for j, v in enumerate(c): o[..., j] = v
            o = o.reshape(c[0].shape + self.rest)
            nq = c[0].ndim; ax = self.axis if self.axis >= 0 else self.axis + 1 + len(self.rest)
            return mk(rnp.moveaxis(o, list(range(nq)), list(range(ax, ax + nq))))
        if isinstance(q, (list, tuple, rnp.ndarray)):
            r = emap(self._one, toarr(q)); return r
        return obj0(self._one(num(q))).view(A)

    def _one(self, v):
        x, y = self.x, self.y
        if isnan1(v) or (not self.ex and any(isnan1(t) for t in x)): return NAN
        v = num(v)
        if not self.ex:
            if v < x[0] or v > x[-1]:
                if self.be: raise ValueError('A value in x_new is out of the interpolation range.')
                if isinstance(self.fv, tuple): return num(self.fv[0] if v < x[0] else self.fv[1])
                return num(self.fv)
        if len(x) == 1: return y[0] if v == x[0] else NAN
        # searchsorted(left), clipped to [1, n-1]
        i = 0
        while i < len(x) and not isnan1(x[i]) and x[i] < v: i += 1
        i = min(max(i, 1), len(x) - 1)
        lo, hi = i - 1, i
        if isnan1(x[lo]) or isnan1(x[hi]) or isnan1(y[lo]) or isnan1(y[hi]): return NAN
        dx = x[hi] - x[lo]
        sl = (y[hi] - y[lo]) / dx
        return sl * (v - x[lo]) + y[lo]


def R(s):
    """float literal, exact decimal value"""
    return Sym.c(Fraction(s))


def fmt_noop(*a, **k): return ''


class _Meta(type):
    def __instancecheck__(cls, x): return cls._inst(x)
    def __eq__(cls, o): return o is cls or o is cls._bt
    def __hash__(cls): return hash(cls._bt)


class sfloat(metaclass=_Meta):
    _bt = builtins.float; _is_float = True
    def __new__(cls, x=0): return floatify(x if not isinstance(x, rnp.ndarray) else x[()])
    @staticmethod
    def _inst(x): return isinstance(x, builtins.float) or (isinstance(x, Sym) and not x.isint)


class sint(metaclass=_Meta):
    _bt = builtins.int; _is_int = True
    def __new__(cls, x=0, *a):
        if isinstance(x, Sym): return c_int(x if x.isint else core.trunc_(x))
        return builtins.int(x, *a)
    @staticmethod
    def _inst(x): return isinstance(x, builtins.int) or (isinstance(x, Sym) and x.isint)


def stype(*a):
    if len(a) == 1:
        if isinstance(a[0], Sym): return sint if a[0].isint else sfloat
        t = builtins.type(a[0])
        return t
    return builtins.type(*a)


def ssum(it, start=0):
    r = start
    for v in it: r = r + v
    return r


def sround(x, nd=None):
    if isinstance(x, Sym): return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def cast_int(x):
    if isinstance(x, Sym): return c_int(x if x.isint else core.trunc_(x))
    if isinstance(x, float): raise OutOfBounds('cast of nan/inf to int')
    return int(x)


def _mm(args, key, default, sgn):
    l = list(args[0]) if len(args) == 1 else list(args)
    if not l:
        if default is not _mm: return default
        raise ValueError('max()/min() arg is an empty sequence')
    kf = key or (lambda v: v)
    b = l[0]; kb = kf(b)
    for v in l[1:]:
        kv = kf(v)
        if isinstance(kv, float) and kv != kv: continue
        if isinstance(kb, float) and kb != kb: continue
        if (kv > kb if sgn > 0 else kv < kb): b, kb = v, kv
    return b


def smax(*a, key=None, default=_mm): return _mm(a, key, default, 1)
def smin(*a, key=None, default=_mm): return _mm(a, key, default, -1)
def shash(x): return hash(x)
def slen(x): return len(x)
