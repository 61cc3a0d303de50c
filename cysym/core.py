"""Symbolic values, path exploration and solver interface.

Reals are exact: a symbolic real is a rational function (num/den) over *atoms*
in canonical polynomial form with Fraction coefficients.  Atoms are free
variables (harness inputs, nondeterministic stubs) or function applications
(sqrt, exp, ...) with their axioms.  A branch on a symbolic condition forks the
path; the solver decides which sides are feasible.  Python floats only occur
for nan and +-inf.
"""
import math, time, os, random
from fractions import Fraction
import z3

F0, F1 = Fraction(0), Fraction(1)
NAN = float('nan')
FMTINT = [False]      # text with symbolic integers: one path per value
INF = float('inf')


class PathAbort(BaseException):
    """Path left the assumed domain (assumption unsatisfiable)."""


class StopPrefix(BaseException):
    """an undecided prefix was re-run only to obtain inputs that follow it"""


class OutOfBounds(Exception):
    """Access outside an array through an unchecked memoryview."""


class Inconclusive(BaseException):
    pass


# ----------------------------------------------------------------- atoms ----
class Atom:
    __slots__ = ('id', 'name', 'isint', 'z', 'pos', 'kind', 'arg', 'sqpoly', 'zdef', 'lo', 'hi', 'deps')

    def __init__(self, id, name, isint, kind='var', arg=None):
        self.id = id; self.name = name; self.isint = isint; self.kind = kind; self.arg = arg
        self.z = z3.Int(name) if isint else z3.Real(name)
        self.pos = None       # '+' strictly positive, '0' nonnegative, None unknown
        self.sqpoly = None    # for sqrt atoms: Poly p with atom^2 == p
        self.zdef = []        # defining constraints
        self.deps = ()


class Ctx:
    """Everything interned for one exploration (atoms are reused across paths)."""

    def __init__(self):
        self.atoms = []
        self.byname = {}
        self.bykey = {}
        self.engine = None
        self.zcache = {}
        self._decl = {}

    def atom(self, name, isint=False, kind='var', key=None, arg=None):
        k = key if key is not None else ('var', name, isint)
        a = self.bykey.get(k)
        if a is None:
            if name in self.byname:
                name = '%s#%d' % (name, len(self.atoms))
            a = Atom(len(self.atoms), name, isint, kind, arg)
            self.atoms.append(a); self.byname[name] = a; self.bykey[k] = a
        return a


C = Ctx()


def reset():
    global C
    C.__init__()


# ----------------------------------------------------------- polynomials ----
# poly: dict mono -> Fraction, mono: tuple of (atom id, exp) sorted by id
def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_add(a, b):
    if not a: return b
    if not b: return a
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None: r[m] = c
        else:
            v = v + c
            if v: r[m] = v
            else: del r[m]
    return r


def p_neg(a): return {m: -c for m, c in a.items()}


def p_scale(a, k):
    if not k: return {}
    if k == 1: return a
    return {m: c * k for m, c in a.items()}


def _mono_mul(m, n):
    if not m: return n
    if not n: return m
    r = []; i = j = 0
    while i < len(m) and j < len(n):
        a, b = m[i], n[j]
        if a[0] == b[0]:
            r.append((a[0], a[1] + b[1])); i += 1; j += 1
        elif a[0] < b[0]: r.append(a); i += 1
        else: r.append(b); j += 1
    r.extend(m[i:]); r.extend(n[j:])
    return tuple(r)


def p_mul(a, b):
    if not a or not b: return {}
    if len(a) == 1 and () in a: return p_scale(b, a[()])
    if len(b) == 1 and () in b: return p_scale(a, b[()])
    if len(a) * len(b) > 400000:
        raise Inconclusive('polynomial too large (%d x %d terms)' % (len(a), len(b)))
    r = {}
    red = False
    atoms = C.atoms
    for m, c in a.items():
        for n, d in b.items():
            k = _mono_mul(m, n)
            v = r.get(k)
            v = c * d if v is None else v + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    for k in r:
        for (i, e) in k:
            if e >= 2 and atoms[i].sqpoly is not None:
                red = True; break
        if red: break
    if red: r = _reduce_sq(r)
    return r


def _reduce_sq(p):
    atoms = C.atoms
    out = {}
    for m, c in p.items():
        rep = None
        for idx, (i, e) in enumerate(m):
            if e >= 2 and atoms[i].sqpoly is not None:
                rep = (idx, i, e); break
        if rep is None:
            out = p_add(out, {m: c})
        else:
            idx, i, e = rep
            rest = m[:idx] + (((i, e % 2),) if e % 2 else ()) + m[idx + 1:]
            q = {rest: c}
            for _ in range(e // 2):
                q = p_mul(q, atoms[i].sqpoly)
            out = p_add(out, _reduce_sq(q))
    return out


def p_key(p): return frozenset(p.items())


def p_isconst(p): return not p or (len(p) == 1 and () in p)


def p_cval(p): return p.get((), F0)


def p_lead(p): return max(p)


def p_prim(p):
    """(positive primitive-normalised poly, scale) with p = scale*prim, leading coeff 1."""
    l = p[p_lead(p)]
    if l == 1: return p, F1
    return {m: c / l for m, c in p.items()}, l


def p_atoms(p):
    s = set()
    for m in p:
        for i, e in m: s.add(i)
    return s


def p_divmono(p, m):
    """divide by monomial if possible"""
    md = dict(m); r = {}
    for k, c in p.items():
        kd = dict(k)
        for i, e in md.items():
            x = kd.get(i, 0) - e
            if x < 0: return None
            if x == 0: kd.pop(i, None)
            else: kd[i] = x
        r[tuple(sorted(kd.items()))] = c
    return r


def p_common_mono(p):
    it = iter(p)
    try: g = dict(next(it))
    except StopIteration: return ()
    for m in it:
        if not g: return ()
        d = dict(m)
        for i in list(g):
            e = min(g[i], d.get(i, 0))
            if e: g[i] = e
            else: del g[i]
    return tuple(sorted(g.items()))


def p_divexact(a, b):
    """polynomial exact division a/b or None (lex leading-term division)."""
    if len(b) == 1:
        (m, c), = b.items()
        q = p_divmono(a, m)
        return None if q is None else {k: v / c for k, v in q.items()}
    if p_atoms(b) - p_atoms(a): return None
    order = sorted(p_atoms(a) | p_atoms(b))
    pos = {i: n for n, i in enumerate(order)}

    def vec(m):
        v = [0] * len(order)
        for i, e in m: v[pos[i]] = e
        return tuple(v)

    def mono(v): return tuple((order[n], e) for n, e in enumerate(v) if e)
    A = {vec(m): c for m, c in a.items()}; B = {vec(m): c for m, c in b.items()}
    lb = max(B); cb = B[lb]; q = {}
    steps = 0
    while A:
        steps += 1
        if steps > 2000: return None
        la = max(A)
        d = tuple(x - y for x, y in zip(la, lb))
        if min(d) < 0: return None
        cq = A[la] / cb
        q[mono(d)] = cq
        for m, c in B.items():
            k = tuple(x + y for x, y in zip(m, d))
            v = A.get(k, F0) - cq * c
            if v: A[k] = v
            else: A.pop(k, None)
    return q


def p_sqrt(p):
    """exact polynomial square root or None"""
    if not p: return {}
    order = sorted(p_atoms(p)); pos = {i: n for n, i in enumerate(order)}
    if not order:
        return None

    def vec(m):
        v = [0] * len(order)
        for i, e in m: v[pos[i]] = e
        return tuple(v)

    def mono(v): return tuple((order[n], e) for n, e in enumerate(v) if e)
    A = {vec(m): c for m, c in p.items()}
    lead = max(A)
    if any(e % 2 for e in lead): return None
    c = f_sqrt(A[lead])
    if c is None: return None
    r0 = tuple(e // 2 for e in lead)
    R = {r0: c}
    rem = dict(A); rem.pop(lead)
    for _ in range(200):
        if not rem: return {mono(v): x for v, x in R.items()}
        l = max(rem)
        d = tuple(x - y for x, y in zip(l, r0))
        if min(d) < 0 or d >= min(R): return None
        t = rem[l] / (2 * c)
        for v, x in list(R.items()):
            k = tuple(a + b for a, b in zip(v, d)); y = rem.get(k, F0) - 2 * t * x
            if y: rem[k] = y
            else: rem.pop(k, None)
        k = tuple(2 * a for a in d); y = rem.get(k, F0) - t * t
        if y: rem[k] = y
        else: rem.pop(k, None)
        R[d] = t
    return None


def f_sqrt(c):
    if c < 0: return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator: return Fraction(n, d)
    return None


def p_syntactic_sign(p):
    """'+', '-', '0+' , '0-' if evident from atom signs, else None"""
    if not p: return '0'
    pos = neg = True; strict = False
    for m, c in p.items():
        s = True; st = True
        for i, e in m:
            a = C.atoms[i]
            if a.pos == '+': continue
            if a.pos == '0' or e % 2 == 0: st = False; continue
            s = False; break
        if not s: return None
        if c > 0: neg = False
        else: pos = False
        if st: strict = True
        if not pos and not neg: return None
    if pos: return '+' if strict else '0+'
    return '-' if strict else '0-'


def p_z3(p):
    k = p_key(p)
    z = C.zcache.get(k)
    if z is None:
        terms = []
        allint = all(C.atoms[i].isint for i in p_atoms(p)) and all(c.denominator == 1 for c in p.values())
        for m, c in sorted(p.items(), key=lambda t: str(t[0])):
            fs = []
            for i, e in m:
                a = C.atoms[i]
                v = a.z if (allint or not a.isint) else z3.ToReal(a.z)
                fs.extend([v] * e)
            cz = z3.IntVal(c.numerator) if allint else z3.RealVal(str(c))
            if not fs: terms.append(cz)
            else:
                t = fs[0]
                for f in fs[1:]: t = t * f
                if c == 1: pass
                elif c == -1: t = -t
                else: t = cz * t
                terms.append(t)
        if not terms: z = z3.RealVal(0)
        elif len(terms) == 1: z = terms[0]
        else: z = z3.Sum(terms)
        C.zcache[k] = z
    return z


# ----------------------------------------------------------------- Sym ------
def num(x):
    """Python number -> Sym (finite) or float nan/inf."""
    if isinstance(x, Sym): return x
    if isinstance(x, SymBool): return num(bool(x))
    if isinstance(x, bool): return Sym.c(int(x), False)
    if isinstance(x, int): return Sym.c(x, True)
    if isinstance(x, Fraction): return Sym.c(x, False)
    if isinstance(x, float):
        if x != x or x in (INF, -INF): return x
        return Sym.c(Fraction(x), False)
    if isinstance(x, complex):
        if x.imag == 0: return num(x.real)
        raise TypeError('complex value')
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return num(x.item())
    return NotImplemented


class Sym:
    __slots__ = ('n', 'd', 'isint', '_k')

    def __init__(self, n, d=None, isint=False):
        self.n = n; self.d = d; self.isint = isint; self._k = None

    # constructors
    @staticmethod
    def c(v, isint=False): return Sym(p_const(v), None, isint)

    @staticmethod
    def var(name, isint=False):
        a = C.atom(name, isint)
        return Sym({((a.id, 1),): F1}, None, isint)

    @staticmethod
    def of_atom(a): return Sym({((a.id, 1),): F1}, None, a.isint)

    @staticmethod
    def make(n, d, isint=False):
        if not n: return Sym({}, None, isint)
        if d is None: return Sym(n, None, isint)
        if p_isconst(d):
            return Sym(p_scale(n, 1 / p_cval(d)), None, isint)
        # cancel
        if p_key(n) == p_key(d): return Sym(p_const(1), None, isint)
        g = p_common_mono(d)
        if g:
            gn = dict(p_common_mono(n)); cm = tuple((i, min(e, gn[i])) for i, e in g if i in gn)
            if cm:
                n = p_divmono(n, cm); d = p_divmono(d, cm)
                if p_isconst(d): return Sym(p_scale(n, 1 / p_cval(d)), None, isint)
        if len(d) > 1 or len(n) > 1:
            q = p_divexact(n, d) if len(n) * len(d) < 20000 else None
            if q is not None: return Sym(q, None, isint)
            if len(n) < len(d) and not p_isconst(n) and len(n) * len(d) < 20000:
                q = p_divexact(d, n)
                if q is not None: return Sym.make(p_const(1), q, isint)
        dp, s = p_prim(d)
        return Sym(p_scale(n, 1 / s), dp, isint)

    def byteswap(self, *a):
        from .rt import RT
        if RT.byteswap is None: raise Inconclusive('byteswap')
        return RT.byteswap(self)

    # basic info
    @property
    def isconst(self): return self.d is None and p_isconst(self.n)

    @property
    def cval(self): return p_cval(self.n)

    def key(self):
        if self._k is None:
            self._k = (p_key(self.n), None if self.d is None else p_key(self.d))
        return self._k

    def __hash__(self):
        if self.isconst: return hash(self.cval)
        return hash(self.key())

    # arithmetic
    def __add__(self, o):
        if isinstance(o, complex): return SymC(self, 0) + o
        o = num(o)
        if o is NotImplemented: return o
        if isinstance(o, float): return o
        ii = self.isint and o.isint
        if self.d is None and o.d is None: return Sym(p_add(self.n, o.n), None, ii)
        a, b = self.d or p_const(1), o.d or p_const(1)
        if p_key(a) == p_key(b): return Sym.make(p_add(self.n, o.n), a, ii)
        if o.d is None: return Sym.make(p_add(self.n, p_mul(o.n, a)), a, ii)
        if self.d is None: return Sym.make(p_add(p_mul(self.n, b), o.n), b, ii)
        q = p_divexact(a, b)
        if q is not None: return Sym.make(p_add(self.n, p_mul(o.n, q)), a, ii)
        q = p_divexact(b, a)
        if q is not None: return Sym.make(p_add(p_mul(self.n, q), o.n), b, ii)
        return Sym.make(p_add(p_mul(self.n, b), p_mul(o.n, a)), p_mul(a, b), ii)
    __radd__ = __add__

    def __neg__(self): return Sym(p_neg(self.n), self.d, self.isint)

    def __pos__(self): return self

    def __sub__(self, o):
        if isinstance(o, complex): return SymC(self, 0) - o
        o = num(o)
        if o is NotImplemented: return o
        if isinstance(o, float): return -o
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, complex): return SymC.of(o) - SymC(self, 0)
        o = num(o)
        if o is NotImplemented: return o
        if isinstance(o, float): return o
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, complex): return SymC(self, 0) * o
        o = num(o)
        if o is NotImplemented: return o
        if isinstance(o, float):
            if o != o: return NAN
            s = self.sign()
            return NAN if s == 0 else (o if s > 0 else -o)
        ii = self.isint and o.isint
        n = p_mul(self.n, o.n)
        if self.d is None and o.d is None: return Sym(n, None, ii)
        if self.d is None: d = o.d
        elif o.d is None: d = self.d
        else: d = p_mul(self.d, o.d)
        return Sym.make(n, d, ii)
    __rmul__ = __mul__

    def _div(self, o, raising=False):
        """self / o with IEEE semantics on a zero divisor (or ZeroDivisionError)."""
        s = None
        if o.isconst: s = 0 if not o.n else 1
        else: s = 0 if (o == 0) else 1
        if s == 0:
            if raising: raise ZeroDivisionError('float division')
            g = self.sign()
            return NAN if g == 0 else (INF if g > 0 else -INF)
        on, od = o.n, o.d
        n = self.n if od is None else p_mul(self.n, od)
        d = on if self.d is None else p_mul(self.d, on)
        return Sym.make(n, d)

    def __truediv__(self, o):
        if isinstance(o, complex): return SymC(self, 0) / o
        o = num(o)
        if o is NotImplemented: return o
        if isinstance(o, float): return NAN if o != o else Sym.c(0)
        return self._div(o)

    def __rtruediv__(self, o):
        if isinstance(o, complex): return SymC.of(o) / SymC(self, 0)
        o = num(o)
        if o is NotImplemented: return o
        if isinstance(o, float):
            if o != o: return NAN
            s = self.sign()
            return o if s >= 0 else -o
        return o._div(self)

    def __pow__(self, e):
        return sym_pow(self, e)

    def __rpow__(self, b):
        b = num(b)
        if b is NotImplemented: return b
        return sym_pow(b, self)

    def __floordiv__(self, o):
        o = num(o)
        if o is NotImplemented: return o
        return floor_(self / o if not (self.isint and o.isint) else Sym.make(self.n, None) / o, self.isint and o.isint)

    def __rfloordiv__(self, o):
        o = num(o)
        return o // self

    def __mod__(self, o):
        o = num(o)
        if o is NotImplemented: return o
        return self - o * (self // o)

    def __rmod__(self, o): return num(o) % self

    def __divmod__(self, o): return self // o, self % o

    def __abs__(self): return self if self >= 0 else -self

    # comparison
    def _cmp(self, o, op):
        o = num(o)
        if o is NotImplemented: return NotImplemented
        if isinstance(o, float):
            if o != o: return op == 'ne'
            return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False, 'ne': True}[op]
        diff = self - o
        return cmp0(diff, op)

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, 'ne')
        return True if r is NotImplemented else r

    def sign(self):
        """-1, 0, 1 (forks)"""
        if self > 0: return 1
        if self < 0: return -1
        return 0

    def __bool__(self): return bool(self != 0)

    # conversions
    def __float__(self):
        if self.isconst: return float(self.cval)
        raise Inconclusive('float() of a symbolic value')

    def __int__(self):
        if self.isconst: return int(self.cval)
        if self.isint: return concretize(self)
        return concretize(trunc_(self))

    def __trunc__(self): return int(self)

    def __index__(self):
        if self.isconst and self.cval.denominator == 1 and self.isint: return int(self.cval)
        if self.isint: return concretize(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __floor__(self): return floor_(self, True)
    def __ceil__(self): return -floor_(-self, True)

    def __round__(self, nd=None):
        if self.isint: return self
        if nd in (None, 0):
            if self.isconst:
                r = Sym.c(round(self.cval), nd is None)
                return r
            # round half even: modelled as floor(x+1/2) away from ties
            return floor_(self + Fraction(1, 2), nd is None)
        if self.isconst: return Sym.c(round(self.cval, nd), False)
        return uf_('round%d_' % nd, [self])      # only printed by the code under test

    @property
    def real(self): return self
    @property
    def imag(self): return Sym.c(0)
    def conjugate(self): return self
    def item(self): return self
    def round(self, *a): return self.__round__(0)

    def is_integer(self): return bool(self == floor_(self, False))

    def copy(self): return self

    @property
    def shape(self): raise AttributeError('shape')

    # pretty
    def __repr__(self):
        if self.isconst:
            c = self.cval
            return str(c) if c.denominator == 1 else repr(float(c))
        return 'Sym(%s)' % poly_str(self)
    __str__ = __repr__

    def __format__(self, spec):
        if self.isconst and spec:
            if spec[-1] in 'dxX': return format(int(self.cval), spec)
            return format(float(self.cval), spec)
        if self.isint and not self.isconst and spec in ('', 'd', 'i') and FMTINT[0]: return str(int(self))
        return repr(self)

    def z3(self):
        """z3 real term (denominators nonzero on this path)."""
        n = p_z3(self.n)
        if self.d is None: return n
        return toreal(n) / toreal(p_z3(self.d))


def toreal(z):
    return z3.ToReal(z) if z.is_int() else z


def poly_str(s, lim=300):
    def ps(p):
        out = []
        for m, c in p.items():
            t = '*'.join(C.atoms[i].name + ('^%d' % e if e > 1 else '') for i, e in m)
            out.append(('%s*%s' % (c, t)) if t and c != 1 else (t or str(c)))
            if len(out) > 12: out.append('...'); break
        return ' + '.join(out)
    r = ps(s.n)
    if s.d is not None: r = '(%s)/(%s)' % (r, ps(s.d))
    return r[:lim]


# ---------------------------------------------------------------- bools -----
class SymC:
    """complex number with symbolic parts"""
    __slots__ = ('real', 'imag')
    def __init__(self, re=0, im=0):
        if isinstance(re, (SymC, complex)): re, im = re.real - (im.imag if isinstance(im, (SymC, complex)) else 0), re.imag + (im.real if isinstance(im, (SymC, complex)) else im)
        self.real = num(re); self.imag = num(im)
        if isinstance(self.real, Sym) and self.real.isint: self.real = Sym(self.real.n, self.real.d, False)
        if isinstance(self.imag, Sym) and self.imag.isint: self.imag = Sym(self.imag.n, self.imag.d, False)

    @staticmethod
    def of(o):
        if isinstance(o, SymC): return o
        if isinstance(o, complex): return SymC(o.real, o.imag)
        o = num(o)
        return NotImplemented if o is NotImplemented else SymC(o, 0)

    def _bin(self, o, f):
        o = SymC.of(o)
        return o if o is NotImplemented else f(self, o)

    def __add__(self, o): return self._bin(o, lambda a, b: SymC(a.real + b.real, a.imag + b.imag))
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: SymC(a.real - b.real, a.imag - b.imag))
    def __rsub__(self, o): return self._bin(o, lambda b, a: SymC(a.real - b.real, a.imag - b.imag))
    def __mul__(self, o): return self._bin(o, lambda a, b: SymC(a.real * b.real - a.imag * b.imag, a.real * b.imag + a.imag * b.real))
    __rmul__ = __mul__
    @staticmethod
    def _quot(a, b):
        if isinstance(b.imag, Sym) and b.imag.isconst and b.imag.cval == 0: return SymC(a.real / b.real, a.imag / b.real)
        n = b.real * b.real + b.imag * b.imag
        return SymC((a.real * b.real + a.imag * b.imag) / n, (a.imag * b.real - a.real * b.imag) / n)
    def __truediv__(self, o): return self._bin(o, SymC._quot)
    def __rtruediv__(self, o): return self._bin(o, lambda b, a: SymC._quot(a, b))
    def __neg__(self): return SymC(-self.real, -self.imag)
    def __pos__(self): return self
    def conjugate(self): return SymC(self.real, -self.imag)
    def __abs__(self): return sqrt_(self.real * self.real + self.imag * self.imag)
    def __eq__(self, o):
        o = SymC.of(o)
        return False if o is NotImplemented else (self.real == o.real and self.imag == o.imag)
    def __ne__(self, o): return not self == o
    __hash__ = None
    def __pow__(self, k):
        if not isinstance(k, int) or k < 0: raise Inconclusive('complex power')
        r = SymC(1, 0)
        for _ in range(k): r = r * self
        return r
    def __repr__(self): return 'SymC(%r, %r)' % (self.real, self.imag)


class SymBool:
    """z3 boolean; truth value forks the path."""
    __slots__ = ('z', 'canon')

    def __init__(self, z, canon=None): self.z = z; self.canon = canon

    def __bool__(self): return C.engine.branch(self)

    def __and__(self, o): return sb_and(self, o)
    __rand__ = __and__
    def __or__(self, o): return sb_or(self, o)
    __ror__ = __or__
    def __invert__(self): return sb_not(self)
    def __xor__(self, o): return SymBool(z3.Xor(self.z, bz(o)))
    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or hasattr(o, 'dtype'): return SymBool(self.z == bz(o))
        return bool(self) == o
    def __ne__(self, o): return sb_not(self == o)
    def __hash__(self): return hash(self.z)
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))


def bz(b):
    if isinstance(b, SymBool): return b.z
    return z3.BoolVal(bool(b))


def sb_and(a, b):
    if not isinstance(a, SymBool): return b if a else False
    if not isinstance(b, SymBool): return a if b else False
    return SymBool(z3.And(a.z, b.z))


def sb_or(a, b):
    if not isinstance(a, SymBool): return True if a else b
    if not isinstance(b, SymBool): return True if b else a
    return SymBool(z3.Or(a.z, b.z))


def sb_not(a):
    if not isinstance(a, SymBool): return not a
    if a.canon is not None:
        p, ss = a.canon
        return SymBool(z3.Not(a.z), (p, frozenset({-1, 0, 1}) - ss))
    return SymBool(z3.Not(a.z))


OPS = {'lt': frozenset({-1}), 'le': frozenset({-1, 0}), 'gt': frozenset({1}), 'ge': frozenset({0, 1}),
       'eq': frozenset({0}), 'ne': frozenset({-1, 1})}


def poly_sign_known(p):
    """set of possible signs of poly known syntactically or from the path"""
    s = p_syntactic_sign(p)
    base = {'0': {0}, '+': {1}, '-': {-1}, '0+': {0, 1}, '0-': {0, -1}, None: {-1, 0, 1}}[s]
    if C.engine is not None and p:
        pp, k = p_prim(p)
        known = C.engine.signs.get(p_key(pp))
        if known is not None:
            base = base & (set(known) if k > 0 else {-x for x in known})
    return base


def signbool(p, want):
    """condition sign(p) in want, as bool or SymBool"""
    poss = poly_sign_known(p)
    if poss <= want: return True
    if not (poss & want): return False
    # strip monomial/sqrt factors of known sign? keep simple: common positive monomial
    g = p_common_mono(p)
    if g:
        strip = tuple((i, e) for i, e in g if C.atoms[i].pos == '+')
        if strip:
            return signbool(p_divmono(p, strip), want)
    pp, k = p_prim(p)
    w = frozenset(want if k > 0 else {-x for x in want})
    z = p_z3(pp)
    zero = z3.IntVal(0) if z.is_int() else z3.RealVal(0)
    zc = {frozenset({-1}): lambda: z < zero, frozenset({1}): lambda: z > zero, frozenset({0}): lambda: z == zero,
          frozenset({-1, 0}): lambda: z <= zero, frozenset({0, 1}): lambda: z >= zero, frozenset({-1, 1}): lambda: z != zero}[w]()
    return SymBool(zc, (p_key(pp), w))


def cmp0(x, op):
    """x <op> 0"""
    want = OPS[op]
    if x.isconst:
        c = x.cval
        return ((c > 0) - (c < 0)) in want
    if x.d is None: return sqrtcmp(x.n, want)
    ds = poly_sign_known(x.d) - {0}
    if ds == {1}: return sqrtcmp(x.n, want)
    if ds == {-1}: return sqrtcmp(x.n, {-a for a in want})
    if op in ('eq', 'ne'): return signbool(x.n, want)
    # decide the sign of the denominator on this path
    b = signbool(x.d, frozenset({1}))
    if bool(b): return sqrtcmp(x.n, want)
    return sqrtcmp(x.n, {-a for a in want})


def sqrtcmp(p, want):
    """sign test of p = A*s + B with one sqrt atom s (s>=0): eliminate the root when signs are known."""
    sq = [i for i in p_atoms(p) if C.atoms[i].sqpoly is not None]
    if len(sq) == 1:
        s = sq[0]
        A = {}; B = {}
        for m, c in p.items():
            e = dict(m).get(s, 0)
            if e == 1: A[tuple(t for t in m if t[0] != s)] = c
            elif e == 0: B[m] = c
            else: return signbool(p, want)
        sa = poly_sign_known(A); sb = poly_sign_known(B)
        if sa <= {0, 1} and sb <= {0, -1} or sa <= {0, -1} and sb <= {0, 1}:
            # sign(A s + B) with opposite signs: compare squares
            D = p_add(p_mul(p_mul(A, A), C.atoms[s].sqpoly), p_neg(p_mul(B, B)))
            if sa <= {0, 1}: return signbool(D, want)
            return signbool(D, frozenset(-a for a in want))
    return signbool(p, frozenset(want))


# ---------------------------------------------------- function atoms --------
def assert_def(a, *zs):
    a.zdef.extend(zs)


def sqrt_(x):
    x = num(x)
    if isinstance(x, float): return NAN if not x > 0 else x
    if x.isconst:
        if x.cval < 0: return NAN
        r = f_sqrt(x.cval)
        if r is not None: return Sym.c(r)
    elif x < 0: return NAN
    if x.d is not None:
        if poly_sign_known(x.d) <= {1} or bool(cmp0(Sym(x.d), 'gt')): d = x.d; n = x.n
        else: d = p_neg(x.d); n = p_neg(x.n)
        rd = _psqrt_abs(d)
        if rd is not None:
            return sqrt_(Sym(n)) / rd
        return sqrt_(Sym(p_mul(n, d))) / Sym(d)
    p = x.n
    if not p: return Sym.c(0)
    r = _psqrt_abs(p)
    if r is not None: return r
    # pull out square monomial factor and constant
    g = p_common_mono(p)
    outm = tuple((i, e // 2) for i, e in g if e >= 2)
    fac = Sym.c(1)
    if outm:
        p = p_divmono(p, tuple((i, 2 * e) for i, e in outm))
        fac = abs(Sym({outm: F1}))
    lead = p[p_lead(p)]
    s = f_sqrt(abs(lead))
    if s is not None and s != 0:
        p = p_scale(p, 1 / (s * s)); fac = fac * Sym.c(s)
    else:
        p2 = p_scale(p, 1 / abs(lead)); k = f_sqrt_atom(abs(lead))
        if p_isconst(p2): return fac * k
        p = p2; fac = fac * k
    if p_isconst(p):
        r = f_sqrt(p_cval(p))
        return fac * (Sym.c(r) if r is not None else f_sqrt_atom(p_cval(p)))
    key = ('sqrt', p_key(p))
    a = C.bykey.get(key)
    if a is None:
        a = C.atom('sqrt%d' % len(C.atoms), False, 'sqrt', key, Sym(p))
        a.sqpoly = p; a.pos = '+' if p_syntactic_sign(p) == '+' else '0'
        a.deps = tuple(p_atoms(p))
        pz = toreal(p_z3(p))
        assert_def(a, a.z >= 0, a.z * a.z == pz)
    return fac * Sym.of_atom(a)


def f_sqrt_atom(c):
    """sqrt of a positive non-square constant: split square factors, atom for the squarefree rest"""
    c = Fraction(c)
    n = c.numerator * c.denominator
    out = 1; r = n; f = 2
    while f * f <= r and f < 2000:
        while r % (f * f) == 0: r //= f * f; out *= f
        f += 1
    base = Sym.c(Fraction(out, c.denominator))
    if r == 1: return base
    s = math.isqrt(r)
    if s * s == r: return base * Sym.c(s)
    key = ('sqrt', p_key(p_const(r)))
    a = C.bykey.get(key)
    if a is None:
        a = C.atom('sqrtc%d' % len(C.atoms), False, 'sqrt', key, Sym.c(r))
        a.sqpoly = p_const(r); a.pos = '+'
        assert_def(a, a.z > 0, a.z * a.z == r)
    return base * Sym.of_atom(a)


def _psqrt_abs(p):
    if len(p_atoms(p)) > 8 or len(p) > 60: return None
    r = p_sqrt(p)
    if r is None: return None
    return abs(Sym(r))


def _lead_neg(x):
    return x.n and x.n[p_lead(x.n)] < 0


def exp_(x):
    x = num(x)
    if isinstance(x, float): return NAN if x != x else (INF if x > 0 else Sym.c(0))
    if x.isconst and x.cval == 0: return Sym.c(1)
    if _lead_neg(x):
        return Sym.c(1) / exp_(-x)
    # split sums: exp(a+b) = exp(a)exp(b); integer coefficients -> powers
    if x.d is None and len(x.n) > 1:
        r = Sym.c(1)
        for m, c in x.n.items(): r = r * exp_(Sym({m: c}))
        return r
    key = ('exp', x.key())
    a = C.bykey.get(key)
    if a is None:
        a = C.atom('exp%d' % len(C.atoms), False, 'exp', key, x)
        a.pos = '+'
        z = x.z3(); a.deps = tuple(p_atoms(x.n) | (p_atoms(x.d) if x.d else set()))
        z = toreal(z)
        assert_def(a, a.z > 0, a.z >= 1 + z, z3.Implies(z < 0, a.z < 1))
    return Sym.of_atom(a)


def log_(x):
    x = num(x)
    if isinstance(x, float): return x if x > 0 else NAN
    if x.isconst and x.cval == 1: return Sym.c(0)
    if x == 0: return -INF
    if x < 0: return NAN
    # log of product / quotient / power
    if x.d is not None: return log_(Sym(x.n)) - log_(Sym(x.d))
    if len(x.n) == 1 and not x.isconst:
        (m, c), = x.n.items()
        if all(C.atoms[i].pos == '+' for i, e in m) and c > 0:
            r = log_(Sym.c(c)) if c != 1 else Sym.c(0)
            for i, e in m:
                a = C.atoms[i]
                if a.kind == 'exp': r = r + a.arg * e
                elif a.kind == 'sqrt': r = r + log_(a.arg) * Fraction(e, 2)
                elif a.kind == 'pow': r = r + log_(a.arg[0]) * a.arg[1] * e
                else: r = r + _log_atom(Sym.of_atom(a)) * e
            return r
    if not x.isconst and x.d is None:
        g = tuple((i, e) for i, e in p_common_mono(x.n) if C.atoms[i].pos == '+')
        if g:
            return log_(Sym({g: F1})) + log_(Sym(p_divmono(x.n, g)))
        lead = x.n[p_lead(x.n)]
        if lead > 0 and lead != 1:
            return log_(Sym.c(lead)) + _log_atom(Sym(p_scale(x.n, 1 / lead)))
    if x.isconst:
        c = x.cval
        # factor small primes so that log 4 = 2 log 2 etc.
        r = Sym.c(0)
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            f = 2
            while v > 1 and f < 100:
                k = 0
                while v % f == 0: v //= f; k += 1
                if k: r = r + _log_atom(Sym.c(f)) * (s * k)
                f += 1
            if v > 1: r = r + _log_atom(Sym.c(v)) * s
        return r
    return _log_atom(x)


def _log_atom(x):
    key = ('log', x.key())
    a = C.bykey.get(key)
    if a is None:
        a = C.atom('log%d' % len(C.atoms), False, 'log', key, x)
        z = toreal(x.z3()); a.deps = tuple(p_atoms(x.n) | (p_atoms(x.d) if x.d else set()))
        if x.isconst:
            v = math.log(x.cval); assert_def(a, a.z > z3.RealVal(str(Fraction(v) - Fraction(1, 10**9))), a.z < z3.RealVal(str(Fraction(v) + Fraction(1, 10**9))))
            a.pos = '+' if v > 0 else None
        else:
            assert_def(a, a.z <= z - 1, (a.z > 0) == (z > 1), (a.z == 0) == (z == 1))
    return Sym.of_atom(a)


def sym_pow(b, e):
    b = num(b); e = num(e)
    if e is NotImplemented or b is NotImplemented: return NotImplemented
    if isinstance(e, float):
        raise Inconclusive('pow with nan/inf exponent')
    if isinstance(b, float):
        if b != b: return b if not (e.isconst and e.cval == 0) else Sym.c(1)
        if e.isconst: return INF if (e.cval > 0) else (Sym.c(0) if e.cval < 0 else Sym.c(1))
        raise Inconclusive('inf ** symbolic')
    if e.isconst:
        ev = e.cval
        if ev.denominator == 1:
            k = int(ev)
            if k == 0: return Sym.c(1, b.isint)
            r = None; base = b; n = abs(k)
            while n:
                if n & 1: r = base if r is None else r * base
                n >>= 1
                if n: base = base * base
            if k < 0: return Sym.c(1) / r
            return r
        if ev.denominator == 2:
            return sqrt_(b) ** e.__mul__(2)
        if b.isconst and b.cval == 1: return Sym.c(1)
        if b == 0: return Sym.c(0) if ev > 0 else INF
        if b < 0: return NAN
        ip = math.floor(ev); fr = ev - ip
        r = _pow_atom(b, Sym.c(fr))
        return r * sym_pow(b, Sym.c(ip)) if ip else r
    if b.isconst and b.cval == 1: return Sym.c(1)
    if b == 0:
        s = e.sign()
        return Sym.c(0) if s > 0 else (Sym.c(1) if s == 0 else INF)
    if b < 0: raise Inconclusive('negative base with symbolic exponent')
    # split the exponent into constant and symbolic part
    if e.d is None and () in e.n:
        c = e.n[()]; rest = Sym({m: v for m, v in e.n.items() if m != ()})
        return sym_pow(b, Sym.c(c)) * sym_pow(b, rest)
    if e.d is None and len(e.n) > 1:
        r = Sym.c(1)
        for m, v in e.n.items(): r = r * sym_pow(b, Sym({m: v}))
        return r
    if _lead_neg(e): return Sym.c(1) / sym_pow(b, -e)
    # split a quotient / monomial base
    if b.d is not None:
        if b.n and bool(Sym(b.d) > 0): return sym_pow(Sym(b.n), e) / sym_pow(Sym(b.d), e)
    elif len(b.n) == 1 and not b.isconst:
        (m, c), = b.n.items()
        if c > 0 and all(C.atoms[i].pos == '+' for i, _ in m) and (len(m) > 1 or c != 1 or m[0][1] != 1):
            r = Sym.c(1) if c == 1 else sym_pow(Sym.c(c), e)
            for i, k in m: r = r * sym_pow(Sym.of_atom(C.atoms[i]), e * k)
            return r
        if len(m) == 1 and C.atoms[m[0][0]].kind == 'pow':
            a = C.atoms[m[0][0]]
            return sym_pow(a.arg[0], a.arg[1] * e)
    return _pow_atom(b, e)


def _pow_atom(b, e):
    coef = 1
    if not e.isconst and e.d is None and len(e.n) == 1:
        (m, c), = e.n.items()
        if c.denominator == 1 and c > 1:
            coef = int(c); e = Sym({m: F1})
    key = ('pow', b.key(), e.key())
    a = C.bykey.get(key)
    if a is None:
        a = C.atom('pow%d' % len(C.atoms), False, 'pow', key, (b, e))
        a.pos = '+'
        bzv = toreal(b.z3()); ez = toreal(e.z3())
        d = set()
        for q in (b.n, b.d, e.n, e.d):
            if q: d |= p_atoms(q)
        a.deps = tuple(d)
        assert_def(a, a.z > 0, z3.Implies(bzv == 1, a.z == 1), z3.Implies(ez == 0, a.z == 1),
                   z3.Implies(z3.And(bzv > 1, ez > 0), a.z > 1), z3.Implies(z3.And(bzv < 1, ez > 0), a.z < 1))
    r = Sym.of_atom(a)
    return r if coef == 1 else sym_pow(r, Sym.c(coef))


def uf_(name, args, lo=None, hi=None, pos=None):
    """uninterpreted function of symbolic args, optional range"""
    args = [num(x) for x in args]
    if any(isinstance(x, float) for x in args): return NAN
    key = (name,) + tuple(x.key() for x in args)
    a = C.bykey.get(key)
    if a is None:
        a = C.atom('%s%d' % (name, len(C.atoms)), False, name, key, tuple(args))
        a.pos = pos
        if lo is not None: assert_def(a, a.z >= z3.RealVal(str(lo)))
        if hi is not None: assert_def(a, a.z <= z3.RealVal(str(hi)))
        if pos == '+': assert_def(a, a.z > 0)
    return Sym.of_atom(a)


def sin_(x): return trig(x, 0)
def cos_(x): return trig(x, 1)


def trig(x, which):
    x = num(x)
    if isinstance(x, float): return NAN
    if x.isconst and x.cval == 0: return Sym.c(which)
    if _lead_neg(x):
        return trig(-x, 1) if which else -trig(-x, 0)
    key = ('trig', x.key())
    pair = C.bykey.get(key)
    if pair is None:
        s = C.atom('sin%d' % len(C.atoms), False, 'sin', ('sin', x.key()), x)
        c = C.atom('cos%d' % len(C.atoms), False, 'cos', ('cos', x.key()), x)
        assert_def(s, s.z * s.z + c.z * c.z == 1, s.z >= -1, s.z <= 1)
        assert_def(c, s.z * s.z + c.z * c.z == 1, c.z >= -1, c.z <= 1)
        s.deps = (c.id,); c.deps = (s.id,)
        # canonical: sin^2 = 1 - cos^2
        s.sqpoly = None
        pair = (s, c); C.bykey[key] = pair
    r = pair[which]
    return r if isinstance(r, Sym) else Sym.of_atom(r)


def floor_(x, isint):
    x = num(x)
    if isinstance(x, float): return x
    if x.isint: return x
    if x.isconst: return Sym.c(math.floor(x.cval), isint)
    key = ('floor', x.key())
    a = C.bykey.get(key)
    if a is None:
        a = C.atom('floor%d' % len(C.atoms), True, 'floor', key, x)
        z = toreal(x.z3())
        a.deps = tuple(p_atoms(x.n) | (p_atoms(x.d) if x.d else set()))
        assert_def(a, z3.ToReal(a.z) <= z, z < z3.ToReal(a.z) + 1)
    s = Sym.of_atom(a); s.isint = isint
    return s


def trunc_(x):
    if x >= 0: return floor_(x, True)
    return -floor_(-x, True)


def pi_():
    a = C.bykey.get(('pi',))
    if a is None:
        a = C.atom('pi', False, 'pi', ('pi',)); a.pos = '+'
        assert_def(a, a.z > z3.RealVal('3.1415926'), a.z < z3.RealVal('3.1415927'))
    return Sym.of_atom(a)


def fresh(name, isint=False, pos=None):
    """fresh nondeterministic value; name must be unique and deterministic per path"""
    e = C.engine
    k = e.freshcount.get(name, 0); e.freshcount[name] = k + 1
    s = Sym.var('%s!%d' % (name, k) if k else name, isint)
    return s


def concretize(x):
    """fork over all feasible integer values of x"""
    if x.isconst: return int(x.cval)
    return C.engine.concretize(x)


# ---------------------------------------------------------------- engine ----
class Stats:
    def __init__(self):
        self.paths = 0; self.queries = 0; self.solver_s = 0.0; self.unknown = 0; self.forks = 0
        self.obligations = 0; self.discharged = 0; self.aborted = 0; self.obl_queries = 0
        self.samples = []


class Violation:
    """a failed obligation: candidate models (best first), harness choices, finding key"""
    def __init__(self, what, models, choices, key=None):
        self.what = what; self.models = models; self.choices = choices; self.key = key


class Engine:
    def __init__(self, stats=None, timeout_ms=20000, branch_timeout_ms=4000, max_paths=100000, deadline=None, wall=None):
        self.wall = wall
        self.stats = stats or Stats()
        self.timeout = timeout_ms; self.btimeout = branch_timeout_ms
        self.max_paths = max_paths; self.deadline = deadline
        self.violations = []; self.inconclusive = []
        self.fallbacks = []; self.stopping = False

    def now(self): return time.process_time()

    def undecided(self, reason, n=2):
        """this path was not decided: keep concrete inputs that follow it, to be run on the real build"""
        if len(self.fallbacks) >= 16: return
        try:
            for w in self.diverse(n): self.fallbacks.append((w, dict(getattr(self, 'choices', {})), reason))
        except (PathAbort, Inconclusive, StopPrefix, z3.Z3Exception): pass

    def diverse(self, n):
        out = []
        w = self.witness()
        if w is not None: out.append(w)
        names = getattr(C, '_decl', None) or {}
        rng = random.Random(len(self.fallbacks) + 17)
        d, _ = self.defs(list(self.pc))
        for k in range(n - 1):
            for width in (Fraction(1, 5), Fraction(2, 5), Fraction(7, 10)):
                pref = []
                for nm, (lo, hi, pos) in names.items():
                    a = C.byname.get(nm)
                    if a is None: continue
                    try:
                        l = Fraction(lo) if lo is not None else (Fraction(0) if pos else Fraction(-5))
                        u = Fraction(hi) if hi is not None else max(l, 0) + 5
                    except TypeError: continue
                    c = l + (u - l) * Fraction(rng.randint(5, 95), 100)
                    pref += [toreal(a.z) >= z3.RealVal(str(c - width * (u - l))), toreal(a.z) <= z3.RealVal(str(c + width * (u - l)))]
                t = time.time(); r, m = run_solver(list(self.pc) + d + pref, 2000)
                self.stats.solver_s += time.time() - t; self.stats.queries += 1
                if r == 'sat': out.append(extract(m)); break
        return out

    # ---- exploration
    def explore(self, fn, max_violations=1, known=(), nwit=0, seed=1):
        """run fn() on every feasible path. fn uses assume()/check()."""
        C.engine = self
        work = [[]]
        npaths = 0
        self.witnesses = []; self.nwit = nwit
        nextw = 1
        while work:
            if npaths >= self.max_paths or (self.deadline and self.now() > self.deadline) or (self.wall and time.time() > self.wall):
                self.inconclusive.append('path or time budget exhausted: %d paths done, %d pending' % (npaths, len(work)))
                self.stopping = True
                for prefix in work[::max(1, len(work) // 8)][:8]:
                    self._start(prefix)
                    try: fn()
                    except StopPrefix: self.undecided('budget', 1)
                    except (PathAbort, Inconclusive): pass
                return False
            prefix = work.pop()
            self._start(prefix)
            ninc = len(self.inconclusive)
            try:
                fn()
                if len(self.inconclusive) > ninc: self.undecided(self.inconclusive[-1])
                self.stats.paths += 1
                if len(self.witnesses) < nwit and self.stats.paths >= nextw:
                    w = self.witness()
                    if w is not None: self.witnesses.append((w, dict(getattr(self, 'choices', {}))))
                    nextw = self.stats.paths * (3 + seed % 3)
            except PathAbort:
                self.stats.aborted += 1
            except Inconclusive as e:
                self.inconclusive.append(str(e))
                self.undecided(str(e))
                if len(self.inconclusive) > 20: return False
            npaths += 1
            for i in range(len(self.decs) - 1, len(prefix) - 1, -1):
                d, alts = self.decs[i]
                for a in alts:
                    work.append([x[0] for x in self.decs[:i]] + [a])
            if sum(1 for v in self.violations if v.key not in known) >= max_violations: return False
        return True

    def _start(self, prefix):
        self.prefix = prefix; self.decs = []
        self.pc = []          # list of (z3 formula, frozenset atom ids)
        self.signs = {}
        self.known = {}
        self.freshcount = {}
        self.depused = set()
        self.notes = []

    # ---- constraints
    def _add(self, z, canon=None, truth=True):
        self.pc.append(z)
        if canon is not None:
            k, ss = canon
            cur = self.signs.get(k, frozenset({-1, 0, 1}))
            self.signs[k] = cur & (ss if truth else (frozenset({-1, 0, 1}) - ss))

    def defs(self, forms):
        """defining axioms of function atoms occurring in forms (transitively)"""
        seen = set(); todo = []
        for f in forms: todo.extend(zvars(f))
        out = []
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n)
            a = C.byname.get(n)
            if a is None: continue
            for z in a.zdef:
                out.append(z); todo.extend(zvars(z))
        # exp/pow monotonicity between pairs that occur
        exps = [C.byname[n] for n in seen if n in C.byname and C.byname[n].kind in ('exp',)]
        if 1 < len(exps) <= 6:
            for i in range(len(exps)):
                for j in range(i):
                    A, B = exps[i], exps[j]
                    out.append((A.z < B.z) == (toreal(A.arg.z3()) < toreal(B.arg.z3())))
        return out, seen

    def slice(self, goal):
        """path constraints sharing variables (transitively) with goal"""
        gv = set()
        for g in goal: gv |= set(zvars(g))
        _, gv2 = self.defs(goal); gv |= gv2
        rest = [(f, fullvars(self, f)) for f in self.pc]
        out = []
        ch = True
        while ch:
            ch = False; nr = []
            for f, v in rest:
                if v & gv: out.append(f); gv |= v; ch = True
                else: nr.append((f, v))
            rest = nr
        return out

    def solve(self, goal, timeout, full=False, want_model=False):
        forms = (list(self.pc) if full else self.slice(goal)) + list(goal)
        d, _ = self.defs(forms)
        t = time.time()
        r, m = run_solver(forms + d, timeout)
        self.stats.solver_s += time.time() - t; self.stats.queries += 1
        if r == 'unknown': self.stats.unknown += 1
        return (r, m)

    # ---- branching
    def _decide(self, options):
        """options: list of values, all feasible; follow prefix or take the first"""
        i = len(self.decs)
        if i < len(self.prefix): v = self.prefix[i]; self.decs.append((v, []))
        elif self.stopping: raise StopPrefix()
        else:
            v = options()
            self.decs.append((v[0], v[1:]))
            if len(v) > 1: self.stats.forks += len(v) - 1
            v = v[0]
        return v

    def branch(self, sb):
        key = (sb.canon if sb.canon is not None else sb.z.get_id() if hasattr(sb.z, 'get_id') else None)
        if sb.canon is not None:
            k, ss = sb.canon
            cur = self.signs.get(k)
            if cur is not None:
                if cur <= ss: return True
                if not (cur & ss): return False
        z = sb.z
        if sb.canon is None:
            z = z3.simplify(z)
            if z3.is_true(z): return True
            if z3.is_false(z): return False
            hit = self.known.get(z.get_id())
            if hit is not None: return hit[1]
        nz = z3.Not(z)

        def opts():
            r1, _ = self.solve([z], self.btimeout)
            if r1 == 'unsat': return [False]
            r2, _ = self.solve([nz], self.btimeout)
            if r2 == 'unsat': return [True]
            return [True, False]
        v = self._decide(opts)
        self._add(z if v else nz, sb.canon, v)
        if sb.canon is None: self.known[z.get_id()] = (z, v)
        return v

    def choose(self, n, what='choice'):
        """nondeterministic choice 0..n-1 (all explored)"""
        if n <= 0: raise PathAbort()
        return self._decide(lambda: list(range(n)))

    def concretize(self, x):
        zx = x.z3()
        def opts():
            vals = []
            while True:
                r, m = self.solve([z3.And(*[zx != v for v in vals])] if vals else [zx == zx], self.btimeout, full=True, want_model=True)
                if r == 'unsat': break
                if r != 'sat': raise Inconclusive('cannot enumerate integer')
                v = m.eval(zx, model_completion=True)
                v = v.as_long() if z3.is_int_value(v) else int(v.as_fraction())
                vals.append(v)
                if len(vals) > 64: raise Inconclusive('integer with more than 64 feasible values used as a concrete index')
            if not vals: raise PathAbort()
            return sorted(vals)
        v = self._decide(opts)
        self._add(zx == v)
        pp, k = p_prim((x - v).n) if (x - v).n else (None, None)
        if pp is not None: self.signs[p_key(pp)] = frozenset({0})
        return v

    def assume(self, cond):
        if isinstance(cond, SymBool):
            r, _ = self.solve([cond.z], self.btimeout)
            if r == 'unsat': raise PathAbort()
            self._add(cond.z, cond.canon, True)
        elif not cond: raise PathAbort()

    def check_eq(self, a, b, what, extra=None):
        """proof obligation a == b (nan equals nan); always decided by a solver query"""
        a, b = num(a), num(b)
        if a is NotImplemented or b is NotImplemented:
            return self.check(False, what + ': not a number', extra)
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa or fb:
            ok = fa and fb and ((a != a and b != b) or a == b)
            return self.check(ok, what + ('' if ok else ': %s instead of %s' % (a, b)), extra)
        d = a - b
        if not d.n:
            # same canonical form: the solver confirms it on the two terms
            self.stats.obligations += 1; self.stats.obl_queries += 1
            # (cross-multiplied: denominators are nonzero on this path)
            def nd(v): return toreal(p_z3(v.n)), (z3.RealVal(1) if v.d is None else toreal(p_z3(v.d)))
            (an, ad), (bn, bd) = nd(a), nd(b)
            t = time.time(); s = z3.Solver(); s.set('timeout', self.timeout); s.add(z3.simplify(an * bd - bn * ad, som=True) != 0); r = s.check()
            self.stats.solver_s += time.time() - t; self.stats.queries += 1
            if r == z3.unsat: self.stats.discharged += 1; return True
            self.inconclusive.append('unknown: ' + what); return None
        return self.check(cmp0(d, 'eq'), what, extra)

    def check(self, cond, what, extra=None):
        """proof obligation: cond holds on every state of this path"""
        self.stats.obligations += 1
        if not isinstance(cond, SymBool):
            # decided by the path condition alone: is this path feasible with not(cond)?
            g = [z3.BoolVal(not cond)]
        else:
            g = [z3.Not(cond.z)]
        self.stats.obl_queries += 1
        if z3.is_false(g[0]):
            self.stats.queries += 1; self.stats.discharged += 1; return True
        r, m = self.solve(g, self.timeout)
        if r == 'unsat':
            self.stats.discharged += 1; return True
        if r == 'unknown':
            self.inconclusive.append('unknown: ' + what); return None
        # full model with the whole path condition
        r2, m2 = self.solve(g, self.timeout, full=True)
        if r2 == 'unsat':
            self.stats.discharged += 1; return True
        if r2 != 'sat':
            self.inconclusive.append('unknown (full path): ' + what); return None
        ms = self.robust_models(g)
        self.violations.append(Violation(what, (ms or [extract(m2)]) + ([extract(m2)] if ms else []), dict(getattr(self, 'choices', {})), extra))
        return False

    def robust_models(self, goal, n=1):
        """models that stay away from the boundaries of the path condition, with moderate values"""
        names = getattr(C, '_decl', None) or {}
        out = []
        for eps in (Fraction(1, 4), Fraction(1, 20), Fraction(1, 200), Fraction(1, 5000)):
            forms = [margin(f, eps) for f in list(self.pc) + list(goal)]
            pref = []
            for nm, (lo, hi, pos) in names.items():
                a = C.byname.get(nm)
                if a is None or a.isint: continue
                if hi is None: pref.append(a.z <= (lo if lo is not None else 0) + 10)
                if lo is None: pref.append(a.z >= -10)
                if pos and lo is None: pref.append(a.z >= z3.RealVal('1/10'))
            d, _ = self.defs(forms)
            t = time.time(); r, m = run_solver(forms + d + pref, 4000)
            self.stats.solver_s += time.time() - t; self.stats.queries += 1
            if r == 'sat':
                out.append(extract(m))
                if len(out) >= n: break
        return out

    def witness(self):
        """concrete inputs that follow the current path (also the vacuity witness)"""
        ms = self.robust_models([])
        if ms: return ms[0]
        r, m = self.solve([], self.btimeout, full=True)
        return extract(m) if r == 'sat' else None

    def reachable(self):
        """vacuity witness: the current path condition is satisfiable"""
        r, m = self.solve([], self.timeout, full=True)
        return r, m


_zv = {}


def clear_caches():
    _zv.clear(); _fv.clear()


def zvars(f):
    k = f.get_id()
    h = _zv.get(k)
    if h is not None and h[0].eq(f): return h[1]
    out = set(); seen = set(); st = [f]
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(e.decl().name())
        st.extend(e.children())
    _zv[k] = (f, out)
    return out


_fv = {}


def fullvars(eng, f):
    k = f.get_id()
    h = _fv.get(k)
    if h is not None and h[0].eq(f): return h[1]
    v = set(zvars(f)); _, v2 = eng.defs([f]); v |= v2
    v = {n for n in v if n != 'pi'}
    _fv[k] = (f, v)
    return v


def run_solver(forms, timeout):
    """returns ('sat', model) / ('unsat', None) / ('unknown', None)"""
    forms = [f for f in forms]
    s = z3.Solver(); s.set('timeout', min(timeout, 3000))
    for f in forms: s.add(f)
    r = s.check()
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat: return 'sat', s.model()
    try:
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
        t.set('timeout', timeout)
        for f in forms: t.add(f)
        r = t.check()
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', t.model()
    except z3.Z3Exception:
        pass
    if timeout > 5000:
        s = z3.Solver(); s.set('timeout', timeout); s.set('random_seed', 7)
        for f in forms: s.add(f)
        r = s.check()
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', s.model()
    return 'unknown', None


def margin(f, eps):
    """strengthen the strict/non-strict comparisons of a path literal by eps"""
    e = z3.RealVal(str(eps))
    def lt(a, b): return toreal(a) <= toreal(b) - e
    def isnum(a): return z3.is_arith(a)
    def allint(f): return f.arg(0).is_int() and f.arg(1).is_int()
    if z3.is_and(f): return z3.And(*[margin(c, eps) for c in f.children()])
    if z3.is_or(f): return z3.Or(*[margin(c, eps) for c in f.children()])
    if z3.is_lt(f) or z3.is_le(f):
        return f if allint(f) else lt(f.arg(0), f.arg(1))
    if z3.is_gt(f) or z3.is_ge(f):
        return f if allint(f) else lt(f.arg(1), f.arg(0))
    if z3.is_not(f):
        g = f.arg(0)
        if (z3.is_lt(g) or z3.is_le(g) or z3.is_gt(g) or z3.is_ge(g)):
            if allint(g): return f
            return lt(g.arg(1), g.arg(0)) if (z3.is_lt(g) or z3.is_le(g)) else lt(g.arg(0), g.arg(1))
        if z3.is_eq(g) and isnum(g.arg(0)):
            if allint(g): return f
            return z3.Or(lt(g.arg(0), g.arg(1)), lt(g.arg(1), g.arg(0)))
        if z3.is_and(g): return z3.Or(*[margin(z3.Not(c), eps) for c in g.children()])
        if z3.is_or(g): return z3.And(*[margin(z3.Not(c), eps) for c in g.children()])
    if z3.is_distinct(f) and isnum(f.arg(0)) and not allint(f):
        return z3.Or(lt(f.arg(0), f.arg(1)), lt(f.arg(1), f.arg(0)))
    return f


def extract(m):
    """model -> dict name -> Fraction/float for free variables"""
    out = {}
    for d in m.decls():
        v = m[d]
        try:
            if z3.is_int_value(v): out[d.name()] = v.as_long()
            elif z3.is_rational_value(v): out[d.name()] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                a = v.approx(20); out[d.name()] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            elif z3.is_true(v): out[d.name()] = True
            elif z3.is_false(v): out[d.name()] = False
        except Exception:
            pass
    return out


def veq(a, b):
    """exact equality of two values as a condition (nan == nan)"""
    a = num(a); b = num(b)
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa or fb:
        if fa and fb: return (a != a and b != b) or a == b
        return False
    return cmp0(a - b, 'eq')


def assume(c): C.engine.assume(c)
def check(c, what, extra=None): return C.engine.check(c, what, extra)
