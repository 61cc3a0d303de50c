"""C18 density profile models, fits and concentrations (minimiser replaced by an arbitrary one)"""
from cysym.runner import H
from shapes import *

PARS = {'einasto': ['rho_s', 'alpha', 'r_s'], 'alpha_beta_gamma': ['rho_s', 'alpha', 'beta', 'gamma', 'r_s'], 'nfw': ['rho_s', 'r_s'], 'hernquist': ['rho_s', 'r_s']}
NAMES = list(PARS)
FUN = {'einasto': 'getEinastoProf', 'alpha_beta_gamma': 'getAlphaBetaGammaProf', 'nfw': 'getNFWProf', 'hernquist': 'getHernquistProf'}


def model(h, name, r, p):
    x = r / p['r_s']
    if name == 'einasto': return p['rho_s'] * h.exp((1 - h.pow(x, p['alpha'])) * 2 / p['alpha'])
    if name == 'nfw': return p['rho_s'] / (x * (1 + x) * (1 + x))
    if name == 'hernquist': return p['rho_s'] / (x * (1 + x) * (1 + x) * (1 + x))
    return p['rho_s'] / (h.pow(x, p['gamma']) * h.pow(1 + h.pow(x, p['alpha']), (p['beta'] - p['gamma']) / p['alpha']))


class InlinePool:
    """same as the pool, in this process (what the pool does is checked by C03, C10)"""
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def map(self, f, xs): return [f(x) for x in xs]
    def imap(self, f, xs): return [f(x) for x in xs]
    def uimap(self, f, xs): return [f(x) for x in xs]
    def close(self): pass
    def join(self): pass
    def clear(self): pass


def install(h, minimise):
    dt = minimiser(h, lambda cost, x0, bounds, args: minimise(cost, x0, bounds))
    if hasattr(dt, 'Pool'): dt.Pool = InlinePool
    return dt


# ------------------------------------------------------------------ models
def analytic(name, exponents):
    """value of the analytic profile at any radius; scalar and array radii"""
    def f(h):
        dt = h.load('cosmic_profiles.dens_profs.dens_profs_tools')
        p = {'rho_s': h.real('rho_s', h.q(1, 100), 100), 'r_s': h.real('r_s', h.q(1, 10), 10)}
        for k in PARS[name]:
            if k not in p:
                e = exponents[k]
                p[k] = h.real(k, h.q(1, 10), 4) if e is None else h.const(e)
        r = [h.real('r%d' % i, h.q(1, 100), 20) for i in range(2)]
        fn = getattr(dt, FUN[name])
        keep = dict(p)
        for i in range(2): h.eq(fn(r[i], p), model(h, name, r[i], p), 'scalar radius %d' % i, tol=1e-9)
        a = fn(h.arr(r), p)
        h.true(a.shape == (2,), 'one value per radius')
        for i in range(2): h.eq(a[i], model(h, name, r[i], p), 'array of radii %d' % i, tol=1e-9)
        h.true(p == keep if not h.sym else all(p[k] is keep[k] for k in keep), 'parameters untouched')
    return f


# ------------------------------------------------------------------ fit of an exact profile
def truth(h, name, tag='', sym=('rho_s', 'r_s')):
    p = {}
    for k in PARS[name]:
        dflt = {'rho_s': '7', 'alpha': '1' if name == 'einasto' else '2', 'beta': '3', 'gamma': '1', 'r_s': '3/2'}[k]
        p[k] = h.real(k + tag, *((h.q(1, 4), 4) if k != 'rho_s' else (h.q(1, 2), 50))) if k in sym else h.const(dflt)
    return p


def fixedset(h, name):
    m = h.choice('fixed', 2 ** len(PARS[name]))
    return [k for i, k in enumerate(PARS[name]) if m >> i & 1]


def points(h, x, fixed, p, name, rho):
    """the parameter vector in the minimiser's coordinates"""
    full = [rho if k == 'rho_s' else p[k] for k in PARS[name]]
    free = [v for k, v in zip(PARS[name], full) if k not in fixed]
    return full if len(x) == len(full) else free


def exact(name, sym=('rho_s', 'r_s'), direct=True):
    """a profile that follows the model: cost 0 exactly at the true parameters, which come back"""
    def f(h):
        internal_units(h)
        p = truth(h, name, sym=sym)
        fixed = fixedset(h, name) if direct else []
        R = h.const(2)
        rr = [h.q(1, 4), h.q(1, 2), h.const(1)]
        D = [model(h, name, x * R, p) for x in rr]
        avg = sum_(h, D) / 3
        calls = []
        def minimise(cost, x0, bounds):
            n = len(x0)
            h.true(n in (len(PARS[name]), len(PARS[name]) - len(fixed)), 'starting point has one value per parameter')
            best = None
            for rho in (p['rho_s'] / avg, p['rho_s']):
                x = points(h, x0, fixed, p, name, rho)
                c = cost(x)
                if (c == 0 if h.sym else abs(c) < 1e-18): best = (x, rho); break
            h.true(best is not None, 'cost is 0 at the true parameters')
            if best is None: return points(h, x0, fixed, p, name, p['rho_s'])
            x, rho = best
            k0 = 0
            if 'rho_s' not in fixed or n == len(PARS[name]):
                y = list(x); y[k0] = y[k0] * 2
                h.true(cost(y) > 0, 'cost of twice the density is positive')
                y[k0] = x[k0] / 2
                h.true(cost(y) > 0, 'cost of half the density is positive')
            if bounds is not None:
                for i, b in enumerate(bounds):
                    if i == 0 and ('rho_s' not in fixed or n == len(PARS[name])): continue
                    lo, hi = b
                    if lo is not None: h.true(bool(lo <= x[i]), 'true parameter %d not below its bound' % i)
                    if hi is not None: h.true(bool(x[i] <= hi), 'true parameter %d not above its bound' % i)
            calls.append(1)
            return x
        dt = install(h, minimise)
        meth = {'profile': name}
        for k in fixed: meth[k] = p[k]
        if h.choice('method given', 2): meth['min_method'] = 'Nelder-Mead'
        if direct:
            b, nb = dt.fitDensProf(h.arr(rr), meth, (h.arr(D), R, 3))
            h.true(nb == 3, 'object number comes back')
            h.true(len(b) == len(PARS[name]), 'one value per parameter')
            for i, k in enumerate(PARS[name]): h.eq(b[i], p[k], 'best fit ' + k, tol=1e-9)
        else:
            o = dsp(h, h.arr([[0, 0, 0], [1, 0, 0], [0, 1, 0]]), h.arr([1, 1, 1]), [[0, 1, 2]], [R])
            b = o.fitDensProfs(h.arr([[d * 10 ** 10 for d in D]]), h.arr(rr), meth, [0])
            for k in PARS[name]: h.eq(b[k][0], p[k] * 10 ** 10 if k == 'rho_s' else p[k], 'best fit ' + k, tol=1e-9)
    return f


def sensitive(name):
    """a profile off the model at one radius costs something at the model's parameters; NaN radii do not matter"""
    def f(h):
        p = truth(h, name, sym=())
        w = h.real('w', 2, 3)
        R = h.const(2)
        rr = [h.q(1, 4), h.q(1, 2), h.const(1)]
        D = [model(h, name, x * R, p) for x in rr]
        bad = h.choice('radius', 3)
        nan = h.choice('as NaN', 2)
        seen = {}
        if nan: vals = [h.nan if i == bad else D[i] for i in range(3)]
        else: vals = [D[i] * w if i == bad else D[i] for i in range(3)]
        ok = [v for i, v in enumerate(vals) if not (nan and i == bad)]
        avg = sum_(h, ok) / len(ok)
        def minimise(cost, x0, bounds):
            cs = [cost([rho if k == 'rho_s' else p[k] for k in PARS[name]]) for rho in (p['rho_s'] / avg, p['rho_s'])]
            if nan: h.true(any(bool(c == 0 if h.sym else abs(c) < 1e-18) for c in cs), 'the remaining radii follow the model: cost 0')
            else:
                for c in cs: h.true(c > 0, 'radius %d off the model: positive cost' % bad)
            return [p['rho_s'] / avg if k == 'rho_s' else p[k] for k in PARS[name]]
        dt = install(h, minimise)
        b, nb = dt.fitDensProf(h.arr(rr), {'profile': name}, (h.arr(vals), R, 0))
        for i, k in enumerate(PARS[name]): h.eq(b[i], p[k], 'best fit ' + k, tol=1e-9)
    return f


# ------------------------------------------------------------------ any minimiser
def rows(name, units=False, conc=False):
    """three objects, any selection; the minimiser returns an arbitrary point for each: it is the row of that object; fixed parameters stay"""
    def f(h):
        cfg = h.load('cosmic_profiles.common.config')
        lo = h.real('lo', h.q(1, 8), 8) if units else h.const(1); mo = h.real('mo', h.q(1, 8), 8) if units else h.const(1)
        internal_units(h)
        L, M, V = cfg.getLMVInternal()
        if units: cfg.updateOutUnitSystem(lo * L, mo * M * h.const('1/10000000000'), 1e5, cfg.LittleH if hasattr(cfg, 'LittleH') else 0.6774)
        fixed = fixedset(h, name)
        fx = {k: h.real('fix_' + k, h.q(1, 100), 3) for k in fixed}
        sel = [[0, 1, 2], [2, 0], [1]][h.choice('selection', 3)]
        rr = [h.q(1, 4), h.q(1, 2), h.const(1)]
        Rs = [h.const(1), h.const(2), h.const('3/2')]
        # object 1 has one radius without estimate
        D = {o: [h.const(9 + o), h.const(4 + o), h.const(1)] for o in range(3)}
        D[1][0] = h.nan
        order = []
        free = [k for k in PARS[name] if k not in fixed]
        X = {o: {k: h.real('x%d_%s' % (o, k), h.q(1, 10), 5) for k in free} for o in sel}
        avg = {}
        for o in sel:
            ok = [v for v in D[o] if not h.isnan(v)]
            avg[o] = sum_(h, ok) / len(ok)
        def minimise(cost, x0, bounds):
            o = sel[len(order)]; order.append(o)
            full = [X[o][k] if k in free else None for k in PARS[name]]
            if len(x0) == len(free): return [X[o][k] for k in free]
            res = []
            for i, k in enumerate(PARS[name]):
                res.append(X[o][k] if k in free else bounds[i][0])
            return res
        install(h, minimise)
        o_ = dsp(h, h.arr([[i, i % 2, 0] for i in range(9)]), h.arr([1] * 9), [[0, 1, 2], [3, 4, 5], [6, 7, 8]], Rs)
        meth = {'profile': name}; meth.update(fx)
        keep = dict(meth)
        dout = h.arr([[D[o][j] / mo * lo ** 3 * 10 ** 10 if not h.isnan(D[o][j]) else h.nan for j in range(3)] for o in sel])
        if conc:
            c = o_.estConcentrations(dout, h.arr(rr), meth, sel)
            h.true(c.shape == (len(sel),), 'one concentration per object')
            for row, o in enumerate(sel):
                rs = fx['r_s'] * lo if 'r_s' in fx else X[o]['r_s']
                h.eq(c[row] * rs, Rs[o], 'concentration of object %d' % o, tol=1e-9)
        else:
            b = o_.fitDensProfs(dout, h.arr(rr), meth, sel)
            h.true(b.shape == (len(sel),), 'one row per object')
            for row, o in enumerate(sel):
                for k in PARS[name]:
                    if k in fx: h.eq(b[k][row], fx[k], 'object %d: %s stays fixed' % (o, k), tol=1e-9)
                    elif k == 'rho_s': h.eq(b[k][row] * mo, X[o][k] * avg[o] * 10 ** 10 * lo ** 3, 'object %d: rho_s' % o, tol=1e-9)
                    elif k == 'r_s': h.eq(b[k][row] * lo, X[o][k], 'object %d: r_s' % o, tol=1e-9)
                    else: h.eq(b[k][row], X[o][k], 'object %d: %s' % (o, k), tol=1e-9)
        h.true(meth.keys() == keep.keys(), 'method untouched')
    return f


def nothing(h):
    """objects without any density estimate have no fit and no concentration, whatever the others"""
    internal_units(h)
    name = NAMES[h.choice('profile', 4)]
    conc = h.choice('concentration', 2)
    x = h.real('x', h.q(1, 2), 5)
    def minimise(cost, x0, bounds): return [x] * len(x0)
    install(h, minimise)
    e = h.choice('position of the object', 3)
    R = [h.const(1), h.const(2), h.const(4)]
    o = dsp(h, h.arr([[i, i % 2, 0] for i in range(9)]), h.arr([1] * 9), [[0, 1, 2], [3, 4, 5], [6, 7, 8]], R)
    rr = h.arr([h.q(1, 2), 1])
    d = h.arr([[h.nan, h.nan] if i == e else [3, 1 + i] for i in range(3)])
    if conc:
        c = o.estConcentrations(d, rr, {'profile': name}, [0, 1, 2])
        for i in range(3):
            if i == e: h.true(h.isnan(c[i]), 'no concentration')
            else: h.eq(c[i] * x, R[i], 'object %d' % i)
    else:
        b = o.fitDensProfs(d, rr, {'profile': name}, [0, 1, 2])
        for i in range(3):
            for k in PARS[name]:
                if i == e: h.true(h.isnan(b[k][i]), 'no ' + k)
            if i != e: h.eq(b['r_s'][i], x, 'object %d' % i)


def start(name):
    """the minimiser starts within its bounds, from finite values"""
    def f(h):
        fixed = fixedset(h, name)
        fx = {k: h.real('fix_' + k, h.q(1, 100), 9) for k in fixed}
        R = h.real('R', h.q(1, 100), 9)
        def minimise(cost, x0, bounds):
            if bounds is not None:
                h.true(len(bounds) == len(x0), 'one pair of bounds per parameter')
                for i, (lo, hi) in enumerate(bounds):
                    if lo is not None: h.true(bool(lo <= x0[i]), 'start %d not below its lower bound' % i)
                    if hi is not None: h.true(bool(x0[i] <= hi), 'start %d not above its upper bound' % i)
            return list(x0)
        dt = install(h, minimise)
        meth = {'profile': name}; meth.update(fx)
        dt.fitDensProf(h.arr([h.q(1, 2), 1]), meth, (h.arr([h.const(3), h.const(1)]), R, 0))
    return f


def refused(h):
    """wrong methods and inconsistent arguments"""
    internal_units(h)
    install(h, lambda c, x0, b: list(x0))
    o = dsp(h, h.arr([[i, i % 2, 0] for i in range(6)]), h.arr([1] * 6), [[0, 1, 2], [3, 4, 5]], [h.const(1), h.const(2)])
    rr = h.arr([h.q(1, 2), 1]); d = h.arr([[3, 1]])
    for fn in (o.fitDensProfs, o.estConcentrations):
        for bad in ({'profile': 'isothermal'}, {'alpha': 1}, {'profile': 'nfw', 'alpha': 1}, {'profile': 'einasto', 'beta': 3}, {'profile': 'nfw', 'min_method': 'guess'}, 'nfw'):
            h.raises((AssertionError, TypeError), lambda: fn(d, rr, bad, [0]), '%s(%s)' % (fn.__name__, bad))
        h.raises(ValueError, lambda: fn(d, rr, {'profile': 'nfw'}, [0, 1]), 'one profile for two objects')
        h.raises(ValueError, lambda: fn(d, rr, {'profile': 'nfw'}, [2]), 'object 2 of 2')


HARNESSES = []
for n, es in (('nfw', [{}]), ('hernquist', [{}]), ('einasto', [{'alpha': None}, {'alpha': '1'}, {'alpha': '2'}, {'alpha': '1/2'}]),
              ('alpha_beta_gamma', [{'alpha': None, 'beta': None, 'gamma': None}, {'alpha': '1', 'beta': '3', 'gamma': '1'}, {'alpha': '2', 'beta': '5', 'gamma': '1'}, {'alpha': '1', 'beta': '4', 'gamma': '1'}, {'alpha': '1/2', 'beta': '3', 'gamma': '2'}])):
    for e in es:
        HARNESSES.append(H('profile %s%s' % (n, '' if not e else ' ' + ','.join('%s=%s' % (k, 'free' if v is None else v) for k, v in e.items())), analytic(n, e), '2 radii, all other parameters symbolic'))
for n in NAMES:
    HARNESSES.append(H('exact ' + n, exact(n), '3 radii; rho_s, r_s symbolic; every set of fixed parameters'))
    HARNESSES.append(H('exact object ' + n, exact(n, direct=False), 'same through the analysis object'))
    HARNESSES.append(H('sensitive ' + n, sensitive(n), '3 radii, one off the model by a symbolic factor or NaN'))
    HARNESSES.append(H('rows ' + n, rows(n), '3 objects, 3 selections, every set of fixed parameters; minimiser arbitrary'))
    HARNESSES.append(H('rows units ' + n, rows(n, units=True), 'same, output units symbolic'))
    HARNESSES.append(H('concentration ' + n, rows(n, units=True, conc=True), 'same for concentrations'))
    HARNESSES.append(H('start ' + n, start(n), 'every set of fixed parameters with symbolic values, R200 symbolic'))
HARNESSES += [H('no estimate', nothing, '2 objects, one with NaN densities only'), H('refused', refused, 'wrong methods, wrong selections')]
OUTSIDE = 'whether scipy finds the minimum (the minimiser is an arbitrary function); uniqueness of the minimum beyond the checked directions; rounding'
ASSUMPTIONS = ['scipy.optimize.minimize returns some point of the parameter space', 'the process pool maps its tasks in order (C03, C10 run the real one)']
