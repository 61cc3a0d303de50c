"""C11 unit consistency"""
from fractions import Fraction
from cysym.runner import H
from gadgetfiles import *
from shapes import Eig, octant, FRAMES, katz

LEN = ['kpc', 'Mpc', 'Gpc', 'kpc/h', 'Mpc/h', 'Gpc/h', 'pc', 'pc/h']
MASS = ['Msun', 'E+10Msun', 'Msun/h', 'E+10Msun/h']
FAC = {'kpc': 10 ** -3, 'Mpc': 1, 'Gpc': 10 ** 3, 'pc': 10 ** -6, 'Msun': 10 ** -10, 'E+10Msun': 1}
MPC = 3.085678e24; M10 = 1.989e43


def fac(h, name, little):
    """the unit in Mpc or 10^10 Msun"""
    b = name.split('/')[0]
    f = {'kpc': h.q(1, 1000), 'Mpc': h.const(1), 'Gpc': h.const(1000), 'pc': h.q(1, 1000000), 'Msun': h.q(1, 10 ** 10), 'E+10Msun': h.const(1)}[b]
    return f / little if name.endswith('/h') else f


def near(h, a, b, what, tol=1e-9):
    """equal up to double rounding (the named units are double constants)"""
    if h.sym:
        t = h.const(str(Fraction(1, 10 ** 9)))
        d = a - b
        m = b * t
        h.true(d <= m, what); h.true(d >= -m, what)
    else: h.eq(a, b, what, tol=tol)


def names(which):
    """named units are what their names say, for every little h"""
    def f(h):
        cfg = h.load('cosmic_profiles.common.config')
        hin = h.real('h_in', h.q(1, 5), 2); hout = h.real('h_out', h.q(1, 5), 2)
        up, l = (cfg.updateInUnitSystem, 'In') if which == 'in' else (cfg.updateOutUnitSystem, 'Out')
        other = cfg.updateOutUnitSystem if which == 'in' else cfg.updateInUnitSystem
        other('Gpc', 'Msun', 1e5, hout)
        keep = [getattr(cfg, x + ('Out' if which == 'in' else 'In') + y) if False else getattr(cfg, ('Out' if which == 'in' else 'In') + 'Unit' + y) for x in ('',) for y in ('Length_in_cm', 'Mass_in_g', 'Velocity_in_cm_per_s')]
        a = LEN[h.choice('length', len(LEN))]; b = MASS[h.choice('mass', len(MASS))]
        up(a, b, 'km/s', hin)
        near(h, getattr(cfg, l + 'UnitLength_in_cm'), fac(h, a, hin) * MPC, 'length unit ' + a)
        near(h, getattr(cfg, l + 'UnitMass_in_g'), fac(h, b, hin) * M10, 'mass unit ' + b)
        h.eq(getattr(cfg, l + 'UnitVelocity_in_cm_per_s'), 100000, 'velocity unit')
        L, M, V = cfg.getLMVInternal()
        near(h, L, MPC / hin, 'internal length'); near(h, M, M10 / hin, 'internal mass'); h.eq(V, 100000, 'internal velocity')
        for k, (x, y) in enumerate(zip(keep, [getattr(cfg, ('Out' if which == 'in' else 'In') + 'Unit' + y) for y in ('Length_in_cm', 'Mass_in_g', 'Velocity_in_cm_per_s')])): h.eq(x, y, 'the other system stays')
    return f


def refused(h):
    cfg = h.load('cosmic_profiles.common.config')
    for up in (cfg.updateInUnitSystem, cfg.updateOutUnitSystem):
        for bad in (('lightyear', 'Msun', 'km/s'), ('kpc', 'kg', 'km/s'), ('kpc', 'Msun', 'mph'), ('Msun', 'kpc', 'km/s')):
            h.raises(AssertionError, lambda: up(*bad, 0.7), 'unknown unit %s' % (bad,))


QTY = [('Length', 'Length_in_cm', 0), ('Mass', 'Mass_in_g', 1), ('Vel', 'Velocity_in_cm_per_s', 2)]


def helpers(form):
    """conversion helpers, any unit in cm, g, cm/s"""
    def f(h):
        cfg = h.load('cosmic_profiles.common.config')
        little = h.real('h', h.q(1, 5), 2)
        u = [h.real('u%d' % i, h.q(1, 1), h.const(10 ** (9, 15, 9)[i])) for i in range(3)]; o = [h.real('o%d' % i, h.q(1, 1), h.const(10 ** (9, 15, 9)[i])) for i in range(3)]
        cfg.updateInUnitSystem(u[0], u[1], u[2], little); cfg.updateOutUnitSystem(o[0], o[1], o[2], little)
        intl = cfg.getLMVInternal()
        v = [h.real('v%d' % i, -100, 100) for i in range(2)]
        for nm, key, k in QTY:
            U, O, I = u[k], o[k], intl[k]
            def call(fn, vals):
                if form == 'array': return list(fn(h.arr(vals)))
                if form == 'matrix':
                    r = fn(h.arr([vals, vals])); return list(r[1])
                return [fn(x) for x in vals]
            to = getattr(cfg, nm + 'InternalToOut'); fr = getattr(cfg, nm + 'InToInternal')
            a = call(to, v)
            for i in range(2): h.eq(a[i] * O, v[i] * I, nm + ' to output units', tol=1e-12)
            b = call(fr, v)
            for i in range(2): h.eq(b[i] * I, v[i] * U, nm + ' from input units', tol=1e-12)
        # in and back, when both systems are the same
        cfg.updateOutUnitSystem(u[0], u[1], u[2], little)
        for nm, key, k in QTY:
            to = getattr(cfg, nm + 'InternalToOut'); fr = getattr(cfg, nm + 'InToInternal')
            x = h.arr(v)
            r = to(fr(x))
            for i in range(2): h.eq(r[i], v[i], nm + ' in and back', tol=1e-12)
            h.eq(x, h.arr(v), nm + ': the argument is untouched')
    return f


def label(h):
    """the label names the output units"""
    cfg = h.load('cosmic_profiles.common.config')
    little = h.const('1/2') if h.sym else 0.5
    a = LEN[h.choice('length', len(LEN))]; b = MASS[h.choice('mass', len(MASS))]
    cfg.updateInUnitSystem('Gpc', 'Msun', 1e5, little); cfg.updateOutUnitSystem(a, b, 'km/s', little)
    h.true(tuple(cfg.LMVLabel()) == (a, b, 'km/s'), 'label of %s, %s' % (a, b))


# ------------------------------------------------------------------ relational: the same system in other units
def rel(h, run, rtol=1e-9):
    """run(cfg, si, sm) with si, sm the size of the internal units in input units -> dict name -> (values, dimension)"""
    cfg = h.load('cosmic_profiles.common.config')
    cfg.updateInUnitSystem('Mpc/h', 'E+10Msun/h', 1e5, 0.5); cfg.updateOutUnitSystem('Mpc/h', 'E+10Msun/h', 1e5, 0.5)
    L, M, V = cfg.getLMVInternal()
    li, mi = h.real('li', h.q(1, 8), 8), h.real('mi', h.q(1, 8), 8); lo, mo = h.real('lo', h.q(1, 8), 8), h.real('mo', h.q(1, 8), 8)
    A = run(li, mi, (1, 1))
    cfg.updateInUnitSystem(li * L, mi * M, 1e5, 0.5); cfg.updateOutUnitSystem(lo * L, mo * M, 1e5, 0.5)
    B = run(h.const(1), h.const(1), (lo, mo))
    h.true(set(A) == set(B), 'same results')
    for k in A:
        (x, (pl, pm)), (y, _) = A[k], B[k]
        x, y = flat(x), flat(y)
        h.true(len(x) == len(y), k + ': number of values')
        s = h.const(1)
        for n, u in ((pl, lo), (pm, mo)):
            for _ in range(abs(n)): s = s / u if n > 0 else s * u
        u = h.const(1)
        if not h.sym:
            big = [abs(v * s) for v in list(x) if v == v]     # rounding is relative to the largest value
            u = max(big) if big and max(big) > 0 else 1
        for i, (p, q) in enumerate(zip(x, y)):
            if h.isnan(p): h.true(h.isnan(q), '%s %d: NaN in all units' % (k, i)); continue
            h.eq(q / u, p * s / u, '%s %d' % (k, i), tol=1e-7)
            
LEN_, MASS_, DENS_, NONE_ = (1, 0), (0, 1), (-3, 1), (0, 0)


def flat(x):
    if getattr(x, 'ndim', 0) or isinstance(x, (list, tuple)):
        r = []
        for v in x: r += flat(v)
        return r
    return [x[()] if hasattr(x, 'ndim') and hasattr(x, 'shape') and not hasattr(x, 'n') else x]


def system(h, l, m, box=None, free=('x', 'R', 'w')):
    """two objects; l, m: the factors by which the numbers are multiplied"""
    x = h.real('x', h.q(1, 4), 4) if 'x' in free else h.const('5/2'); R = h.real('R', h.q(1, 2), 4) if 'R' in free else h.const(2); w = h.real('w', h.q(1, 2), 4) if 'w' in free else h.const(3)
    P = [[x, 0, 0], [-x, 0, 0], [0, 1, 0], [0, -1, 0], [9, 9, 9], [8, 9, 9], [9, 7, 9]]
    ms = [w, w, 1, 1, 2, 1, 1]
    X = [[(h.const(c) if isinstance(c, int) else c) * l for c in p] for p in P]
    W = [(h.const(c) if isinstance(c, int) else c) * m for c in ms]
    return X, W, [[4, 5, 6], [0, 1, 2, 3]], [h.const(1) * l, R * l]


def cat(box, center):
    def f(h):
        def run(l, m, out):
            X, W, ids, R = system(h, l, m)
            L = h.const(0)
            if box:
                L = h.const(32) * l
                X = [[h.ite(c < 0, c + L, c) for c in p] for p in X]
            o = dsp(h, h.arr(X), h.arr(W), ids, R, L_BOX=L, CENTER=center)
            c = o.getMassesCenters([0, 1]); x, ms = o.getXYZMasses()
            return {'centres': (c['centre'], LEN_), 'masses': (c['mass'], MASS_), 'radii': (o.getR200(), LEN_), 'positions': (x, LEN_), 'particle masses': (ms, MASS_)}
        rel(h, run)
    return f


def dens(kw):
    def f(h):
        def run(l, m, out):
            X, W, ids, R = system(h, l, m)
            o = dsp(h, h.arr(X), h.arr(W), ids, R)
            d = o.estDensProfs(h.arr([h.q(1, 2), 1, 2]), [0, 1], **kw)
            return {'densities': (d, DENS_)}
        rel(h, run)
    return f


def shp(kind):
    def f(h):
        Eig(h, ('id',))
        def run(l, m, out):
            a = h.real('a', h.q(3, 2), 3)
            F = [[h.const(v) for v in row] for row in FRAMES['id']]
            P = octant(h, F, a, h.const(1), h.q(1, 2))
            o = dsp(h, h.arr([[c * l for c in p] for p in P]), h.arr([h.const(2) * m] * 8), [list(range(8))], [h.const(4) * l])
            red = {'reduced': kind == 'reduced'}
            if kind == 'dens':
                d = o.estDensProfs(h.arr([h.q(1, 2), 1, 2]), [0], direct_binning=True, spherical=False, katz_config=katz(h, [h.const(1), h.const(2), h.const(3)], h.q(1, 20), 4, 3))
                return {'densities': (d, DENS_)}
            k = katz(h, [h.const('5/4')], h.q(1, 20), 4, 3, reduced=kind == 'reduced', shell=kind == 'shell')
            s = o.getShapeCatGlobal([0], k)[0] if kind == 'global' else o.getShapeCatLocal([0], k)[0][0]
            return {'d': ([s['d']], LEN_), 'q': ([s['q']], NONE_), 's': ([s['s']], NONE_), 'axes': ([s[k][i] * s[k][j] for k in ('minor', 'inter', 'major') for i in range(3) for j in range(3)], NONE_)}
        rel(h, run)
    return f


PROF = ['einasto', 'alpha_beta_gamma', 'nfw', 'hernquist']


def fit(kind):
    """densities in output units in, fit parameters in output units out (minimiser replaced by a fixed scale-free rule)"""
    def f(h):
        minimiser(h, datafit(h))
        p = PROF[h.choice('profile', 4)]
        D = [[h.real('D%d' % j, 1, 9) if i else h.const(j + 2) for j in range(3)] for i in range(2)]
        def run(l, m, out):
            lo, mo = out
            X, W, ids, R = system(h, l, m, free=('R',))
            o = dsp(h, h.arr(X), h.arr(W), ids, R)
            d = h.arr([[v / mo * lo ** 3 for v in row] for row in D])    # the same densities in output units
            r = h.arr([h.q(1, 2), 1, 2])
            if kind == 'fit':
                b = o.fitDensProfs(d, r, {'profile': p}, [0, 1])
                n = b.dtype.names if hasattr(b, 'dtype') and b.dtype.names else None
                res = {}
                for k in n: res[k] = ([b[k][i] for i in range(2)], DENS_ if k == 'rho_s' else LEN_ if k == 'r_s' else NONE_)
                res.pop('is_conv', None)
                return res
            return {'concentrations': (o.estConcentrations(d, r, {'profile': p}, [0, 1]), NONE_)}
        rel(h, run)
    return f


def drawn(h, figs, names):
    """(abscissae, ordinates) of everything drawn"""
    x, y = [], []
    for f in figs:
        for c in f:
            if c[0] == 'hist' and 'hist' in names: x += flat([v for v in flat(c[2].get('x', c[1][0] if c[1] else None)) if not h.isnan(v)]); y += flat(c[2].get('bins', c[1][1] if len(c[1]) > 1 else None))
            elif c[0] in names: x += flat(c[1][0]); y += flat(list(c[1][1:2 if c[0] != 'fill_between' else 3]))
    return x, y


def densfig(h):
    """density figures: curves in output units"""
    m = minimiser(h, datafit(h))
    p = PROF[h.choice('profile', 4)]
    nb = 1 + h.choice('NB', 2)
    D = [[h.real('D', 1, 9) if i == j == 1 else h.const(1 + i + 2 * j) for j in range(3)] for i in range(2)]
    def run(l, mm, out):
        lo, mo = out
        m.plt = Rec(); m.eTo10 = lambda s: s
        X, W, ids, R = system(h, l, mm, free=('R',))
        o = dsp(h, h.arr(X), h.arr(W), ids, R)
        d = h.arr([[v / mo * lo ** 3 for v in row] for row in D]); r = h.arr([h.q(1, 2), 1, 2])
        o.plotDensProfs(d, r, d, r, {'profile': p}, nb, h.i32([0, 1]))
        x, y = drawn(h, m.plt.drawn(('loglog',)), ('loglog', 'fill_between'))
        h.true(len(y) == 12 * (1 + nb), 'a fit, a curve and a band per figure')
        return {'abscissae': (x, NONE_), 'curves': (y, DENS_)}
    rel(h, run)


def shapefig(kind):
    """shape figures are free of dimensions"""
    def f(h):
        Eig(h, ('id',))
        m = h.load('cosmic_profiles.shape_profs.shape_profs_tools')
        frac = h.real('frac', h.q(1, 4), 2) if kind == 'local' else h.const('3/4')
        if not h.sym: h.assume(abs(frac - 1.375) > 1e-3 and abs(frac - 0.573) > 1e-2)
        def run(l, mm, out):
            m.plt = Rec(); m.eTo10 = lambda s: s
            a = h.real('a', h.q(3, 2), 3) if kind == 'shapes' else h.const(2)
            F = [[h.const(v) for v in row] for row in FRAMES['id']]
            P = [[c[0], c[1] + 3, c[2] + 7] for c in octant(h, F, a, h.const(1), h.q(1, 2))] + [[c[0] + 30, c[1] + 20, c[2] + 5] for c in octant(h, F, h.const(3), h.const(1), h.q(1, 2))]
            o = dsp(h, h.arr([[c * l for c in p] for p in P]), h.arr([h.const(2) * mm] * 8 + [h.const(1) * mm] * 8), [list(range(8)), list(range(8, 16))], [h.const(4) * l, h.const(4) * l])
            k = katz(h, [h.const('5/4'), h.const('3/2')], h.q(1, 20), 4, 3)
            if kind == 'shapes': o.plotShapeProfs(2, [0, 1], k)
            elif kind == 'local': o.plotLocalTHist(3, frac, [0, 1], k)
            elif kind == 'global': o.plotGlobalTHist(3, [0, 1], k)
            elif kind == 'eps': o.plotGlobalEpsHist(3, [0, 1])
            else: o.plotLocalEpsHist(frac, 3, [0, 1])
            x, y = drawn(h, [q for q in m.plt.figs if q], ('semilogx', 'fill_between') if kind == 'shapes' else ('hist',))
            h.true(len(x) > 0, 'something is drawn')
            return {'abscissae': (x, NONE_), 'curves': (y, NONE_)}
        rel(h, run)
    return f


def files(h):
    """positions, masses, velocities, radii and box size read from files"""
    F = Files(h)
    try:
        cfg = h.load('cosmic_profiles.common.config')
        cfg.updateInUnitSystem('Mpc/h', 'E+10Msun/h', 1e5, 0.5)
        L, M, V = cfg.getLMVInternal()
        li, mi, vi, lo, mo, vo = [h.real(k, h.q(1, 8), 8) if h.sym else h.real(k, h.q(1, 8), 8) for k in ('li', 'mi', 'vi', 'lo', 'mo', 'vo')]
        cfg.updateInUnitSystem(li * L, mi * M, vi * 1e5, 0.5); cfg.updateOutUnitSystem(lo * L, mo * M, vo * 1e5, 0.5)
        X = [[h.const(i), h.const((2 * i) % 5), h.const((3 * i) % 7)] for i in range(4)]; X[0][0] = h.real('x', 0, 1)
        Vv = [[h.const(i - 1), h.const((2 * i) % 3 - 1), h.const(i % 2)] for i in range(4)]; Vv[1][2] = h.real('v', -5, 5)
        Ms = [h.real('m', h.q(1, 2), 2)] + [h.const(i + 1) for i in range(3)]
        t = h.const('1/4'); B = h.const(64)
        R = [h.real('R', h.q(1, 2), 2), h.const(2)]
        snap = F.snapshot('snap_010', {1: {'POS ': h.arr(X), 'MASS': h.arr(Ms), 'VEL ': h.arr(Vv)}}, {'boxsize': B, 'time': t})
        row = lambda x: [9, x, 9, 9, 9, 9]
        grp = F.groups([{'len': [row(2), row(2)], 'r200': R, 'nsub': [1, 1], 'sub': [row(2), row(2)]}])
        o = gadget(h, F, snap, grp)
        x, m = o.getXYZMasses(); v = o.getVelXYZ(); r = o.getR200(); c = o.getMassesCenters([0, 1])
        for i in range(4):
            h.eq(m[i] * mo, Ms[i] * mi, 'mass %d' % i, tol=1e-6)
            for a in range(3):
                h.eq(x[i][a] * lo, X[i][a] * li, 'position %d,%d' % (i, a), tol=1e-6)
                h.eq(v[i][a] * vo, Vv[i][a] * vi * h.q(1, 2), 'velocity %d,%d' % (i, a), tol=1e-6)
        for g in range(2):
            h.eq(r[g] * lo, R[g] * li, 'radius %d' % g, tol=1e-6)
            W = Ms[2 * g] + Ms[2 * g + 1]
            h.eq(c['mass'][g] * mo, W * mi, 'object mass %d' % g, tol=1e-6)
            for a in range(3): h.eq(c['centre'][g][a] * lo * W, (Ms[2 * g] * X[2 * g][a] + Ms[2 * g + 1] * X[2 * g + 1][a]) * li, 'centre %d,%d' % (g, a), tol=1e-5)
    finally: F.done()


def velshape(kind):
    """velocity shapes of objects read from files: the same system written in other units"""
    def f(h):
        Eig(h, ('id',))
        F = Files(h)
        try:
            cfg = h.load('cosmic_profiles.common.config')
            n = [0]
            def run(l, m, out):
                n[0] += 1
                I = [[h.const(v) for v in row] for row in FRAMES['id']]
                a = h.real('a', h.q(3, 2), 3)
                P = octant(h, I, a, h.const(1), h.q(1, 2)); W = octant(h, I, h.const(3), h.const(2), h.const(1))
                snap = F.snapshot('snap%d_010' % n[0], {1: {'POS ': h.arr([[c * l for c in p] for p in P]), 'MASS': h.arr([h.const(2) * m] * 8), 'VEL ': h.arr(W)}}, {'boxsize': h.const(0), 'time': h.const(1)})
                row = lambda x: [9, x, 9, 9, 9, 9]
                grp = F.groups([{'len': [row(8)], 'r200': [h.const(4) * l], 'nsub': [1], 'sub': [row(8)]}], dirname='groups%d' % n[0])
                o = gadget(h, F, snap, grp)
                k = katz(h, [h.const('5/4')], h.q(1, 20), 4, 3)
                s = o.getShapeCatVelGlobal([0], k)[0] if kind == 'global' else o.getShapeCatVelLocal([0], k)[0][0]
                return {'d': ([s['d']], LEN_), 'q': ([s['q']], NONE_), 's': ([s['s']], NONE_), 'axes': ([s[k][i] * s[k][j] for k in ('minor', 'inter', 'major') for i in range(3) for j in range(3)], NONE_)}
            rel(h, run)
        finally: F.done()
    return f


HARNESSES = [
    H('velocity shape local', velshape('local'), '8 particles read from files; units in and out symbolic'), H('velocity shape global', velshape('global'), 'same'),
    H('named input units', names('in'), '8 length x 4 mass names, little h symbolic'), H('named output units', names('out'), 'same'),
    H('refused', refused, '4 wrong names'),
    H('helpers scalar', helpers('scalar'), 'units of 1 to 10^9 cm, 1 to 10^15 g, 1 to 10^9 cm/s, little h and values symbolic'), H('helpers array', helpers('array'), 'same on arrays'), H('helpers matrix', helpers('matrix'), 'same on two-dimensional arrays'),
    H('label', label, 'every pair of names'),
    H('catalogue com', cat(False, 'com'), '2 objects, 7 particles; units in and out symbolic'), H('catalogue box', cat(True, 'com'), 'same in a periodic box'), H('catalogue mode', cat(False, 'mode'), 'same, CENTER mode'),
    H('density binned', dens({}), '3 bins; units in and out symbolic'), H('density kernel', dens({'direct_binning': False}), 'same'),
    H('density ellipsoidal', shp('dens'), '8 particles; units in and out symbolic'),
    H('shape local', shp('local'), '8 particles; units in and out symbolic'), H('shape reduced', shp('reduced'), 'same'), H('shape shell', shp('shell'), 'same'), H('shape global', shp('global'), 'same'),
    H('fit', fit('fit'), '2 objects, 4 profiles; densities and units symbolic'), H('concentration', fit('conc'), 'same'),
    H('density figures', densfig, '2 objects, 4 profiles, 1..2 mass bins; one density and units symbolic'),
    H('shape figures', shapefig('shapes'), '2 objects, 2 radii, 2 mass bins; one coordinate and units symbolic'), H('T figures local', shapefig('local'), '2 objects, depth and units symbolic'), H('T figures global', shapefig('global'), 'same'),
    H('ellipticity figures', shapefig('eps'), '2 objects, units symbolic'), H('ellipticity figures local', shapefig('epsl'), 'same'),
    H('files', files, '2 groups of 2 particles; units of length, mass, velocity symbolic'),
]
OUTSIDE = 'rounding; the fit itself (see C18); what figures show (see C17, C21), except its dependence on units'
ASSUMPTIONS = ['eigen-decompositions exact in a known frame', 'the optimiser is scale-free']
