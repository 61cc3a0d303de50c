"""C21 derived statistics obey their definitions"""
from fractions import Fraction
from cysym.runner import H
from common import *

CT = 'cosmic_profiles.common.cosmo_tools'
PR = 'cosmic_profiles.common.python_routines'
ST = 'cosmic_profiles.shape_profs.shape_profs_tools'


# ------------------------------------------------------------------ ellipticity
def com(h, X, M):
    m = sum_(h, M)
    return [sum_(h, [w * p[a] for w, p in zip(M, X)]) / m for a in range(3)]


def second(h, X, M, c):
    """second moments in the sky plane (times the total mass)"""
    xx = sum_(h, [w * (p[0] - c[0]) ** 2 for w, p in zip(M, X)])
    yy = sum_(h, [w * (p[1] - c[1]) ** 2 for w, p in zip(M, X)])
    xy = sum_(h, [w * (p[0] - c[0]) * (p[1] - c[1]) for w, p in zip(M, X)])
    return xx, yy, xy


def eps_ok(h, e, xx, yy, xy, what):
    t = xx + yy
    h.eq(e.real * t, xx - yy, what + ': real part', scale=1e-3)
    h.eq(e.imag * t, 2 * xy, what + ': imaginary part', scale=1e-3)


def epsilon(k, center, box):
    def f(h):
        st = h.load(ST)
        # two objects; the second one is the one with free particles, stored first
        X = [[h.real('x%d_%d' % (i, a), -2, 2) if (i < 2 and a < 2) else h.const((i * 7 + a * 3) % 5 - 2) for a in range(3)] for i in range(k)]
        M = [h.real('m%d' % i, h.q(1, 2), 3) if i < 2 else h.const(1 + i % 2) for i in range(k)]
        X2 = [[3, 1, 0], [1, 4, 2], [0, -1, 1]]; M2 = [1, 2, 3]
        L = h.const(0)
        shift = [[0, 0, 0] for _ in range(k)]
        if box:
            L = h.real('L', 16, 64)
            for i in range(k):
                if i < 2:
                    for a in range(2): shift[i][a] = h.choice('image%d_%d' % (i, a), 2)
        S = [[p[a] + shift[i][a] * L for a in range(3)] for i, p in enumerate(X)]
        c = com(h, X, M); c2 = com(h, [[h.const(v) for v in p] for p in X2], [h.const(v) for v in M2])
        xx, yy, xy = second(h, X, M, c)
        h.assume(xx + yy > h.q(1, 100))
        # catalogue order is the second object first
        xyz = h.arr(S + X2); ms = h.arr(M + M2)
        cat = h.i32([k, k + 1, k + 2] + list(range(k)))
        e = st.getEpsilon(cat, h.i32([3, k]), xyz, ms, L, center)
        h.true(len(e) == 2, 'one ellipticity per object')
        eps_ok(h, e[1], xx, yy, xy, 'object 1')
        eps_ok(h, e[0], *second(h, [[h.const(v) for v in p] for p in X2], [h.const(v) for v in M2], c2), 'object 0')
        # |eps| <= 1 whenever the definition holds (Cauchy-Schwarz, stated for two free particles)
        n = (xx - yy) * (xx - yy) + 4 * xy * xy
        if k == 2: h.true(n <= (xx + yy) * (xx + yy) * (1 if h.sym else 1 + 1e-9), 'ellipticity at most one')
        if not h.sym: h.true(abs(e[1]) <= 1 + 1e-9, 'ellipticity at most one')
    return f


def rotated(h):
    """turning an object by an angle turns its ellipticity by twice the angle"""
    st = h.load(ST)
    X = [[h.real('x0', -2, 2), h.real('y0', -2, 2), h.const(1)], [h.const(1), h.const(2), h.const(0)], [h.const(-2), h.const(1), h.const(3)]]
    M = [h.real('m0', h.q(1, 2), 3), h.const(1), h.const(2)]
    th = h.real('angle', -3, 3)
    c = com(h, X, M); xx, yy, xy = second(h, X, M, c); t = xx + yy
    e = st.getEpsilon(h.i32([0, 1, 2]), h.i32([3]), h.arr(X), h.arr(M), h.const(0), 'com', angle=th)[0]
    co, si = h.np.cos(th), h.np.sin(th)
    c2, s2 = co * co - si * si, 2 * si * co
    h.eq(e.real * t, (xx - yy) * c2 - 2 * xy * s2, 'real part', scale=1e-3)
    h.eq(e.imag * t, (xx - yy) * s2 + 2 * xy * c2, 'imaginary part', scale=1e-3)


def mode(h):
    """five particles and CENTER = mode: the centre is that of the dense four once the outlier is cut away"""
    st = h.load(ST)
    z = h.real('z', h.q(-1, 2), h.q(1, 2)); m0 = h.real('m0', h.q(1, 2), 2)
    X = [[h.const(0), h.const(0), h.const(0)], [h.const(1), h.const(0), h.const(0)], [z, h.const(1), h.const(0)], [h.const(1), h.const(1), h.const(0)], [h.const(8), h.const(0), h.const(0)]]
    M = [m0, h.const(1), h.const(1), h.const(2), h.const(1)]
    # reference: shrink from the largest extent
    cur = list(range(5)); ext = [p[0] for p in X]
    lo = ext[2] if ext[2] < 0 else h.const(0)
    rad = 8 - lo
    while True:
        c = com(h, [X[i] for i in cur], [M[i] for i in cur])
        cut = [i for i in cur if dist2(X[i], c) < rad * rad]
        if len(cut) < 5: break
        cur = cut; rad = rad * h.np.float64(0.83) if h.sym else rad * 0.83
    e = st.getEpsilon(h.i32(range(5)), h.i32([5]), h.arr(X), h.arr(M), h.const(0), 'mode')[0]
    xx, yy, xy = second(h, X, M, c)
    eps_ok(h, e, xx, yy, xy, 'mode-centred')


# ------------------------------------------------------------------ averages
def srt(v):
    out = []
    for x in v:
        i = len(out)
        while i > 0 and x < out[i - 1]: i -= 1
        out.insert(i, x)
    return out


def quant(h, v, q):
    s = srt(v); p = q * (len(s) - 1); k = p.numerator // p.denominator; r = p - k
    return s[k] if r == 0 else s[k] + (s[k + 1] - s[k]) * h.const(str(r))


def want(h, z, method, nreal=10):
    """(centre, lower error, upper error) of the values z"""
    n = len(z)
    if n == 0: return h.nan, h.nan, h.nan
    if method == 'median_quantile':
        s = h.sqrt(h.const(n))
        return quant(h, z, Fraction(1, 2)), quant(h, z, Fraction(1, 4)) / s, quant(h, z, Fraction(3, 4)) / s
    mean = sum_(h, z) / n
    if method == 'SEM':
        if n == 1: return mean, h.nan, h.nan
        v = sum_(h, [(x - mean) ** 2 for x in z]) / (n - 1)
        e = h.sqrt(v) / h.sqrt(h.const(n))
        return mean, e, e
    import numpy as np
    ms = []
    for r in range(nreal):
        idx = np.random.RandomState(r).randint(0, n, size=(n,))
        ms.append(sum_(h, [z[int(i)] for i in idx]) / n)
    mm = sum_(h, ms) / nreal
    e = h.sqrt(sum_(h, [(x - mm) ** 2 for x in ms]) / (nreal - 1))
    return mean, e, e


def errs(method, kmax):
    def f(h):
        ct = h.load(CT)
        y = []
        for b in range(2):
            n = h.choice('n%d' % b, kmax + 1)
            y.append([h.real('v%d_%d' % (b, i), -5, 5) for i in range(n)])
        W = [want(h, z, method) for z in y]
        got = ct.getMeanOrMedianAndError([list(z) for z in y], method)
        h.true(len(got) == 3, 'three results')
        for b in range(2):
            for g, w, nm in zip(got, W[b], ('average', 'lower error', 'upper error')): h.eq(g[b], w, '%s of bin %d' % (nm, b), scale=1e-4)
    return f


METH = ('median_quantile', 'SEM', 'bootstrap')


def profile(kind, method=None):
    """getShape/getShapeMs: every finite value counts once, at the nearest radius"""
    def f(h):
        st = h.load(ST)
        nobj, nr = 2, 2
        meth = method or METH[h.choice('method', 3)]
        ror = [h.const(1), h.const(2)]
        R = [h.const(1), h.const(3)]
        d = [[h.real('d%d_%d' % (o, r), h.q(1, 2), 3) if r == 1 else h.const('5/4') for r in range(nr)] for o in range(nobj)]
        vals = [[h.real('v%d_%d' % (o, r), 0, 1) if h.choice('nan%d_%d' % (o, r), 2) == 0 else h.nan for r in range(nr)] for o in range(nobj)]
        y = [[], []]
        pick = range(nobj)
        if kind == 'ms':
            idx = [[[0], [1]], [[1, 0]], [[1], [0]]][h.choice('groups', 3)]
            g = h.choice('group', len(idx)); pick = idx[g]
        for o in pick:
            for r in range(nr):
                if h.isnan(vals[o][r]): continue
                far = d[o][r] > h.const('3/2')
                y[1 if far else 0].append(vals[o][r])
        W = [want(h, z, meth) for z in y]
        D = h.arr([[d[o][r] * R[o] for r in range(nr)] for o in range(nobj)])
        if kind == 'all': got = st.getShape(D, h.arr(vals), meth, h.arr(ror), h.arr(R))
        else: got = st.getShapeMs(D, [list(i) for i in idx], g, h.arr(vals), meth, h.arr(ror), h.arr(R))
        for b in range(2):
            for q, w, nm in zip(got, W[b], ('average', 'lower error', 'upper error')): h.eq(q[b], w, '%s at radius %d' % (nm, b), scale=1e-4)
    return f


def densavg(h):
    """density profiles: the drawn average is the median of the finite values"""
    cfg = internal_units(h)
    L, M, V = cfg.getLMVInternal()
    sc = (M / 1e10 / L ** 3) / (cfg.OutUnitMass_in_g / cfg.OutUnitLength_in_cm ** 3)
    m = minimiser(h, lambda cost, x0, bounds, args: [1] * len(x0))
    m.plt = Rec(); m.eTo10 = lambda s: s
    n = 3
    val = [[h.real('v%d_%d' % (o, r), 1, 9) if h.choice('nan%d_%d' % (o, r), 2) == 0 else h.nan for r in range(2)] for o in range(n)]
    W = [want(h, [val[o][r] for o in range(n) if not h.isnan(val[o][r])], 'median_quantile') for r in range(2)]
    m.drawDensProfs(h.scratch() + '/v', '001', h.arr([1, 2, 3]), h.arr([[1, 2]] * n), h.arr([1, 2]), h.arr(val), h.arr([1, 2]), h.arr([1, 2, 3]), h.np.zeros((n, 3)), {'profile': 'nfw'}, 1, 0.0, 1e10)
    figs = m.plt.drawn(('loglog',))
    for f, fig in enumerate(figs):
        line = [c for c in fig if c[0] == 'loglog' and 'profile fit' not in str(c[2].get('label', ''))]
        band = [c for c in fig if c[0] == 'fill_between']
        h.true(len(line) == 1 and len(band) == 1, 'one curve and one band')
        for r in range(2):
            a, lo, hi = W[r]
            h.eq(line[0][1][1][r], a if h.isnan(a) else a * sc, 'figure %d, radius %d: average' % (f, r))
            h.eq(band[0][1][1][r], a if h.isnan(a) else (a - lo) * sc, 'figure %d, radius %d: lower band' % (f, r), scale=sc * 1e-3 if not h.sym else None)
            h.eq(band[0][1][2][r], a if h.isnan(a) else (a + hi) * sc, 'figure %d, radius %d: upper band' % (f, r))


# ------------------------------------------------------------------ histograms
def bins_ok(h, call, nb):
    b = list(call[2]['bins'])
    h.true(len(b) == nb, 'number of bin edges')
    h.eq(b[0], 0, 'first edge'); h.eq(b[-1], 1, 'last edge')
    for i in range(len(b) - 1): h.true(b[i] < b[i + 1], 'edges increase')


def thist(kind):
    def f(h):
        st = h.load(ST); st.plt = Rec()
        n = 2; nb = 2 + h.choice('bins', 3)
        q, s = [], []
        for o in range(n):
            qo, so = [], []
            for r in range(2):
                if h.choice('conv%d_%d' % (o, r), 2):
                    a = h.real('s%d_%d' % (o, r), h.q(1, 20), h.q(99, 100)); b = h.real('q%d_%d' % (o, r), h.q(1, 20), 1)
                    h.assume(a <= b)
                else: a = b = h.nan
                so.append(a); qo.append(b)
            q.append(qo); s.append(so)
        R = [h.const(2), h.const(3)]
        fr = h.real('frac', 0, 2)
        d = [[h.nan if h.isnan(q[o][r]) else R[o] * h.const(('1/2', 1)[r]) for r in range(2)] for o in range(n)] # as the catalogue has it
        if not h.sym: h.assume(abs(fr - 0.75) > 1e-6)
        if kind == 'local':
            col = 0 if fr <= h.const('3/4') else 1
            st.getLocalTHist(h.scratch() + '/v', '001', h.arr([h.q(1, 2), 1]), h.arr(R), 0.0, h.arr([1, 2]), h.np.zeros((n, 3)), h.arr(d), h.arr(q), h.arr(s), None, nb, fr, 1e10)
        else:
            col = 1
            st.getGlobalTHist(h.scratch() + '/v', '001', 0.0, h.arr([1, 2]), h.np.zeros((n, 3)), h.arr(d), h.arr(q), h.arr(s), None, nb, 1e10)
        calls = [c for fig in st.plt.figs for c in fig if c[0] == 'hist']
        h.true(len(calls) == 1, 'one histogram')
        x = calls[0][2].get('x', calls[0][1][0] if calls[0][1] else None)
        x = [v for v in x if not h.isnan(v)]
        W = [(1 - q[o][col] ** 2) / (1 - s[o][col] ** 2) for o in range(n) if not h.isnan(q[o][col])]
        h.true(len(x) == len(W), 'every converged object is counted once')
        for a, b in zip(x, W):
            h.eq(a, b, 'triaxiality', scale=1e-3)
            h.true(a >= 0, 'triaxiality not below zero'); h.true(a <= (1 if h.sym else 1 + 1e-9), 'triaxiality not above one')
        bins_ok(h, calls[0], nb)
    return f


def ehist(kind):
    def f(h):
        internal_units(h)
        st = h.load(ST); st.plt = Rec()
        nb = 2 + h.choice('bins', 3)
        x0 = h.real('x0', h.q(1, 2), 3); m0 = h.real('m0', h.q(1, 2), 3)
        P = [[[x0, h.const(0), h.const(0)], [-x0, h.const(0), h.const(0)], [h.const(0), h.const(1), h.const(0)], [h.const(0), h.const(-1), h.const(0)]],
             [[h.const(1), h.const(1), h.const(1)], [h.const(-1), h.const(-1), h.const(-1)], [h.const(3), h.const(0), h.const(0)], [h.const(-3), h.const(0), h.const(0)]]]
        M = [[m0, m0, h.const(1), h.const(1)], [h.const(1), h.const(1), h.const(2), h.const(2)]]
        off = [[1, 20, 20], [40, 40, 40]]
        L = h.const(0); wrap = False
        if h.choice('box', 2): L = h.const(64); wrap = True
        X = [[p[a] + off[o][a] for a in range(3)] for o in range(2) for p in P[o]]
        if wrap: X = [[h.ite(p[0] < 0, p[0] + 64, p[0]), p[1], p[2]] for p in X]
        rad = [h.real('R0', h.q(1, 2), 4), h.const(2)]
        fr = h.const(1)
        mod = h.load('cosmic_profiles.shape_profs.shape_profs_classes')
        o = mod.DensShapeProfs(h.arr(X), h.arr(M[0] + M[1]), [[4, 5, 6, 7], [0, 1, 2, 3]], h.arr([rad[1], rad[0]]), L, '001', h.scratch() + '/v', h.scratch() + '/c', MIN_NUMBER_PTCS=1, CENTER='com')
        sel = [[0, 1], [1, 0], [1]][h.choice('selection', 3)]
        W = []
        for k in sel:
            p, m = P[1 - k], M[1 - k]
            if kind == 'local':
                r = rad[1 - k] * fr
                if not h.sym: h.assume(all(abs(float(dist2(v, [0, 0, 0])) - float(r) ** 2) > 1e-6 for v in p))
                ins = [i for i in range(4) if dist2(p[i], [0, 0, 0]) <= r * r]
                if not ins: continue
                p, m = [p[i] for i in ins], [m[i] for i in ins]
            xx, yy, xy = second(h, p, m, com(h, p, m))
            W.append((xx, yy, xy))
        if kind == 'local': o.plotLocalEpsHist(fr, nb, sel)
        else: o.plotGlobalEpsHist(nb, sel)
        calls = [c for fig in st.plt.figs for c in fig if c[0] == 'hist']
        h.true(len(calls) == 1, 'one histogram')
        x = list(calls[0][2].get('x', calls[0][1][0] if calls[0][1] else None))
        h.true(len(x) == len(W), 'one value per object with particles')
        for v, (xx, yy, xy) in zip(x, W):
            h.eq(v * v * (xx + yy) ** 2, (xx - yy) ** 2 + 4 * xy * xy, 'modulus of the ellipticity', scale=1e-3)
            h.true(v >= 0, 'not below zero')
        bins_ok(h, calls[0], nb)
    return f


# ------------------------------------------------------------------ chi square and formulas
def chi_ref(h, occ):
    n = len(occ[0])
    row = [sum_(h, r) for r in occ]; colm = [occ[0][j] + occ[1][j] for j in range(n)]
    tot = row[0] + row[1]
    if tot == 0: return None
    chi = h.const(0)
    for g in range(2):
        for j in range(n):
            if row[g] == 0: continue
            if colm[j] == 0: continue
            chi = chi + h.q(1, 1) * (occ[g][j] * tot - row[g] * colm[j]) ** 2 / (tot * row[g] * colm[j])
    return chi


def chicore(n, k):
    def f(h):
        ct = h.load(CT)
        # weighted counts: any non-negative real
        if n == 2: occ = [[h.real('o%d_%d' % (g, j), 0, k) if (g, j) != (1, 1) else h.const(3 * h.choice('last', 2)) for j in range(n)] for g in range(2)]
        else:
            z = h.choice('pattern', 4)
            occ = [[h.real('o00', 0, k), h.const(2 * (z % 2)), h.const(1)], [h.real('o10', 0, k), h.const(3 * (z // 2)), h.const(0)]]
        chi = chi_ref(h, occ)
        a = h.np.zeros((2, n), dtype=h.np.float64)
        for g in range(2):
            for j in range(n): a[g, j] = occ[g][j]
        c, p, dof = ct.chiSquareToICore(a)
        if chi is None:
            h.true(h.isnan(c) and h.isnan(p) and h.isnan(dof), 'no counts, no statistic'); return
        h.eq(c, chi, 'chi square'); h.eq(dof, n - 1, 'degrees of freedom')
        pv(h, p, c, dof)
    return f


def pv(h, p, chi, dof):
    if h.sym: w = 1 - h.load('scipy').stats.chi2.cdf(chi, dof)
    else:
        from scipy import stats
        w = 1 - stats.chi2.cdf(chi, dof)
    h.eq(p, w, 'p value', scale=1e-3)


def nearest(h, v):
    """index of the nearest of 0, 1/9, ..., 1 (a value half way goes down)"""
    for i in range(9):
        if v <= h.q(2 * i + 1, 18): return i
    return 9


def chimulti(h):
    ct = h.load(CT)
    nx = [h.choice('nx%d' % i, 2) for i in range(2)]; ny = [h.choice('ny%d' % i, 2) for i in range(2)]
    free = h.choice('free', 2)
    x = [[h.real('x', 0, 1)] if (i == 0 and nx[0] and free == 0) else ([h.const('1/2')] * nx[i]) for i in range(2)]
    y = [[h.real('y', 0, 1)] if (i == 0 and ny[0] and free == 1) else ([h.const('1/2'), h.const(1)][:2 * ny[i]]) for i in range(2)]
    if not h.sym:
        for v in x[0] + y[0]: h.assume(v == 0.5 or all(abs(v * 18 - (2 * i + 1)) > 1e-6 for i in range(9)))
    else:
        # half-way values belong to either neighbour in floating point
        for v in x[0] + y[0]:
            if v.isconst: continue
            for i in range(9): h.assume(v != h.q(2 * i + 1, 18))
    occ = [[0] * 20, [0] * 20]
    for g, s in ((0, x), (1, y)):
        for b in range(2):
            for v in s[b]: occ[g][10 * b + nearest(h, v)] += 1
    chi = chi_ref(h, [[h.const(v) for v in r] for r in occ])
    c, p, dof = ct.chiSquareToIMultiDim([list(v) for v in x], [list(v) for v in y])
    if chi is None: h.true(h.isnan(c), 'no counts, no statistic'); return
    h.eq(c, chi, 'chi square'); h.eq(dof, 19, 'degrees of freedom'); pv(h, p, c, dof)


def chicurve(h):
    """shape curves: the finite values enter at the radius nearest to d/R200, sample by sample"""
    ct = h.load(CT)
    n = 3      # radii 1/100, 1/10, 1
    def sample(nm):
        # radii of one object: the inner one is free, the last one is R200
        R = h.const(2); t = h.real('t' + nm, h.q(1, 200), h.q(1, 5))
        return [[R * t, R * h.q(1, 10), R]], t
    (dx, tx), (dy, ty) = sample('x'), sample('y')
    px = [[h.const('1/2'), h.const('1/9'), h.const(1)]]; py = [[h.const('1/3'), h.const('2/9'), h.const(0)]]
    for j in range(n):
        if h.choice('nan%d' % j, 2): px[0][j] = h.nan
    if not h.sym:
        for t in (tx, ty): h.assume(abs(t - 0.055) > 1e-6)
    occ = [[0] * 30, [0] * 30]
    for g, (t, p) in enumerate(((tx, px), (ty, py))):
        for j in range(n):
            if h.isnan(p[0][j]): continue
            b = j if j else (0 if t <= h.q(11, 200) else 1)
            occ[g][10 * b + nearest(h, p[0][j])] += 1
    chi = chi_ref(h, [[h.const(v) for v in r] for r in occ])
    c, p, dof = ct.chiSquareToIShapeCurve(h.arr(dx), h.arr(px), h.arr(dy), h.arr(py), -2, 0, 2)
    h.eq(c, chi, 'chi square'); h.eq(dof, 29, 'degrees of freedom'); pv(h, p, c, dof)


def formulas(h):
    pr = h.load(PR)
    z = h.real('z', 0, 12); om = h.real('Om', h.q(1, 100), 1); ol = h.real('Ol', 0, 1)
    o = om * (1 + z) ** 3; om_z = o / (o + ol); x = om_z - 1
    h.eq(pr.getDelta(z, om, ol), (18 * h.pi ** 2 + 82 * x - 39 * x * x) / om_z - 1, 'relative virial overdensity')
    N = h.real('N', 1, 10000); L = h.real('L', 1, 1000)
    h.eq(pr.getMassDMParticle(N, L), pr.getRhoCrit() * L ** 3 / N ** 3, 'particle mass')
    # 3 H^2 / (8 pi G) in Msun/h / (Mpc/h)^3 is about 2.775e11
    rc = pr.getRhoCrit()
    h.true(rc > 2.7e11, 'critical density'); h.true(rc < 2.85e11, 'critical density')


# ------------------------------------------------------------------ scientific notation
class Ch(str):
    """one character that is a symbolic digit; its text is a private placeholder"""
    table = {}
    def __new__(cls, sym):
        c = str.__new__(cls, chr(0xE000 + len(cls.table))); cls.table[str(c)] = sym; return c
    def _s(self): return Ch.table[str.__str__(self)]
    def __eq__(self, o):
        if isinstance(o, str) and not isinstance(o, Ch):
            if len(o) == 1 and o in '0123456789': return bool(self._s() == int(o))
            return False
        return str.__eq__(self, o)
    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self): return str.__hash__(self)


class Text(str):
    """string of ordinary and symbolic characters"""
    def __new__(cls, chars):
        t = str.__new__(cls, ''.join(str.__str__(c) for c in chars)); t.chars = list(chars); return t
    def __iter__(self): return iter(self.chars)
    def __getitem__(self, k):
        r = self.chars[k]
        return Text(r) if isinstance(k, slice) else r


SUP = {'\u2070': 0, '\u00b9': 1, '\u00b2': 2, '\u00b3': 3, '\u2074': 4, '\u2075': 5, '\u2076': 6, '\u2077': 7, '\u2078': 8, '\u2079': 9}


def eto10(h):
    """the text shown is the number given, for every mantissa and every exponent 00-19 of either sign"""
    pr = h.load(PR)
    Ch.table.clear()
    d = [h.int('d%d' % i, 0, 9) for i in range(3)]; e1 = h.int('e1', 0, 1); e0 = h.int('e0', 0, 9)
    h.assume(d[0] >= 1)
    letter = 'eE'[h.choice('letter', 2)]; sign = '+-'[h.choice('sign', 2)]
    minus = h.choice('minus', 2)
    if h.sym:
        c = [Ch(v) for v in (d[0], d[1], d[2], e1, e0)]
        st = Text((['-'] if minus else []) + [c[0], '.', c[1], c[2], letter, sign, c[3], c[4]])
    else: st = ('-' if minus else '') + '%d.%d%d%s%s%d%d' % (d[0], d[1], d[2], letter, sign, e1, e0)
    out = str(pr.eTo10(st))
    def dig(ch):
        if h.sym and ch in Ch.table: return Ch.table[ch]
        return int(ch) if ch.isdigit() and ch.isascii() else None
    body = out.replace('\u2800', '').replace(' ', '')
    neg = body.startswith('-')
    if neg: body = body[1:]
    h.true(neg == bool(minus), 'sign of the number shown')
    if '\u2715' in body: man, power = body.split('\u2715', 1)
    elif body.startswith('10') and (len(body) > 2 and (body[2] in SUP or body[2] == '\u207b')): man, power = None, body
    else: man, power = body, None
    # mantissa shown
    if man is None: md = [1, 0, 0]
    else:
        if not (len(man) == 4 and man[1] == '.'): h.true(False, 'mantissa in %r' % out); return
        md = [dig(man[i]) for i in (0, 2, 3)]
    # exponent shown
    if power is None: ex = 0
    else:
        t = power[2:]; s = 1
        if not power.startswith('10'): h.true(False, 'power of ten in %r' % out); return
        if t.startswith('\u207b'): s = -1; t = t[1:]
        if not t or any(ch not in SUP for ch in t): h.true(False, 'exponent in %r' % out); return
        ex = 0
        for ch in t: ex = ex * 10 + SUP[ch]
        ex *= s
    for i in range(3): h.eq(md[i], d[i], 'digit %d of the mantissa' % i)
    h.eq(ex, (10 * e1 + e0) * (1 if sign == '+' else -1), 'exponent')


HARNESSES = [
    H('ellipticity com 2', epsilon(2, 'com', False), 'object of 2 free particles beside a fixed one'),
    H('ellipticity com 3', epsilon(3, 'com', False), 'object of 3 particles, positions and masses of 2 free'),
    H('ellipticity box', epsilon(3, 'com', True), 'the same cut by the box boundary, box length symbolic, 16 image choices', budget=150),
    H('ellipticity rotated', rotated, '3 particles, rotation angle symbolic'),
    H('ellipticity mode', mode, '5 particles, CENTER mode, one coordinate and one mass free'),
    H('errors median_quantile', errs('median_quantile', 3), '2 bins of 0..3 symbolic values'),
    H('errors SEM', errs('SEM', 3), '2 bins of 0..3 symbolic values'),
    H('errors bootstrap', errs('bootstrap', 2), '2 bins of 0..2 symbolic values, 10 resamplings'),
    H('profile all', profile('all', 'median_quantile'), '2 objects x 2 radii, every NaN pattern, radii free between bins'),
    H('profile group', profile('ms', 'SEM'), 'the same per group, standard errors'),
    H('profile group mq', profile('ms', 'median_quantile'), 'the same per group, medians', 'thorough', thorough_budget=600),
    H('profile all methods', profile('all'), 'every error method', 'thorough', thorough_budget=600), H('profile group methods', profile('ms'), 'every error method', 'thorough', thorough_budget=900),
    H('density average', densavg, '3 objects x 2 radii, every NaN pattern'),
    H('T histogram local', thist('local'), '2 objects x 2 radii, convergence pattern, depth symbolic'), H('T histogram global', thist('global'), 'same'),
    H('ellipticity histogram global', ehist('global'), '2 objects, 3 selections, with and without box'), H('ellipticity histogram local', ehist('local'), 'same, one radius symbolic'),
    H('chi square 2', chicore(2, 6), '2x2 symbolic weighted counts 0..6'), H('chi square 3', chicore(3, 4), '2x3 weighted counts, two symbolic'),
    H('chi square binned', chimulti, 'two samples of up to 4 values, two of them symbolic'), H('chi square curves', chicurve, 'two samples of one object, inner radius symbolic, NaN patterns'),
    H('formulas', formulas, 'all arguments symbolic'),
    H('eTo10', eto10, 'every digit of mantissa and exponent (00-19) symbolic, both letters and signs'),
]
OUTSIDE = 'Kolmogorov-Smirnov helper (delegates to scipy); the plotted bars themselves (matplotlib); half-way values between two bins of the chi-square binning'
ASSUMPTIONS = ['chi-square distribution function uninterpreted', 'bootstrap: sklearn resampling draws RandomState(seed).randint indices', 'sin, cos by their identities']
