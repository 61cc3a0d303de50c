"""C17 mass splitting is a partition; every object of it is drawn in exactly one averaged group"""
from cysym.runner import H
from common import *

CT = 'cosmic_profiles.common.cosmo_tools'


def ceil_(a, b): return -(-a // b)


def split(n, kmax, vec=True):
    def f(h):
        ct = h.load(CT)
        m = h.reals('m', n, h.q(1, 100), 100)
        nb = 1 + h.choice('NB', kmax)
        withv = h.choice('v', 2) if vec else 0
        cen = h.arr([[h.const(10 * i + a) for a in range(3)] for i in range(n)]) if n else h.np.zeros((0, 3))
        v = h.arr([[h.const(100 + 10 * i + a) for a in range(3)] for i in range(n)]) if n else h.np.zeros((0, 3))
        ma = h.arr(m) if n else h.np.zeros((0,))
        out = ct.M_split(ma, cen, 0.0, v=v, NB_BINS=nb) if withv else ct.M_split(ma, cen, 0.0, NB_BINS=nb)
        h.true(len(out) == (5 if withv else 4), 'number of results')
        edges, mg, cg, idx = out[0], out[1], out[2], out[-1]
        vg = out[3] if withv else None
        if n == 0:
            h.true(len(mg) == len(cg) == len(idx) == len(edges) == 0, 'no objects, no groups'); return
        G = len(mg)
        h.true(1 <= G <= nb and len(idx) == G and len(cg) == G, 'number of groups')
        h.true(len(edges) == G + 1, 'number of bin edges')
        sizes = [len(g) for g in mg]
        h.true(all(s == sizes[0] for s in sizes[:-1]) and 0 < sizes[-1] <= sizes[0], 'equally many objects per bin')
        h.true(sizes[0] == ceil_(n, nb), 'bins as small as the number of bins allows')
        h.true([len(g) for g in idx] == sizes and [len(g) for g in cg] == sizes, 'group sizes agree')
        flat = [int(i) for g in idx for i in g]
        h.true(sorted(flat) == list(range(n)), 'every object in exactly one bin')
        prev = None
        for g in range(G):
            for k in range(sizes[g]):
                i = int(idx[g][k])
                h.eq(mg[g][k], m[i], 'mass of member %d of group %d' % (k, g))
                for a in range(3): h.eq(cg[g][k][a], 10 * i + a, 'centre of member %d of group %d' % (k, g))
                if withv:
                    for a in range(3): h.eq(vg[g][k][a], 100 + 10 * i + a, 'vector of member %d of group %d' % (k, g))
                h.true(edges[g] <= m[i], 'lower edge of bin %d' % g)
                h.true(m[i] <= edges[g + 1], 'upper edge of bin %d' % g)
                if prev is not None: h.true(prev <= m[i], 'order of the quantity')
                prev = m[i]
        for g in range(G): h.true(edges[g] <= edges[g + 1], 'edges increase')
        for i in range(n): h.eq(ma[i], m[i], 'masses of the caller')
    return f


def blocks(h):
    """getBlocks: consecutive blocks, nothing lost"""
    ct = h.load(CT)
    n = h.choice('n', 8); k = 1 + h.choice('k', 8)
    l = [h.real('x%d' % i, -5, 5) for i in range(n)]
    b = [list(x) for x in ct.getBlocks(l, k)]
    h.true(all(len(x) == k for x in b[:-1]) and (not b or 0 < len(b[-1]) <= k), 'block sizes')
    flat = [v for x in b for v in x]
    h.true(len(flat) == n, 'nothing lost')
    for i in range(min(n, len(flat))): h.eq(flat[i], l[i], 'element %d' % i)


# ------------------------------------------------------------------ averaged groups
LOG = []      # what the minimiser was asked to fit and what it returned


PROF = [(2, 71, 23), (3, 5, 89), (31, 17, 7), (13, 41, 53), (97, 11, 19)]      # value of object i at radius j
FIT = [(61, 3), (11, 43), (29, 5), (7, 83), (19, 37)]
R200 = [1, 2, 4, 8, 16]


def qtl(v, num, den):
    v = sorted(v); n = len(v)
    p = num * (n - 1); k, r = p // den, p % den
    if k >= n - 1: return (v[-1], 1)
    return (v[k] * den + (v[k + 1] - v[k]) * r, den)


def stats(h, vals):
    """(median, lower, upper) of a nonempty list of integers"""
    n = len(vals); a, b = qtl(vals, 1, 2); c, d = qtl(vals, 1, 4); e, g = qtl(vals, 3, 4)
    s = h.sqrt(h.const(n))
    return h.q(a, b), h.q(c, d) / s, h.q(e, g) / s


def expect(h, m, fig, members, table, kind, what, scale=1):
    """the curve and band in a figure are the statistics of these members"""
    line = [c for c in fig if c[0] in kind and len(c[1]) >= 2 and 'profile fit' not in str(c[2].get('label', ''))]
    band = [c for c in fig if c[0] == 'fill_between']
    h.true(len(line) == 1 and len(band) == 1, '%s: one curve and one band are drawn (got %d and %d)' % (what, len(line), len(band)))
    if len(line) != 1 or len(band) != 1: return
    for j in range(len(table[0])):
        vals = [table[i][j] for i in members]
        med, lo, hi = stats(h, vals)
        h.eq(line[0][1][1][j], med * scale, '%s, radius %d: average' % (what, j))
        h.eq(band[0][1][1][j], (med - lo) * scale, '%s, radius %d: lower band' % (what, j))
        h.eq(band[0][1][2][j], (med + hi) * scale, '%s, radius %d: upper band' % (what, j))


def groups_of(h, m, nb):
    """members per group, from the split itself (checked by the split harnesses)"""
    ct = h.load(CT)
    out = ct.M_split(h.arr(m), h.np.zeros((len(m), 3)), 0.0, NB_BINS=nb)
    return [[int(i) for i in g] for g in out[-1]]


def dens_setup(h):
    LOG.clear()
    def fn(cost, x0, bounds, args):
        if len(args) == 3:
            med, R, prof = args
            x = [med[0], R[0]]; LOG.append((list(med), list(R), x))
        else:
            x = [h.const('3/2') + len(LOG), h.const('1/4') + len(LOG)]; LOG.append((None, None, x))
        return x
    m = minimiser(h, fn)
    m.plt = Rec(); m.eTo10 = lambda s: s
    return m


def dens_check(h, m, members_all, groups, scale, method):
    figs = m.plt.drawn(('loglog',))
    h.true(len(figs) == 1 + len(groups), 'one figure for all objects and one per group')
    h.true(len(LOG) == 1 + len(groups), 'one fit for all objects and one per group')
    for f, (fig, mem) in enumerate(zip(figs, [members_all] + groups)):
        what = 'all objects' if f == 0 else 'group %d' % (f - 1)
        expect(h, m, fig, mem, PROF, ('loglog',), what, scale)
        fit = [c for c in fig if 'profile fit' in str(c[2].get('label', ''))]
        h.true(len(fit) == 1, what + ': one fitted curve is drawn')
        ravg = h.q(sum(R200[i] for i in mem), len(mem))
        meds = [stats(h, [FIT[i][j] for i in mem])[0] for j in range(2)]
        avg = (meds[0] + meds[1]) / 2
        got = LOG[f]
        for j in range(2 if got[0] is not None else 0):
            h.eq(got[0][j], meds[j] / avg, '%s: fitted values' % what)
            h.eq(got[1][j], ravg * (j + 1) * h.q(1, 4), '%s: fitted radii' % what)
        # the drawn curve is the NFW profile with the fitted parameters
        rho, rs = got[2]
        for j in range(2):
            x = (j + 1) * h.q(1, 4) * ravg / rs
            h.eq(fit[0][1][1][j], rho * avg * scale / (x * (1 + x) * (1 + x)), '%s: fitted curve' % what)


def cfg_scale(h):
    """density factor from internal to output units (equal to one mass and length ratio here)"""
    cfg = internal_units(h)
    L, M, V = cfg.getLMVInternal()
    return (M / 1e10 / L ** 3) / (cfg.OutUnitMass_in_g / cfg.OutUnitLength_in_cm ** 3)


def draw(n, kmax):
    def f(h):
        s = cfg_scale(h)
        m = dens_setup(h)
        mass = h.reals('m', n, h.q(1, 100), 100)
        nb = 1 + h.choice('NB', kmax)
        groups = groups_of(h, mass, nb)
        m.drawDensProfs(h.scratch() + '/v', '001', h.arr(R200[:n]), h.arr(FIT[:n]), h.arr([h.q(1, 4), h.q(1, 2)]), h.arr(PROF[:n]), h.arr([h.q(1, 3), h.q(2, 3), 1]),
                        h.arr(mass), h.np.zeros((n, 3)), {'profile': 'nfw'}, nb, 0.0, 1e10)
        dens_check(h, m, list(range(n)), groups, s, 'nfw')
    return f


def plot(h):
    """the same through plotDensProfs of an object with a selection"""
    s = cfg_scale(h)
    m = dens_setup(h)
    n = 4
    mass = h.reals('m', n, h.q(1, 100), 100)
    X = [[h.const(10 * i), h.const(0), h.const(0)] for i in range(n)]
    o = dsp(h, h.arr(X), h.arr(mass), [[i] for i in range(n)], [h.const(r) for r in R200[:n]])
    sel = [[0, 1, 2, 3], [3, 1, 0], [2, 3], [1]][h.choice('selection', 4)]
    nb = 1 + h.choice('NB', 2)
    # masses enter in units of 1e10 only to order the objects: members of group g of the selection
    groups = [[sel[i] for i in g] for g in groups_of(h, [mass[i] for i in sel], nb)]
    # densities are handed over in output units; in internal units they are PROF
    o.plotDensProfs(h.arr([[v * s for v in PROF[i]] for i in sel]), h.arr([h.q(1, 3), h.q(2, 3), 1]), h.arr([[v * s for v in FIT[i]] for i in sel]), h.arr([h.q(1, 4), h.q(1, 2)]), {'profile': 'nfw'}, nb, h.i32(sel))
    dens_check(h, m, sel, groups, s, 'nfw')


Q = [(20, 35, 50), (23, 80, 41), (59, 47, 29), (71, 11, 31), (37, 13, 97)]     # q in percent
S = [(19, 33, 7), (21, 77, 40), (43, 45, 13), (61, 3, 17), (36, 12, 53)]       # s in percent


def shapes_check(h, m, members_all, groups, n):
    figs = m.plt.drawn(('semilogx',))
    G = len(groups)
    h.true(len(figs) == 3 + 3 * G, 'three figures for all objects and three per group (got %d)' % len(figs))
    if len(figs) != 3 + 3 * G: return
    from fractions import Fraction
    T = [[Fraction(10000 - q * q, 10000 - s * s) for q, s in zip(Q[i], S[i])] for i in range(n)]
    for k, (tab, lab) in enumerate(((Q, 'q'), (S, 's'), (T, 'T'))):
        sc = h.q(1, 100) if lab != 'T' else h.const(1)
        for g, mem in enumerate([members_all] + groups):
            fig = figs[k] if g == 0 else figs[3 + k * G + g - 1]
            what = '%s of %s' % (lab, 'all objects' if g == 0 else 'group %d' % (g - 1))
            line = [c for c in fig if c[0] == 'semilogx']; band = [c for c in fig if c[0] == 'fill_between']
            h.true(len(line) == 1 and len(band) == 1, what + ': one curve and one band')
            if len(line) != 1 or len(band) != 1: continue
            for j in range(3):
                med, lo, hi = fstats(h, [Fraction(tab[i][j]) for i in mem])
                h.eq(line[0][1][1][j], med * sc, '%s, radius %d' % (what, j))
                h.eq(band[0][1][1][j], (med - lo) * sc, '%s, radius %d: lower band' % (what, j))
                h.eq(band[0][1][2][j], (med + hi) * sc, '%s, radius %d: upper band' % (what, j))


def fstats(h, vals):
    n = len(vals); s = h.sqrt(h.const(n)); v = sorted(vals)
    def q(num, den):
        p = num * (n - 1); k, r = p // den, p % den
        return v[-1] if k >= n - 1 else v[k] + (v[k + 1] - v[k]) * r / den
    return h.const(str(q(1, 2))), h.const(str(q(1, 4))) / s, h.const(str(q(3, 4))) / s


def shape(n, kmax):
    def f(h):
        m = h.load('cosmic_profiles.shape_profs.shape_profs_tools')
        m.plt = Rec(); m.eTo10 = lambda s: s
        mass = h.reals('m', n, h.q(1, 100), 100)
        nb = 1 + h.choice('NB', kmax)
        groups = groups_of(h, mass, nb)
        ror = [h.q(1, 4), h.q(1, 2), h.const(1)]
        # every radius of an object lies within a tenth of the nominal one: nearest bin is its own
        e = h.real('e', h.q(9, 10), h.q(11, 10))
        d = [[r * R200[i] * (e if i == 0 else 1) for r in ror] for i in range(n)]
        m.getShapeProfs(h.scratch() + '/v', '001', h.arr(ror), h.arr(R200[:n]), 0.0, h.arr(mass), h.np.zeros((n, 3)), h.arr(d),
                        h.arr([[h.q(v, 100) for v in Q[i]] for i in range(n)]), h.arr([[h.q(v, 100) for v in S[i]] for i in range(n)]), h.np.zeros((n, 3, 3)), nb, MASS_UNIT=1e10)
        shapes_check(h, m, list(range(n)), groups, n)
    return f


HARNESSES = [H('split %d' % n, split(n, k), '%d symbolic masses (ties included), 1..%d bins, with and without a vector quantity' % (n, k)) for n, k in ((0, 3), (1, 3), (2, 4), (3, 5), (4, 5))]
HARNESSES += [H('split 5', split(5, 6, False), '5 symbolic masses, 1..6 bins'), H('split 6', split(6, 7, False), '6 symbolic masses, 1..7 bins', 'thorough', thorough_budget=600),
              H('getBlocks', blocks, '0..7 values, block size 1..8'),
              H('density groups 2', draw(2, 3), '2 objects of symbolic mass, 1..3 bins; curves, bands and fit inputs of every figure'),
              H('density groups 3', draw(3, 3), '3 objects of symbolic mass, 1..3 bins'), H('density groups 4', draw(4, 4), '4 objects of symbolic mass, 1..4 bins'),
              H('density groups 5', draw(5, 5), '5 objects, 1..5 bins', 'thorough', thorough_budget=600),
              H('plotDensProfs', plot, '4 objects of symbolic mass, 4 selections, 1..2 bins, through the class'),
              H('shape groups 3', shape(3, 3), '3 objects of symbolic mass, 1..3 bins, one radius jitter symbolic'), H('shape groups 4', shape(4, 3), '4 objects, 1..3 bins'),
              H('shape groups 5', shape(5, 5), '5 objects, 1..5 bins', 'thorough', thorough_budget=600)]
OUTSIDE = 'more objects than stated; the file names of the figures (two groups whose lower edges agree to two digits share one)'
ASSUMPTIONS = ['plotting calls are recorded, not drawn', 'the minimiser is replaced by a recorder', 'profile values are fixed distinct integers, so the statistics identify the members']
