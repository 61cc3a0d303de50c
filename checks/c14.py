"""C14 constructing an analysis object keeps exactly the resolved objects, with their own rows and converted once"""
from cysym.runner import H
from gadgetfiles import *


def units(h, sym=True):
    """arbitrary input and output units of length and mass -> (length in, mass in, length out, mass out) in internal units"""
    cfg = h.load('cosmic_profiles.common.config')
    cfg.updateInUnitSystem('Mpc/h', 'E+10Msun/h', 1e5, 0.5)
    L, M, V = cfg.getLMVInternal()
    ratio = {}
    for k in ('li', 'mi', 'lo', 'mo'):
        ratio[k] = h.real(k, h.q(1, 8), 8) if sym else h.const((3, 2, 5, 7)['li mi lo mo'.split().index(k)])
    cfg.updateInUnitSystem(ratio['li'] * L, ratio['mi'] * M, 1e5, 0.5)
    cfg.updateOutUnitSystem(ratio['lo'] * L, ratio['mo'] * M, 1e5, 0.5)
    return ratio['li'], ratio['mi'], ratio['lo'], ratio['mo']


def same(h, got, want, what):
    h.true(len(got) == len(want), 'number of ' + what)
    for i, w in enumerate(want): h.eq(got[i], w, '%s %d' % (what, i))


def lists(G, K, form='lists', intmin=True):
    """the kept lists, sizes, radii, particles"""
    def f(h):
        if h.sym: h.rt.RT.symint = True
        N = 2
        li, mi, lo, mo = units(h)
        n = [h.choice('len%d' % g, K + 1) if form != 'flat' else 1 + h.choice('len%d' % g, K) for g in range(G)]
        mn = h.int('MIN', 1, K + 1)
        cat = [[h.int('i%d_%d' % (g, k), 0, N - 1) for k in range(n[g])] for g in range(G)]
        R = h.reals('R', G, h.q(1, 10), 5)
        X = [h.reals('x%d' % i, 3, -5, 5) for i in range(N)]
        M = h.reals('m', N, h.q(1, 10), 9)
        keep = [g for g in range(G) if n[g] >= mn]
        rad = h.arr(R); ids = [list(c) for c in cat]
        if form == 'list': rad = list(R)
        if form == 'flat': rad, ids = R[0], list(cat[0])
        if form == 'arrays': ids = [h.i32(c) if c else h.np.zeros(0, dtype=h.np.int32) for c in cat]
        xa, ma = h.arr(X), h.arr(M)
        mod = h.load('cosmic_profiles.shape_profs.shape_profs_classes')
        o = mod.DensShapeProfs(xa, ma, ids, rad, h.const(0), '001', h.scratch() + '/v', h.scratch() + '/c', MIN_NUMBER_PTCS=mn, CENTER='com')
        for again in range(2):
            got, size = o.getIdxCat()
            same(h, size, [n[g] for g in keep], 'sizes')
            same(h, got, [x for g in keep for x in cat[g]], 'flattened indices')
            same(h, o.getR200(), [R[g] * (li / lo) for g in keep], 'radii')
            x2, m2 = o.getXYZMasses()
            same(h, [c for row in x2 for c in row], [c * (li / lo) for row in X for c in row], 'coordinates')
            same(h, m2, [m * (mi / mo) for m in M], 'masses')
        # what the caller passed in is still what it was
        same(h, [c for row in xa for c in row], [c for row in X for c in row], 'coordinates of the caller')
        same(h, ma, M, 'masses of the caller')
        if form == 'lists':
            same(h, rad, R, 'radii of the caller'); h.true([len(c) for c in ids] == n, 'lists of the caller')
    return f


def rows(h):
    """row k of an analysis belongs to the k-th kept object"""
    li, mi, lo, mo = units(h, sym=False)
    N = 6
    X = [[h.const(i), h.const(2 * i), h.const(-i)] for i in range(N)]
    M = h.reals('m', N, h.q(1, 10), 9)
    pool = [[0, 1], [2], [3, 4, 5], [1, 5], [4]]
    pick = [pool[h.choice('obj%d' % g, len(pool))] for g in range(3)]
    mn = 1 + h.choice('MIN', 3)
    keep = [p for p in pick if len(p) >= mn]
    if not keep: return
    R = h.reals('R', 3, h.q(1, 2), 2)
    o = dsp(h, h.arr(X), h.arr(M), pick, R, MIN=mn)
    r = o.getMassesCenters(h.np.arange(len(keep)))
    for k, p in enumerate(keep):
        m = sum_(h, [M[i] for i in p])
        h.eq(r['mass'][k], m * (mi / mo), 'mass of object %d' % k)
        for a in range(3): h.eq(r['centre'][k][a], sum_(h, [M[i] * X[i][a] for i in p]) / m * (li / lo), 'centre of object %d' % k)
    h.raises(ValueError, lambda: o.getMassesCenters([len(keep)]), 'object number beyond the kept ones')


def box(cls):
    """the box size is converted once: a particle beyond the box comes back into it"""
    def f(h):
        F = Files(h) if cls else None
        try:
            li, mi, lo, mo = units(h, sym=not cls)
            L = h.real('L', 1, 9)
            x = h.reals('x', 3, 0, 9)
            for c in x: h.assume(c < 2 * L)
            want = []
            for c in x:
                if c >= L: want.append(c - L)
                else: want.append(c)
            if cls:
                cfg = h.load('cosmic_profiles.common.config')
                snap = F.snapshot('snap_010', {1: {'POS ': h.arr([x]), 'MASS': h.arr([h.const(2)])}}, {'boxsize': L})
                grp = F.groups([{'len': [[9, 1, 9, 9, 9, 9]], 'r200': [h.const(1)], 'nsub': [1], 'sub': [[8, 1, 8, 8, 8, 8]]}])
                o = gadget(h, F, snap, grp)
            else: o = dsp(h, h.arr([x]), h.arr([h.const(1)]), [[0]], [h.const(1)], L_BOX=L)
            r = o.getMassesCenters([0])
            for a in range(3): h.eq(r['centre'][0][a], want[a] * (li / lo), 'centre axis %d' % a, tol=1e-6 if cls else 1e-9, scale=20 * li / lo)
            if cls: h.eq(r['mass'][0], h.const(2) * mi / mo, 'mass', tol=1e-6)
        finally:
            if F: F.done()
    return f


def klass(h):
    """the class that reads files: radii, coordinates and masses converted once"""
    F = Files(h)
    try:
        li, mi, lo, mo = units(h, sym=False)
        n = [1 + h.choice('n%d' % g, 3) for g in range(2)]
        mn = 1 + h.choice('MIN', 3)
        N = sum(n)
        X = [[h.real('x%d_%d' % (i, a), -5, 5) for a in range(3)] for i in range(N)]; M = [h.real('m%d' % i, h.q(1, 2), 2) for i in range(N)]; R = [h.real('R%d' % g, h.q(1, 2), 2) for g in range(2)]
        keep = [g for g in range(2) if n[g] >= mn]
        snap = F.snapshot('snap_010', {1: {'POS ': h.arr(X), 'MASS': h.arr(M)}}, {'boxsize': h.const(0)})
        grp = F.groups([{'len': [[9, c, 9, 9, 9, 9] for c in n], 'r200': R, 'nsub': [1, 1], 'sub': [[8, c, 8, 8, 8, 8] for c in n]}])
        o = gadget(h, F, snap, grp, mn=mn)
        for again in range(2):
            got, size = o.getIdxCat()
            same(h, size, [n[g] for g in keep], 'sizes')
            same(h, got, [sum(n[:g]) + i for g in keep for i in range(n[g])], 'flattened indices')
            got = o.getR200(); h.true(len(got) == len(keep), 'number of radii')
            for k, g in enumerate(keep): h.eq(got[k], R[g] * li / lo, 'radius %d' % k, tol=1e-6)
            x2, m2 = o.getXYZMasses()
            h.true(len(x2) == N and len(m2) == N, 'number of particles')
            for i in range(N):
                h.eq(m2[i], M[i] * mi / mo, 'mass %d' % i, tol=1e-6)
                for a in range(3): h.eq(x2[i][a], X[i][a] * li / lo, 'coordinate %d,%d' % (i, a), tol=1e-6, scale=5)
    finally: F.done()


U = '; units (in and out, length and mass), index values, radii, coordinates and masses symbolic'
HARNESSES = [H('lists 2', lists(2, 3), '2 objects with 0-3 particles, MIN 1-4' + U), H('lists 3', lists(3, 2), '3 objects with 0-2 particles, MIN 1-3' + U),
             H('radius list', lists(2, 2, 'list'), '2 objects with 0-2 particles, radii as a list' + U), H('arrays', lists(2, 2, 'arrays'), 'index lists given as arrays' + U), H('one object', lists(1, 3, 'flat'), 'a flat index list and a scalar radius' + U),
             H('rows', rows, '3 objects out of 5 lists, MIN 1-3, masses and radii symbolic'), H('box', box(False), 'one particle anywhere in two boxes; box size and units symbolic'),
             H('box files', box(True), 'the same read from HDF5 files; units fixed'), H('files', klass, '2 groups with 1-3 particles, MIN 1-3, coordinates, masses and radii symbolic'),
             H('lists 4', lists(4, 3), '4 objects with 0-3 particles' + U, tier='thorough', budget=400)]
OUTSIDE = 'more objects; float32 rounding of the input arrays'
ASSUMPTIONS = ['the flat form of the index list is used with at least one particle']
