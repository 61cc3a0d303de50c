"""C03 selections return exactly the rows of the selected objects; calls change no data"""
from cysym.runner import H
from shapes import *
from gadgetfiles import Files, gadget

SELS = [[0], [1], [2], [2, 0], [1, 2], [1, 0], [2, 1, 0], [1, 2, 0]]
BAD = 'list-noninteger'


def frames(h, n): return [[h.const(x) for x in row] for row in FRAMES[n]]


def stub(h):
    """minimiser stand-in: a fixed function of what it is given (so a row shows whose data it was computed from)"""
    minimiser(h, datafit(h))


def make(h, free=True):
    """three objects of 8, 6 and 4 particles (the last one too small for a shape), not stored in catalogue order"""
    a = h.real('a', h.q(3, 2), 3) if free else h.const(2)
    b = h.real('b', h.q(1, 2), 2) if free else h.const(1)
    R2 = h.real('R2', h.q(1, 2), 2) if free else h.const(1)
    F = frames(h, 'gen'); I = frames(h, 'id')
    P = [octant(h, F, a, h.const(1), h.q(1, 2)), octant(h, I, h.q(1, 3), h.const('5/2'), None) + octant(h, I, None, None, b), octant(h, I, h.const(3), h.const(1), None)]
    ms = [h.const(2)] * 8 + [h.const(1)] * 4 + [h.const(3)] * 2 + [h.const(4)] * 4
    lists = [list(range(8)), list(range(13, 7, -1)), [14, 16, 15, 17]]
    X = [at(p) for o in P for p in o]
    return X, ms, lists, [h.const(1), h.const('3/4'), R2]


def snapshot(h, arrs): return [[v for v in (a.reshape(-1) if hasattr(a, 'reshape') else a)] for a in arrs]


def unchanged(h, arrs, before, what):
    for i, (a, b) in enumerate(zip(arrs, before)):
        h.eq(h.np.array(a).reshape(-1), h.np.array(b), '%s: array %d is not changed by the call' % (what, i))


METHODS = {}


def method(name):
    def d(f): METHODS[name] = f; return f
    return d


def fields(o, names): return [o[n] for n in names]


SH = ('d', 'q', 's', 'minor', 'inter', 'major')


@method('getMassesCenters')
def m1(h, o, s, dens): return fields(o.getMassesCenters(s), ('centre', 'mass'))


@method('sph')
def m2(h, o, s, dens): return [o.estDensProfs(h.arr([h.const(v) for v in (1, 2, 3)]), s, True, True)]


@method('kernel')
def m3(h, o, s, dens): return [o.estDensProfs(h.arr([h.const(v) for v in (1, 2)]), s, False, True)]


@method('ell')
def m4(h, o, s, dens): return [o.estDensProfs(h.arr([h.const(v) for v in (3, 4, 5)]), s, True, False, katz(h, [h.const(v) for v in (3, 4)], h.q(1, 10), 2, 5))]


@method('local')
def m5(h, o, s, dens):
    r = o.getShapeCatLocal(s, katz(h, [h.const(3), h.const(4)], h.q(1, 10), 2, 5)); return fields(r, SH) + [r['is_conv'].astype(float)]


@method('global')
def m6(h, o, s, dens):
    r = o.getShapeCatGlobal(s, katz(h, [h.const(3)], h.q(1, 10), 2, 5)); return fields(r, SH) + [r['is_conv'].astype(float)]


@method('fit')
def m7(h, o, s, dens): return fields(o.fitDensProfs(dens[list(s)] if not isinstance(s, list) else dens[s], h.arr([h.const(v) for v in (1, 2, 3)]), {'profile': 'einasto'}, s), ('rho_s', 'alpha', 'r_s'))


@method('conc')
def m8(h, o, s, dens): return [o.estConcentrations(dens[list(s)] if not isinstance(s, list) else dens[s], h.arr([h.const(v) for v in (1, 2, 3)]), {'profile': 'nfw'}, s)]


@method('vlocal')
def m9(h, o, s, dens):
    r = o.getShapeCatVelLocal(s, katz(h, [h.const(3), h.const(4)], h.q(1, 10), 2, 5)); return fields(r, SH) + [r['is_conv'].astype(float)]


@method('vglobal')
def m10(h, o, s, dens):
    r = o.getShapeCatVelGlobal(s, katz(h, [h.const(3)], h.q(1, 10), 2, 5)); return fields(r, SH) + [r['is_conv'].astype(float)]


def rows(name, aslist):
    def f(h):
        internal_units(h)
        if name in ('fit', 'conc'): stub(h)
        Eig(h, ('gen', 'id'))
        X, ms, lists, R = make(h, name not in ('kernel',))
        dens = h.reals('rho', (3, 3), h.q(1, 10), 9) if name in ('fit', 'conc') else None
        X, ms, R = h.arr(X), h.arr(ms), R
        o = dsp(h, X, ms, lists, R)
        sel = SELS[h.choice('selection', len(SELS))]
        full = METHODS[name](h, o, [0, 1, 2], dens)
        cat, sz = o.getIdxCat(); arrs = [X, ms, cat, sz, o.getR200(), o.getXYZMasses()[0], o.getXYZMasses()[1]]
        before = snapshot(h, arrs)
        got = METHODS[name](h, o, list(sel) if aslist else h.i32(sel), dens)
        for g, w in zip(got, full):
            h.true(g.shape[0] == len(sel), 'one row per selected object')
            for i, s in enumerate(sel): h.eq(g[i], w[s], 'row %d is the row of object %d' % (i, s), scale=1e-3)
        cat, sz = o.getIdxCat()
        unchanged(h, [X, ms, cat, sz, o.getR200(), o.getXYZMasses()[0], o.getXYZMasses()[1]], before, name)
        h.true(list(cat) == [i for l in lists for i in l], 'index catalogue kept')
    return f


def vrows(name):
    def f(h):
        F = Files(h)
        try:
            internal_units(h)
            Eig(h, ('gen', 'id'))
            va = h.real('va', h.q(3, 2), 4); vb = h.real('vb', h.q(1, 2), 2)
            G = frames(h, 'gen'); I = frames(h, 'id')
            P = [octant(h, G, h.const(2), h.const(1), h.q(1, 2)), octant(h, I, h.q(1, 3), h.const('5/2'), None) + octant(h, I, None, None, h.const(1)), octant(h, I, h.const(3), h.const(1), None)]
            V = [octant(h, G, h.const(1), va, h.const('1/3')), octant(h, I, vb, h.const(3), None) + octant(h, I, None, None, h.const(4)), octant(h, I, h.const(3), h.const(1), None)]
            ms = [h.const(2)] * 8 + [h.const(1)] * 4 + [h.const(3)] * 2 + [h.const(4)] * 4
            R = [h.const('3/2'), h.const(1), h.const(1)]
            snap = F.snapshot('snap_010', {1: {'POS ': h.arr([at(p) for o in P for p in o]), 'MASS': h.arr(ms), 'VEL ': h.arr([at(p, (5, -3, 8)) for o in V for p in o])}}, {'boxsize': h.const(0)})
            grp = F.groups([{'len': [[0, 8, 0, 0, 0, 0], [0, 6, 0, 0, 0, 0], [0, 4, 0, 0, 0, 0]], 'r200': R, 'nsub': [1, 1, 1], 'sub': [[0, 8, 0, 0, 0, 0], [0, 6, 0, 0, 0, 0], [0, 4, 0, 0, 0, 0]]}])
            g = gadget(h, F, snap, grp)
            sel = SELS[h.choice('selection', len(SELS))]
            full = METHODS[name](h, g, [0, 1, 2], None)
            a, b = g.getIdxCat(); before = snapshot(h, [g.getXYZMasses()[0], g.getXYZMasses()[1], g.getVelXYZ(), g.getR200()])
            got = METHODS[name](h, g, list(sel), None)
            for x, w in zip(got, full):
                h.true(x.shape[0] == len(sel), 'one row per selected object')
                for i, s in enumerate(sel): h.eq(x[i], w[s], 'row %d is the row of object %d' % (i, s), scale=1e-3)
            unchanged(h, [g.getXYZMasses()[0], g.getXYZMasses()[1], g.getVelXYZ(), g.getR200()], before, name)
        finally: F.done()
    return f


PLOTS = {
    'plotGlobalEpsHist': lambda o, s, k: o.plotGlobalEpsHist(5, s),
    'plotLocalEpsHist': lambda o, s, k: o.plotLocalEpsHist(0.5, 5, s),
    'plotLocalTHist': lambda o, s, k: o.plotLocalTHist(5, 0.5, s, k),
    'plotGlobalTHist': lambda o, s, k: o.plotGlobalTHist(5, s, k),
    'plotShapeProfs': lambda o, s, k: o.plotShapeProfs(2, s, k),
    'dumpShapeCatLocal': lambda o, s, k: o.dumpShapeCatLocal(s, k),
    'dumpShapeCatGlobal': lambda o, s, k: o.dumpShapeCatGlobal(s, k),
    'vizLocalShapes': lambda o, s, k: o.vizLocalShapes(s, k),
    'vizGlobalShapes': lambda o, s, k: o.vizGlobalShapes(s, k),
}
VPLOTS = {
    'vizGlobalShapesVel': None, 'dumpShapeVelCatLocal': lambda o, s, k: o.dumpShapeVelCatLocal(s, k), 'dumpShapeVelCatGlobal': lambda o, s, k: o.dumpShapeVelCatGlobal(s, k),
}
NB = 2


def refusal(h, call, kinds=('pair', 'empty', 'frac')):
    """call(selection): every invalid selection is refused with ValueError"""
    case = h.choice('case', 3)
    aslist = h.choice('as list', 2)
    if case == 0:
        s = h.ints('s', 2, -2, NB + 1)
        s = [int(v) for v in s]
        h.assume(s[0] < 0 or s[1] < 0 or s[0] >= NB or s[1] >= NB or s[0] == s[1])
        h.raises(ValueError, lambda: call(s if aslist else h.i32(s)), 'selection %s of %d objects is refused' % (s, NB))
    elif case == 1:
        h.raises(ValueError, lambda: call([] if aslist else h.i32([])), 'an empty selection is refused')
    else:
        x = h.real('x', 0, h.q(19, 10))
        h.assume(x > h.q(1, 10 ** 6)); h.assume(x > 1 or x < 1)
        if not h.sym: h.assume(abs(x - round(x)) > 1e-6)
        h.raises(ValueError, lambda: call([x] if aslist else h.arr([x])), 'a fractional object number is refused' + (' (list)' if aslist else ''), BAD if aslist else None)


def small(h):
    """two objects of two particles"""
    X = h.arr([[20, 20, 20], [21, 20, 20], [30, 30, 30], [30, 32, 30]]); ms = h.arr([1, 2, 3, 4])
    return dsp(h, X, ms, [[0, 1], [3, 2]], [h.const(1), h.const(1)])


def bad(name):
    def f(h):
        internal_units(h)
        if name in ('fit', 'conc'): stub(h)
        Eig(h, ('id',))
        o = small(h)
        k = katz(h, [h.const(1), h.const(2)], h.q(1, 10), 2, 3)
        dens = h.arr([[1, 2, 3], [3, 2, 1]])
        if name in METHODS:
            def call(s):
                d = dens[:1] if len(s) == 1 else dens[:len(s)]
                if name == 'fit': return o.fitDensProfs(d, h.arr([1, 2, 3]), {'profile': 'einasto'}, s)
                if name == 'conc': return o.estConcentrations(d, h.arr([1, 2, 3]), {'profile': 'nfw'}, s)
                return METHODS[name](h, o, s, None)
        elif name == 'plotDensProfs':
            def call(s):
                d = dens[:1] if len(s) == 1 else dens[:len(s)]
                return o.plotDensProfs(d, h.arr([1, 2, 3]), d, h.arr([1, 2, 3]), {'profile': 'nfw'}, 2, s)
        else:
            def call(s): return PLOTS[name](o, s, k)
        refusal(h, call)
    return f


def vbad(name):
    def f(h):
        F = Files(h)
        try:
            internal_units(h)
            Eig(h, ('id',))
            snap = F.snapshot('snap_010', {1: {'POS ': h.arr([[20, 20, 20], [21, 20, 20], [30, 30, 30], [30, 32, 30]]), 'MASS': h.arr([1, 2, 3, 4]), 'VEL ': h.arr([[1, 2, 3], [3, 2, 1], [0, 0, 1], [2, 0, 1]])}}, {'boxsize': h.const(0)})
            grp = F.groups([{'len': [[0, 2, 0, 0, 0, 0]] * 2, 'r200': [h.const(1)] * 2, 'nsub': [1, 1], 'sub': [[0, 2, 0, 0, 0, 0]] * 2}])
            g = gadget(h, F, snap, grp)
            k = katz(h, [h.const(1), h.const(2)], h.q(1, 10), 2, 3)
            refusal(h, (lambda s: METHODS[name](h, g, s, None)) if name in METHODS else (lambda s: VPLOTS[name](g, s, k)))
        finally: F.done()
    return f


def validator(h):
    """isValidSelection itself: every selection of up to three numbers for every catalogue size"""
    pr = h.load('cosmic_profiles.common.python_routines')
    nb = h.int('nb', 0, 4)
    n = h.choice('n', 3) + 1
    s = [h.int('s%d' % i, -3, 6) for i in range(n)]
    ok = True
    for i in range(n):
        if s[i] < 0: ok = False
        elif s[i] >= nb: ok = False
        for j in range(i):
            if s[i] == s[j]: ok = False
    a = h.i32(s)
    if ok: h.true(pr.isValidSelection(a, nb) is True, 'a valid selection is accepted')
    else: h.raises(ValueError, lambda: pr.isValidSelection(a, nb), 'an invalid selection is refused')


def subset(h):
    """getSubSetIdxCat: symbolic catalogue, sizes and selection"""
    pr = h.load('cosmic_profiles.common.python_routines')
    sz = [h.int('z%d' % i, 0, 2) for i in range(3)]
    sz = [int(v) for v in sz]
    N = sum(sz)
    cat = [h.int('c%d' % i, 0, 9) for i in range(N)]
    sel = [[2, 0], [1], [0, 1, 2], [2, 1, 0]][h.choice('sel', 4)]
    off = [0, sz[0], sz[0] + sz[1], N]
    want = [c for p in sel for c in cat[off[p]:off[p + 1]]]
    got = pr.getSubSetIdxCat(h.i32(cat), h.i32(sz), h.i32(sel))
    h.true(len(got) == len(want), 'length of the sub-catalogue')
    for i, w in enumerate(want): h.eq(got[i], w, 'entry %d' % i)


HARNESSES = []
for n in ('getMassesCenters', 'sph', 'kernel', 'ell', 'local', 'global', 'fit', 'conc'):
    HARNESSES.append(H('rows %s' % n, rows(n, True), '3 objects of 8, 6, 4 particles, %s symbols, 8 selections as lists; data unchanged' % ('9 profile value' if n in ('fit', 'conc') else '3')))
HARNESSES += [H('rows array %s' % n, rows(n, False), 'the same, selection as an integer array') for n in ('getMassesCenters', 'global')]
HARNESSES += [H('rows %s' % n, vrows(n), 'Gadget object, 3 objects, 2 velocities free, 8 selections') for n in ('vlocal', 'vglobal')]
HARNESSES += [H('refuse %s' % n, bad(n), '2 objects; every pair of numbers in [-2,3], the empty selection, every fractional number, as list and array') for n in
              ('getMassesCenters', 'sph', 'kernel', 'ell', 'local', 'global', 'fit', 'conc', 'plotDensProfs') + tuple(PLOTS)]
HARNESSES += [H('refuse %s' % n, vbad(n), 'Gadget object') for n in ('vlocal', 'vglobal', 'dumpShapeVelCatLocal', 'dumpShapeVelCatGlobal')]
HARNESSES += [H('isValidSelection', validator, '1-3 numbers in [-3,6], catalogue size 0..4, all symbolic'), H('getSubSetIdxCat', subset, 'three objects of 0-2 particles, index catalogue symbolic, 4 selections')]
OUTSIDE = 'more than three objects; what plot and viz calls draw for a valid selection (only their refusal of invalid ones is covered); integer-valued float arrays (refused with IndexError by numpy)'
ASSUMPTIONS = ['fits: the minimiser is replaced by a fixed function of its arguments on both sides']
