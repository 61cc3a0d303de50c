"""C16 a dumped shape catalogue reloads as the same catalogue"""
from cysym.runner import H
from shapes import *
from c07 import place
from gadgetfiles import Files, gadget

FIELDS = ('d', 'q', 's'); AXES = ('minor', 'inter', 'major')


def el(h, got, want, what):
    if h.isnan(want): return h.true(h.isnan(got), what + ' is NaN')
    h.true(not h.isnan(got), what + ' is not NaN')
    h.eq(got, want, what, tol=3e-7)


def same(h, got, want, tag):
    """structured arrays of getShapeCat*"""
    h.true(tuple(got.shape) == tuple(want.shape), tag + 'shape of the catalogue')
    for ix in index(want.shape):
        g, w = got[ix], want[ix]
        for k in FIELDS: el(h, g[k], w[k], '%s%s%r' % (tag, k, ix))
        for k in AXES:
            for c in range(3): el(h, g[k][c], w[k][c], '%s%s%r[%d]' % (tag, k, ix, c))
        h.true(bool(g['is_conv']) == bool(w['is_conv']), tag + 'is_conv')


def index(shape):
    import itertools
    return [t if len(t) > 1 else t[0] for t in itertools.product(*[range(n) for n in shape])]


def objects(h, free):
    """three small objects (the last has too few particles for a shape) -> positions, masses, index lists, radii"""
    a = h.real('a', 2, 3) if 'a' in free else h.const('5/2')
    G = [[h.const(x) for x in row] for row in FRAMES['gen']]; I = [[h.const(x) for x in row] for row in FRAMES['id']]
    P = [octant(h, G, h.const(2), h.const(1), h.q(1, 2)), octant(h, I, a, h.const(1), None) + octant(h, I, None, None, h.q(1, 2)), octant(h, I, h.const(1), None, None)]
    M = [h.real('m', h.q(1, 2), 4) if 'm' in free else h.const(2)] * 8 + [h.const(1)] * 4 + [h.const(3)] * 2 + [h.const(1)] * 2
    R = [h.const(1), h.const('5/4'), h.const(1)]
    L = [list(range(8)), list(range(8, 14)), [14, 15]]
    return P[0] + P[1] + P[2], M, L, R


def out_units(h, cfg, free=True, tag=''):
    cfg.updateInUnitSystem('Mpc/h', 'E+10Msun/h', 1e5, 0.5)
    L, M, V = cfg.getLMVInternal()
    lo = h.real('lo' + tag, h.q(1, 8), 8) if free else h.const(3); mo = h.const(7)
    cfg.updateOutUnitSystem(lo * L, mo * M, 1e5, 0.5)
    return lo, mo


def eigh(h): return Eig(h, ('gen', 'id'))


SETTING = dict(tol='1/10', wall=2, mn=3, reduced=False, shell=False, r=('3', '5'))


def cat(h, **k):
    s = dict(SETTING); s.update(k)
    return katz(h, [h.const(x) for x in s['r']], h.const(s['tol']) if isinstance(s['tol'], str) else s['tol'], s['wall'], s['mn'], s['reduced'], s['shell'])


def get(o, kind, sel, k): return getattr(o, 'getShapeCat' + {'local': 'Local', 'global': 'Global', 'vlocal': 'VelLocal', 'vglobal': 'VelGlobal'}[kind])(list(sel), k)
def dump(o, kind, sel, k): return getattr(o, 'dumpShape' + {'local': 'CatLocal', 'global': 'CatGlobal', 'vlocal': 'VelCatLocal', 'vglobal': 'VelCatGlobal'}[kind])(list(sel), k)


def files(h, o, kind, sel, want, lo, mo, snap='001', suffix='_'):
    """what the files of the catalogue say, in the output units"""
    import numpy
    def rd(q): return h.np.loadtxt('%s/%s_%s%s%s.txt' % (h.scratch() + '/cat', q, kind.lstrip('v'), suffix, snap))
    n = len(sel); flat_n = 1
    for x in want.shape: flat_n *= x
    rows = [want[ix] for ix in index(want.shape)]
    for k in FIELDS:
        v = h.np.reshape(rd(k), (flat_n,))
        for i, w in enumerate(rows): el(h, v[i], w[k], 'file of %s, entry %d' % (k, i))
    for k in AXES:
        v = h.np.reshape(rd(k), (flat_n, 3))
        for i, w in enumerate(rows):
            for c in range(3): el(h, v[i][c], w[k][c], 'file of %s, entry %d[%d]' % (k, i, c))
    mc = o.getMassesCenters(list(sel))
    m = h.np.reshape(rd('m'), (n,)); ce = h.np.reshape(rd('centers'), (n, 3))
    for i in range(n):
        el(h, m[i], mc['mass'][i], 'file of masses, entry %d' % i)
        for c in range(3): el(h, ce[i][c], mc['centre'][i][c], 'file of centers, entry %d[%d]' % (i, c))


def reload(kind, sel, r=('3', '5'), free=('a',), unit=True, twice=False, **kk):
    """get, dump, get"""
    def f(h):
        cfg = h.load('cosmic_profiles.common.config')
        lo, mo = out_units(h, cfg, unit)
        eigh(h)
        pts, M, L, R = objects(h, free)
        dp = dsp(h, place(h, pts), h.arr(M), L, R)
        k = cat(h, r=r, **kk)
        want = get(dp, kind, sel, k)
        h.true(len(want) == len(sel), 'one row per object')
        dump(dp, kind, sel, k)
        same(h, get(dp, kind, sel, k), want, 'reloaded: ')
        files(h, dp, kind, sel, want, lo, mo)
        if twice:
            dump(dp, kind, sel, k)
            same(h, get(dp, kind, sel, k), want, 'dumped again: ')
            files(h, dp, kind, sel, want, lo, mo)
            same(h, get(dsp(h, place(h, pts), h.arr(M), L, R), kind, sel, k), want, 'another analysis object: ')
    return f


def other(kind, A, B, ka={}, kb={}, unit=None, both=False):
    """a catalogue dumped for one selection or setting is not taken for another one"""
    def f(h):
        cfg = h.load('cosmic_profiles.common.config')
        out_units(h, cfg, False)
        eigh(h)
        pts, M, L, R = objects(h, ('a',))
        dp = dsp(h, place(h, pts), h.arr(M), L, R)
        k1, k2 = cat(h, **ka), cat(h, **kb)
        wa = get(dp, kind, A, k1); wb = get(dp, kind, B, k2)
        if unit:        # dumped in other output units
            out_units(h, cfg, True, '2'); wa = get(dp, kind, A, k1)
        dump(dp, kind, A, k1)
        if unit: out_units(h, cfg, False)
        same(h, get(dp, kind, B, k2), wb, 'not dumped: ')
        if both:
            dump(dp, kind, B, k2)
            same(h, get(dp, kind, B, k2), wb, 'dumped last: ')
            same(h, get(dp, kind, A, k1), wa, 'dumped first: ')
    return f


class Full(OSError): pass


class Disk:
    """numpy with a disk that is full from the k-th file on; of that file nothing or only a part is written"""
    def __init__(self, np, k, part): self._np, self._k, self._part, self._n = np, k, part, 0
    def __getattr__(self, n): return getattr(self._np, n)
    def savetxt(self, fname, X, *a, **k):
        self._n += 1
        if self._n > self._k:
            if self._part: self._np.savetxt(fname, X[:len(X) // 2], *a, **k)
            raise Full()
        self._np.savetxt(fname, X, *a, **k)


def interrupted(kind, A, B, part, n=9, unit=False):
    """a dump that did not get further than some point, after another one that was completed"""
    def f(h):
        cfg = h.load('cosmic_profiles.common.config')
        out_units(h, cfg, False)
        eigh(h)
        pts, M, L, R = objects(h, ('m',))
        dp = dsp(h, place(h, pts), h.arr(M), L, R)
        k = cat(h)
        wa = get(dp, kind, A, k); wb = get(dp, kind, B, k)
        at = h.int('files', 0, n)
        dump(dp, kind, A, k)
        mod = h.load('cosmic_profiles.common.cosmic_base_class')
        np = mod.np
        if unit: out_units(h, cfg, True, '2'); wa = get(dp, kind, A, k); wb = get(dp, kind, B, k)
        try:
            mod.np = Disk(np, at, part)
            dump(dp, kind, B, k)
        except Full: pass
        finally: mod.np = np
        same(h, get(dp, kind, B, k), wb, 'dump interrupted: ')
        same(h, get(dp, kind, A, k), wa, 'dumped before: ')
        dump(dp, kind, B, k)
        same(h, get(dp, kind, B, k), wb, 'dump completed: ')
    return f


def kinds(order, sel=(0, 1), again=False):
    """the four kinds of catalogue of one snapshot in one directory"""
    def f(h):
        F = Files(h)
        try:
            lo, mo = out_units(h, h.load('cosmic_profiles.common.config'), again) if again else (internal_units(h), None)
            eigh(h)
            va = h.const(2) if again else h.real('va', h.q(3, 2), 4)
            G = [[h.const(x) for x in row] for row in FRAMES['gen']]; I = [[h.const(x) for x in row] for row in FRAMES['id']]
            P = [octant(h, I, h.const(1), h.const(2), h.q(1, 2)), octant(h, G, h.const(2), h.const(1), h.q(1, 2))]
            V = [octant(h, I, h.const(1), h.const(2), h.const(3)), octant(h, G, h.const(1), va, h.const('1/3'))]
            snap = F.snapshot('snap_010', {1: {'POS ': h.arr([at(p) for p in P[0] + P[1]]), 'MASS': h.arr([h.const(2)] * 16), 'VEL ': h.arr([at(p, (5, -3, 8)) for p in V[0] + V[1]])}}, {'boxsize': h.const(0)})
            grp = F.groups([{'len': [[0, 8, 0, 0, 0, 0]] * 2, 'r200': [h.const('3/2'), h.const(1)], 'nsub': [1, 1], 'sub': [[0, 8, 0, 0, 0, 0]] * 2}])
            g = gadget(h, F, snap, grp)
            k = cat(h)
            want = {x: get(g, x, sel, k) for x in order}
            for i, x in enumerate(order):
                dump(g, x, sel, k)
                for y in order[i + 1:]: same(h, get(g, y, sel, k), want[y], '%s, after %s was dumped: ' % (y, x))
            for x in order: same(h, get(g, x, sel, k), want[x], x + ', after all were dumped: ')
            if again:
                for x in order:
                    dump(g, x, sel, k)
                    for y in order: files(h, g, y, sel, want[y], lo, mo, '010', '_vdm_' if y[0] == 'v' else '_dm_')
        finally: F.done()
    return f


def density(A, B, ka={}, shape_r=('2', '3', '5')):
    """ellipsoidal density profiles do not depend on which catalogue lies on disk"""
    def f(h):
        internal_units(h)
        eigh(h)
        pts, M, L, R = objects(h, ('m',))
        dp = dsp(h, place(h, pts), h.arr(M), L, R)
        k = cat(h, r=shape_r)
        r = h.arr([h.const(x) for x in shape_r])
        want = dp.estDensProfs(r, list(B), True, False, k)
        dump(dp, 'local', A, cat(h, r=shape_r, **ka))
        got = dp.estDensProfs(r, list(B), True, False, k)
        h.true(tuple(got.shape) == tuple(want.shape), 'one profile per object')
        for i in range(len(B)):
            for j in range(len(shape_r)): el(h, got[i][j], want[i][j], 'density of object %d, radius %d' % (i, j))
    return f


HARNESSES = []
for k in ('local', 'global'):
    HARNESSES += [
        H(k + ' objects', reload(k, [0, 1]), 'two objects, two radii; output length unit and one coordinate symbolic'),
        H(k + ' order', reload(k, [1, 0], twice=True), 'other order; dumped and loaded twice'),
        H(k + ' one object', reload(k, [1]), 'one object'),
        H(k + ' NaN', reload(k, [2, 0], free=('m',)), 'an object without a shape; one mass symbolic'),
        H(k + ' only NaN', reload(k, [2]), 'only an object without a shape'),
        H(k + ' one radius', reload(k, [0, 1], r=('5',)), 'one radius'),
        H(k + ' one each', reload(k, [1], r=('5',)), 'one object, one radius'),
        H(k + ' some NaN', reload(k, [0, 1, 2], r=('1', '3', '5'), tol='1/2', free=()), 'three objects, three radii, NaN inside a row'),
        H(k + ' subset', other(k, [0, 1], [1]), 'dumped for two objects, asked for one'),
        H(k + ' superset', other(k, [1], [0, 1], both=True), 'dumped for one object, asked for two'),
        H(k + ' other object', other(k, [0], [1], both=True), 'dumped for another object'),
        H(k + ' other order', other(k, [0, 1], [1, 0], both=True), 'dumped in another order'),
        H(k + ' tolerance', other(k, [0, 1], [0, 1], {}, {'wall': 1}), 'dumped with another IT_WALL'),
        H(k + ' reduced', other(k, [0, 1], [0, 1], {'reduced': False, 'tol': '99/100'}, {'reduced': True, 'tol': '99/100'}), 'dumped with another tensor'),
        H(k + ' minimum', other(k, [0, 1], [0, 1], {'mn': 7}, {'mn': 3}, both=True), 'dumped with another IT_MIN'),
        H(k + ' interrupted', interrupted(k, [0, 1], [1, 0], False), 'disk full at a symbolic file of the dump (0 to 9), after a completed dump of the same size'),
        H(k + ' interrupted file', interrupted(k, [1], [0], True), 'as before, with a part of that file written', tier='quick' if k == 'local' else 'thorough'),
        H(k + ' interrupted units', interrupted(k, [0], [0], False, unit=True), 'as before, dumped again in other output units', tier='thorough'),
        H(k + ' units', other(k, [0, 1], [0, 1], unit=True), 'dumped in other output units'),
    ]
HARNESSES += [
    H('local radii', other('local', [0, 1], [0, 1], {'r': ('3', '5')}, {'r': ('4', '5')}, both=True), 'dumped for other radii'),
    H('local more radii', other('local', [0], [0], {'r': ('3', '4', '5')}, {'r': ('3', '5')}), 'dumped for more radii'),
    H('local shells', other('local', [0, 1], [0, 1], {'shell': False, 'tol': '99/100'}, {'shell': True, 'tol': '99/100'}), 'dumped for ellipsoids, asked for shells'),
    H('kinds 1', kinds(('local', 'global', 'vlocal', 'vglobal')), 'position and velocity catalogues of a snapshot, one velocity symbolic'),
    H('kinds again', kinds(('global', 'vglobal', 'vlocal', 'local'), again=True), 'every catalogue dumped again after it was reloaded; output length unit symbolic'),
    H('kinds 2', kinds(('vglobal', 'vlocal', 'global', 'local')), 'reverse order'),
    H('density same', density([0, 1], [0, 1]), 'ellipsoidal density profiles with the catalogue reloaded'),
    H('density subset', density([0, 1], [1]), 'ellipsoidal density profile of one of the objects dumped'),
    H('density settings', density([0, 1], [0, 1], {'wall': 1}), 'ellipsoidal density profiles, catalogue of other settings on disk'),
]
OUTSIDE = 'changing the particles, but not the objects\' index lists, sizes and R200, between dump and get; another process reading or writing in the middle of a dump; catalogues of two snapshots with the same SNAP in one directory'
ASSUMPTIONS = ['numpy savetxt and loadtxt round-trip values to the printed precision (the shapes are those of the real functions)', 'LAPACK zheevr returns the ascending eigenvalues and an orthonormal eigenbasis']
