"""C02 masses and centres"""
from cysym.runner import H
from common import *

ALG = 'cosmic_profiles.dens_profs.dens_profs_algos'


def wmean(h, pts, ms):
    M = ms[0]
    for m in ms[1:]: M = M + m
    return [sum_(h, [m * p[k] for m, p in zip(ms, pts)]) / M for k in range(3)]


def com(lists):
    def f(h):
        alg = h.load(ALG)
        n = 1 + max(max(l) for l in lists)
        xyz = h.reals('x', (n, 3), 0, 40); ms = h.reals('m', n, pos=True, hi=50)
        cat = [i for l in lists for i in l]
        c, m = alg.calcMassesCenters(xyz, ms, h.i32(cat), h.i32([len(l) for l in lists]), 0.0, 'com')
        for o, l in enumerate(lists):
            h.eq(m[o], sum_(h, [ms[i] for i in l]), 'mass of object %d is the sum of its particle masses' % o)
            ref = wmean(h, [xyz[i] for i in l], [ms[i] for i in l])
            for k in range(3): h.eq(c[o, k], ref[k], 'centre of mass of object %d, axis %d' % (o, k))
    return f


def com_symbolic_index(h):
    """the index list itself is symbolic"""
    alg = h.load(ALG)
    n = 4
    xyz = h.reals('x', (n, 3), 0, 40); ms = h.reals('m', n, pos=True, hi=50)
    cat = h.ints('i', 3, 0, n - 1)
    l = [int(v) for v in cat]
    h.assume(l[0] != l[1])
    c, m = alg.calcMassesCenters(xyz, ms, h.i32(l), h.i32([2, 1]), 0.0, 'com')
    h.eq(m[0], ms[l[0]] + ms[l[1]], 'mass of object 0'); h.eq(m[1], ms[l[2]], 'mass of object 1')
    ref = wmean(h, [xyz[l[0]], xyz[l[1]]], [ms[l[0]], ms[l[1]]])
    for k in range(3):
        h.eq(c[0, k], ref[k], 'centre of object 0'); h.eq(c[1, k], xyz[l[2], k], 'centre of a one-particle object')


def com_unbounded(h):
    """any sign of the coordinates (box size 0 leaves the coordinates alone)"""
    alg = h.load(ALG)
    xyz = h.reals('x', (2, 3)); ms = h.reals('m', 2, pos=True)
    for i in range(2):
        for k in range(1, 3): h.assume(xyz[i, k] >= 0)
    c, m = alg.calcMassesCenters(xyz, ms, h.i32([0, 1]), h.i32([2]), 0.0, 'com')
    ref = wmean(h, [xyz[0], xyz[1]], [ms[0], ms[1]])
    for k in range(3): h.eq(c[0, k], ref[k], 'centre, axis %d' % k, scale=1)
    h.eq(m[0], ms[0] + ms[1], 'mass')


def refmode(h, pts, ms, rad, levels):
    act = list(range(len(ms)))
    for _ in range(levels):
        c = wmean(h, [pts[i] for i in act], [ms[i] for i in act])
        keep = []
        for i in act:
            d2 = (pts[i][0] - c[0]) ** 2 + (pts[i][1] - c[1]) ** 2 + (pts[i][2] - c[2]) ** 2
            if d2 < rad * rad: keep.append(i)
        if len(keep) < 5: return c
        act = keep
        rad = rad * h.q(83, 100)
    h.assume(False)


def mode(n, sym, levels, symm=()):
    """n particles along a line and off it, positions listed in sym are free"""
    base = [[10, 20, 5], [640, 0, 0], [-250, 100, 40], [300, -90, 70], [90, 410, -60], [-520, 30, 880], [55, 66, 77]][:n]

    def f(h):
        alg = h.load(ALG)
        pts = [[h.const(v + 1000) for v in b] for b in base]
        for i in sym: pts[i][0] = h.real('x_%d' % i, 0, 4000)
        ms = [h.const(1 + i % 3) for i in range(n)]
        for i in symm: ms[i] = h.real('m_%d' % i, h.q(1, 10), 40)
        ref = refmode(h, pts, ms, h.const(1000), levels)
        c, m = alg.calcMassesCenters(h.arr(pts), h.arr(ms), h.i32(range(n)), h.i32([n]), 0.0, 'mode')
        for k in range(3): h.eq(c[0, k], ref[k], 'mode centre, axis %d' % k, tol=1e-6)
        h.eq(m[0], sum_(h, ms), 'mass does not depend on the centre definition')
    return f


SA = 'cosmic_profiles.shape_profs.shape_profs_algos'
LONG = [[900, 40, 5], [640, 310, 0], [-250, 100, 140], [300, -90, 70], [90, 210, -60], [-520, 30, -180], [-700, -266, 77]]


def shape_centres(kind, axis):
    """the centres that come with the shapes: a sphere that starts with the greatest extent of the object"""
    def f(h):
        al = h.load(SA)
        def obj(place, long_, sym=False):
            perm = [(0, 1, 2), (1, 0, 2), (1, 2, 0)][long_]
            pts = [[h.const(b[perm[k]] + place[k]) for k in range(3)] for b in LONG]
            if sym: pts[2][long_] = h.real('x', place[long_] - 600, place[long_] + 800)
            return pts
        O = [obj(((5000, 2000, 3500), (1200, 4100, 2600), (3100, 1700, 6000))[a], a, a == axis) for a in range(3)]
        ms = [h.const(1 + i % 3) for i in range(7)]
        def extent(pts):
            e = h.const(0)
            for k in range(3):
                for p in pts:
                    for o in pts:
                        if p[k] - o[k] > e: e = p[k] - o[k]
            return e
        ref = [refmode(h, pts, ms, extent(pts), 12) for pts in (O[1], O[0], O[2])]
        X = h.arr(O[0] + O[1] + O[2]); M = h.arr(ms * 3); R = h.arr([h.const(1)] * 3)
        cat = (h.i32(list(range(7, 14)) + list(range(7)) + list(range(14, 21))), h.i32([7, 7, 7]), 0.0)
        t = 0.01; wall = 5; mn = 100
        V = h.arr([[h.const((i * 7 + k * 3) % 5) for k in range(3)] for i in range(21)])
        if kind == 'local': o = al.calcMorphLocal(X, M, R, *cat, h.arr([1]), t, wall, mn, 'mode', False, False)
        elif kind == 'global': o = al.calcMorphGlobal(X, M, R, *cat, t, wall, mn, 'mode', 6.0, False)
        elif kind == 'vlocal': o = al.calcMorphLocalVelDisp(X, V, M, R, *cat, h.arr([1]), t, wall, mn, 'mode', False, False)
        else: o = al.calcMorphGlobalVelDisp(X, V, M, R, *cat, t, wall, mn, 'mode', 6.0, False)
        for p in range(3):
            for k in range(3): h.eq(o[6][p][k], ref[p][k], 'mode centre of object %d, axis %d' % (p, k), tol=1e-6)
            h.eq(o[7][p], sum_(h, ms), 'mass of object %d' % p)
    return f


def api(center):
    """through DensShapeProfs.getMassesCenters (constructor filter, selection, units)"""
    def f(h):
        internal_units(h)
        xyz = h.reals('x', (4, 3), 0, 40); ms = h.reals('m', 4, pos=True, hi=50) if center == 'com' else h.arr([2, 3, 7, 5])
        lists = [[3, 1], [0], [2, 1, 0]]
        dp = dsp(h, xyz, ms, lists, [1, 1, 1], CENTER=center)
        o = dp.getMassesCenters([2, 0])
        for row, ob in enumerate((2, 0)):
            l = lists[ob]
            h.eq(o['mass'][row], sum_(h, [ms[i] for i in l]), 'mass of selected object %d' % ob)
            ref = wmean(h, [xyz[i] for i in l], [ms[i] for i in l])
            for k in range(3): h.eq(o['centre'][row][k], ref[k], 'centre of selected object %d' % ob)
    return f


HARNESSES = [
    H('com[overlap]', com([[0, 1], [2], [3, 1, 0]]), '4 particles, 3 overlapping objects of 2, 1, 3 particles, all positions in [0,40], all masses in (0,50]'),
    H('com[reversed]', com([[2, 0], [1, 3]]), '4 particles, 2 objects, index lists out of order'),
    H('com[symbolic index list]', com_symbolic_index, '4 particles, objects of 2 and 1 particles, every index list without repeats inside an object'),
    H('com[unbounded x]', com_unbounded, '2 particles, any real x coordinate'),
    H('mode[5,x]', mode(5, [1], 4), '5 particles, one coordinate free in [0,4000], up to 4 shrink steps'),
    H('mode[6,m]', mode(6, [], 4, [1]), '6 particles, one mass free in [0.1,40], up to 4 shrink steps'),
    H('mode[6,x m]', mode(6, [1], 4, [0]), '6 particles, one coordinate in [0,4000] and one mass free, up to 4 shrink steps', tier='thorough', budget=150),
    H('mode[7,x]', mode(7, [2], 4), '7 particles, one coordinate free, up to 4 shrink steps'),
    H('mode[7,x x]', mode(7, [1, 2], 4), '7 particles, two coordinates free, up to 4 shrink steps', tier='thorough', budget=300),
    H('getMassesCenters[com]', api('com'), 'DensShapeProfs API, 4 particles, 3 objects, selection [2,0]'),
    H('getMassesCenters[mode<5]', api('mode'), 'DensShapeProfs API, mode centre with fewer than five particles'),
    H('mode[7,3 free]', mode(7, [1, 2, 5], 6), '7 particles, three coordinates free, up to 6 shrink steps', tier='thorough', budget=400),
]
for _k, _a in (('local', 0), ('global', 1), ('vlocal', 1), ('vglobal', 0)):
    HARNESSES.append(H('centres %s %s' % (_k, 'xyz'[_a]), shape_centres(_k, _a), 'three objects of 7 particles, long along x, y and z; one coordinate along %s free over 1400, up to 12 shrink steps' % 'xyz'[_a]))
OUTSIDE = 'more than 7 particles per object; shrink sequences longer than the stated number of steps'
ASSUMPTIONS = []
