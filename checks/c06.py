"""C06 kernel-based density profiles"""
from cysym.runner import H
from common import *

ALG = 'cosmic_profiles.dens_profs.dens_profs_algos'


def kernel_sum(h, r, dists, ms, R):
    """sum_i m_i / h_i^3 * W(r, r_i, h_i), W = Gaussian of width h_i averaged over the angles of r_i:
    W = 1/(2 (2 pi)^(3/2)) h^2/(r r_i) [exp(-(r_i-r)^2/2h^2) - exp(-(r_i+r)^2/2h^2)]"""
    s = None
    for d, m in zip(dists, ms):
        w = h.q(5, 1000) * R * h.sqrt(d / (R * h.q(1, 10)))
        t = m / w ** 3 * (w * w / (r * d)) / (2 * h.pow(2 * h.pi, h.q(3, 2))) * (h.exp(-(d - r) ** 2 / (2 * w * w)) - h.exp(-(d + r) ** 2 / (2 * w * w)))
        s = t if s is None else s + t
    return s


def est(h, dp, r, objs): return dp.estDensProfs(h.arr(r), objs, False, True)


def line(n, nr, msym=False, Rsym=True, rsym=True):
    """pairs of particles at +-u along the axes (centre of mass fixed), distances free"""
    def f(h):
        internal_units(h)
        u = [h.real('u%d' % i, h.q(1, 100), 6) for i in range(n)]
        xyz = []; ms = []; dd = []
        for i in range(n):
            m = h.real('m%d' % i, h.q(1, 10), 9) if msym else h.const(1 + 2 * i)
            for s in (1, -1):
                p = [20, 20, 20]; p[i % 3] = 20 + s * u[i]
                xyz.append(p); ms.append(m); dd.append(u[i])
        R = h.real('R', h.q(1, 2), 4) if Rsym else h.const('3/2')
        r = [h.real('r%d' % j, h.q(1, 10), 4) if rsym else h.const(j + 1) / 2 for j in range(nr)]
        dp = dsp(h, h.arr(spread(xyz)), h.arr(ms), [list(range(2 * n))], [R])
        out = est(h, dp, r, [0])
        h.true(out.shape == (1, nr), 'shape of the result')
        for j in range(nr): h.eq(out[0][j], kernel_sum(h, r[j] * R, dd, ms, R), 'kernel sum at radius %d' % j)
    return f


def free3d(h):
    """two particles anywhere: distances from the true centre of mass"""
    internal_units(h)
    xyz = h.reals('x', (2, 3), 0, 10)
    R = h.const('3/2')
    c = [(3 * xyz[0, k] + xyz[1, k]) / 4 for k in range(3)]
    d2 = [dist2(xyz[i], c) for i in range(2)]
    h.assume(d2[0] >= h.q(1, 10))
    dp = dsp(h, xyz, h.arr([3, 1]), [[0, 1]], [R])
    out = est(h, dp, [h.const(2)], [0])
    h.eq(out[0][0], kernel_sum(h, h.const(2) * R, [h.sqrt(d) for d in d2], [h.const(3), h.const(1)], R), 'kernel sum')


def two_objects(sel):
    """objects of different sizes, one particle shared: nothing of one object shows up in another"""
    def f(h):
        internal_units(h)
        u = [h.real('u%d' % i, h.q(1, 100), 6) for i in range(2)]
        m = [h.real('m%d' % i, h.q(1, 10), 9) for i in range(2)]
        xyz = [[20 + u[0], 20, 20], [20 - u[0], 20, 20], [20, 20 + u[1], 20], [20, 20 - u[1], 20], [20, 20, 23], [20, 20, 17]]
        ms = [m[0], m[0], m[1], m[1], 5, 5]
        R = [h.const(1), h.const('3/2'), h.real('R2', h.q(1, 2), 4)]
        lists = [[0, 2, 5, 1, 3, 4], [1, 0], [4, 3, 5, 2]]
        dd = [u[0], u[0], u[1], u[1], h.const(3), h.const(3)]
        r = [h.real('r0', h.q(1, 10), 4), h.const(1)]
        dp = dsp(h, h.arr(spread(xyz)), h.arr(ms), lists, R)
        out = est(h, dp, r, sel)
        h.true(out.shape == (len(sel), 2), 'shape of the result')
        for row, o in enumerate(sel):
            for j in range(2):
                h.eq(out[row][j], kernel_sum(h, r[j] * R[o], [dd[i] for i in lists[o]], [ms[i] for i in lists[o]], R[o]), 'object %d, radius %d' % (o, j))
    return f


def mode5(h):
    internal_units(h)
    u = h.real('u', h.q(1, 100), 6)
    xyz = [[20 + u, 20, 20], [20 - u, 20, 20], [20, 22, 20], [20, 18, 20], [20, 20, 21], [20, 20, 19]]
    ms = [1, 1, 2, 2, 3, 3]
    r = [h.const(1), h.const('5/2')]
    dp = dsp(h, h.arr(spread(xyz)), h.arr(ms), [list(range(6))], [h.const(1)], CENTER='mode')
    out = est(h, dp, r, [0])
    dd = [u, u, h.const(2), h.const(2), h.const(1), h.const(1)]
    for j in range(2): h.eq(out[0][j], kernel_sum(h, r[j], dd, ms, h.const(1)), 'radius %d' % j)


def linear(h):
    """twice the masses, twice the profile"""
    alg = h.load(ALG)
    u = [h.real('u%d' % i, h.q(1, 100), 6) for i in range(2)]
    m = [h.real('m%d' % i, h.q(1, 10), 9) for i in range(2)]
    k = h.real('k', h.q(1, 10), 9)
    xyz = [[20 + u[0], 20, 20], [20 - u[0], 20, 20], [20, 20 + u[1], 20], [20, 20 - u[1], 20]]
    r = h.arr([h.const(1), h.real('r1', h.q(1, 10), 4)])
    cat = h.i32(range(4)); sz = h.i32([4]); R = h.arr([h.const('3/2')])
    a = alg.calcDensProfsKernelBased(h.arr(spread(xyz)), h.arr([m[0], m[0], m[1], m[1]]), R, r, cat, sz, 0.0, 'com')
    b = alg.calcDensProfsKernelBased(h.arr(spread(xyz)), h.arr([k * m[0], k * m[0], k * m[1], k * m[1]]), R, r, cat, sz, 0.0, 'com')
    for j in range(2): h.eq(b[0][j], k * a[0][j], 'linear in the masses')


HARNESSES = [
    H('line[1,2]', line(1, 2), '2 particles, distance, R200 and both radii free'),
    H('line[2,2,m]', line(2, 2, True), '4 particles, distances, masses, R200 and radii free'),
    H('line[3,3]', line(3, 3, True), '6 particles in three directions, everything free, 3 radii'),
    H('free 3-D', free3d, '2 particles anywhere in [0,10]^3'),
    H('three objects[2,0]', two_objects([2, 0]), '3 objects of 6, 2, 4 particles sharing particles'),
    H('three objects[all]', two_objects([0, 1, 2]), '3 objects of 6, 2, 4 particles sharing particles'),
    H('three objects[1,2,0]', two_objects([1, 2, 0]), 'selection in another order'),
    H('mode centre', mode5, '6 particles, CENTER = mode'),
    H('linearity', linear, 'scaling all masses by a free factor'),
    H('line[6,4]', line(6, 4, True), '12 particles, everything free, 4 radii', tier='thorough', budget=200),
]
OUTSIDE = 'particles exactly at the centre (kernel width 0); exp and sqrt are uninterpreted apart from their algebraic laws'
ASSUMPTIONS = []
