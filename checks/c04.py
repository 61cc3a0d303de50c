"""C04 spherical direct-binning density profiles"""
from cysym.runner import H
from common import *


def edges(h, r):
    n = len(r)
    return [h.q(1, 10 ** 8)] + [(r[i] + r[i + 1]) / 2 for i in range(n - 1)] + [r[n - 1]]


def check_profile(h, dens, ds2, ms, r200, r, tag=''):
    """every particle in exactly the bin [lower, upper) containing its distance; value = mass / shell volume.
    ds2: squared distances"""
    e = [x * r200 for x in edges(h, r)]
    nb = len(r)
    tot = [0] * nb; cnt = [0] * nb
    for d2, m in zip(ds2, ms):
        for b in range(nb):
            if d2 >= e[b] * e[b]:
                if d2 < e[b + 1] * e[b + 1]:
                    tot[b] = tot[b] + m; cnt[b] += 1
    for b in range(nb):
        vol = h.q(4, 3) * h.pi * (e[b + 1] ** 3 - e[b] ** 3)
        if cnt[b] == 0: h.eq(dens[b], 0, '%sempty bin %d has density 0' % (tag, b))
        else: h.eq(dens[b], tot[b] / vol, '%sbin %d: mass of its particles over shell volume' % (tag, b))


def est(h, dp, r, objs, spherical=True, direct=True):
    return dp.estDensProfs(h.arr(r), objs, direct, spherical)


def line(n, nb, r200sym=False, rsym=False):
    """n particles: one symmetric pair per free distance along an axis (centre of mass fixed by a constant pair)"""
    def f(h):
        internal_units(h)
        u = [h.real('u%d' % i, 0, 12) for i in range(n)]
        xyz = []; ms = []; d2 = []
        for i in range(n):
            for s in (1, -1):
                p = [20, 20, 20]; p[i % 3] = 20 + s * u[i]
                xyz.append(p); ms.append(1 + i); d2.append(u[i] * u[i])
        r200 = h.real('R', h.q(1, 2), 8) if r200sym else h.const(1)
        if rsym:
            r = [h.real('r0', h.q(1, 4), 2)]
            for i in range(1, nb):
                x = h.real('r%d' % i, h.q(1, 4), 9); h.assume(x > r[-1]); r.append(x)
        else: r = [h.const(i + 1) for i in range(nb)]
        dp = dsp(h, h.arr(spread(xyz)), h.arr(ms), [list(range(2 * n))], [r200])
        out = est(h, dp, r, [0])
        h.true(out.shape == (1, nb), 'one row per object, one column per radius')
        check_profile(h, out[0], d2, [h.const(m) for m in ms], r200, r)
    return f


def free3d(h):
    """two particles anywhere, one object, any R200"""
    internal_units(h)
    xyz = h.reals('x', (2, 3), 0, 10)
    r200 = h.const(1)
    ms = [h.const(3), h.const(1)]
    r = [h.const(v) for v in ('1/2', '1', '3', '5')]
    dp = dsp(h, xyz, h.arr(ms), [[0, 1]], [r200])
    c = [(3 * xyz[0, k] + xyz[1, k]) / 4 for k in range(3)]
    out = est(h, dp, r, [0])
    check_profile(h, out[0], [dist2(xyz[0], c), dist2(xyz[1], c)], ms, r200, r)


def masses(h):
    """any masses, any centre of mass along a line (distances depend on the masses)"""
    internal_units(h)
    ms = h.reals('m', 3, h.q(1, 10), 20)
    pos = [1, 5, 8]
    r = [h.const(v) for v in (1, 2, 4)]
    dp = dsp(h, h.arr([[p, 2, 2] for p in pos]), ms, [[0, 1, 2]], [h.const(1)])
    M = ms[0] + ms[1] + ms[2]
    c = (pos[0] * ms[0] + pos[1] * ms[1] + pos[2] * ms[2]) / M
    out = est(h, dp, r, [0])
    check_profile(h, out[0], [(p - c) ** 2 for p in pos], list(ms), h.const(1), r)


def symm(h):
    """masses free, distances fixed (pairs)"""
    internal_units(h)
    m = h.reals('m', 3, pos=True, hi=20)
    ms = [m[0], m[0], m[1], m[1], m[2], m[2]]
    xyz = [[20 + s * d, 20, 20] for d in (1, h.q(3, 2), h.q(12, 5)) for s in (1, -1)]
    R = h.real('R', h.q(1, 2), 3)
    r = [h.const(v) for v in (1, 2, 3)]
    dp = dsp(h, h.arr(spread(xyz)), h.arr(ms), [list(range(6))], [R])
    out = est(h, dp, r, [0])
    d = [h.const(1), h.const(1), h.q(3, 2), h.q(3, 2), h.q(12, 5), h.q(12, 5)]
    check_profile(h, out[0], [x * x for x in d], ms, R, r)


def two_objects(sel, sizes):
    """objects of different size with their own R200, selection in another order; particles may be shared"""
    def f(h):
        internal_units(h)
        u = [h.real('u%d' % i, 0, 12) for i in range(2)]
        xyz = [[20 + u[0], 20, 20], [20 - u[0], 20, 20], [20, 20 + u[1], 20], [20, 20 - u[1], 20], [20, 20, 23], [20, 20, 17], [20, 20, 20]]
        ms = [2, 2, 3, 3, 5, 5, 7]
        R = [h.const(1), h.const('3/2'), h.const(3)]
        lists = [[[6, 4, 5], [0, 1], [2, 3, 0, 1, 6]], [[0, 1, 2, 3, 6], [4, 5], [3, 2]]][sizes]
        dd = [u[0] * u[0], u[0] * u[0], u[1] * u[1], u[1] * u[1], h.const(9), h.const(9), h.const(0)]
        r = [h.const(v) for v in (1, 3)]
        dp = dsp(h, h.arr(spread(xyz)), h.arr(ms), lists, R)
        out = est(h, dp, r, sel)
        h.true(out.shape == (len(sel), 2), 'shape of the result')
        for row, o in enumerate(sel):
            check_profile(h, out[row], [dd[i] for i in lists[o]], [h.const(ms[i]) for i in lists[o]], R[o], r, 'object %d: ' % o)
    return f


def mode5(h):
    """centre = mode, with five or more particles"""
    internal_units(h)
    u = h.real('u', 0, 12)
    xyz = [[20 + u, 20, 20], [20 - u, 20, 20], [20, 22, 20], [20, 18, 20], [20, 20, 21], [20, 20, 19]]
    r = [h.const(v) for v in (1, 2, 4)]
    # everything stays within a few Mpc of the centre: the shrinking sphere keeps a symmetric set
    dp = dsp(h, h.arr(spread(xyz)), h.arr([1, 1, 2, 2, 3, 3]), [list(range(6))], [h.const(1)], CENTER='mode')
    out = est(h, dp, r, [0])
    check_profile(h, out[0], [u * u, u * u, h.const(4), h.const(4), h.const(1), h.const(1)], [h.const(v) for v in (1, 1, 2, 2, 3, 3)], h.const(1), r)


def total(h):
    """bins times volumes add up to the mass inside the last edge: no particle lost or doubled"""
    internal_units(h)
    u = [h.real('u%d' % i, h.q(1, 100), 12) for i in range(3)]
    R = h.real('R', h.q(1, 2), 4)
    xyz = [[20, 20, 20 + s * x] for x in u for s in (1, -1)]
    r = [h.const(v) for v in (1, 2, 3)]
    dp = dsp(h, h.arr(spread(xyz)), h.arr([1, 1, 2, 2, 4, 4]), [list(range(6))], [R])
    out = est(h, dp, r, [0])
    e = [x * R for x in edges(h, r)]
    got = 0
    for b in range(3): got = got + out[0][b] * h.q(4, 3) * h.pi * (e[b + 1] ** 3 - e[b] ** 3)
    exp = h.const(0)
    for x, m in zip(u, (2, 4, 8)):
        if x < e[3]: exp = exp + m
    h.eq(got, exp, 'mass inside the last edge is conserved')


HARNESSES = [
    H('line[2,3]', line(2, 3), '4 particles in 2 pairs, distances free in [0,12], R200 = 1, radii 1,2,3: exact bin edges included'),
    H('line[3,3]', line(3, 3), '6 particles in 3 pairs along three axes, distances free in [0,12]'),
    H('line[2,3,R]', line(2, 3, True), '4 particles, R200 free in [1/2,8]'),
    H('line[1,3,R,r]', line(1, 3, True, True), '2 particles, R200 and all three radii free'),
    H('line[1,1,R,r]', line(1, 1, True, True), 'a single bin, everything free'),
    H('free 3-D', free3d, '2 particles anywhere in [0,10]^3, 4 bins'),
    H('free masses', masses, '3 particles on a line, masses free in [0.1,20] (the centre moves)'),
    H('masses and R200', symm, '6 particles at fixed distances, masses and R200 free'),
    H('two objects[2,0]', two_objects([2, 0], 0), '3 objects of 3, 2, 5 particles sharing particles, selection [2,0]'),
    H('two objects[all]', two_objects([0, 1, 2], 1), '3 objects of 5, 2, 2 particles, all selected'),
    H('mode centre', mode5, '6 particles, CENTER = mode'),
    H('mass conservation', total, '6 particles, distances and R200 free'),
    H('line[4,5]', line(4, 5), '8 particles in 4 pairs, 5 bins', tier='thorough', budget=300),
    H('line[2,2,R,r]', line(2, 2, True, True), '4 particles, R200 and two radii free', tier='thorough', budget=300),
]
OUTSIDE = 'more than 8 particles or 5 bins per object; more than 3 objects at once'
ASSUMPTIONS = []
