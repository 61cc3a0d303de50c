"""C05 ellipsoidal density profiles"""
from cysym.runner import H
from common import *

ALG = 'cosmic_profiles.dens_profs.dens_profs_algos'
FRAMES = {
    'id': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    'perm': [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    'rot': [['3/5', '4/5', 0], ['-4/5', '3/5', 0], [0, 0, 1]],
    'gen': [['2/3', '2/3', '1/3'], ['-2/3', '1/3', '2/3'], ['1/3', '-2/3', '2/3']],
}


def frame(h, name): return [[h.const(v) for v in row] for row in FRAMES[name]]


def edges(h, r):
    n = len(r)
    mid = [(r[i] + r[i + 1]) / 2 for i in range(n - 1)]
    return [mid[0] * mid[0] / mid[1]] + mid + [r[n - 1]]


def lin(h, xs, ys, x):
    """piecewise linear through (xs, ys), the end pieces continued"""
    k = 0
    for i in range(1, len(xs) - 1):
        if x > xs[i]: k = i
    return ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (xs[k + 1] - xs[k])


def reference(h, pts, ms, r200, r, d, q, s, major, inter, minor):
    """pts: positions relative to the centre. Returns the expected profile (None: empty bin)"""
    e = edges(h, r)
    A = [lin(h, d, d, x * r200) for x in e]
    B = [lin(h, d, [q[i] * d[i] for i in range(len(d))], x * r200) for x in e]
    C = [lin(h, d, [s[i] * d[i] for i in range(len(d))], x * r200) for x in e]
    for Y in (B, C):     # extrapolation has to stay meaningful: positive semi-axes
        for y in Y: h.assume(y > h.q(1, 100))
    out = []
    for b in range(len(r)):
        h.assume(A[b + 1] * B[b + 1] * C[b + 1] > A[b] * B[b] * C[b])
        ax = []
        for v in (major, inter, minor):
            w = [lin(h, d, [v[i][k] for i in range(len(d))], r[b] * r200) for k in range(3)]
            ax.append((w, w[0] ** 2 + w[1] ** 2 + w[2] ** 2))
        tot = None
        for p, m in zip(pts, ms):
            P = []
            for w, n2 in ax:
                t = w[0] * p[0] + w[1] * p[1] + w[2] * p[2]
                P.append(t * t / n2)
            if P[0] / A[b + 1] ** 2 + P[1] / B[b + 1] ** 2 + P[2] / C[b + 1] ** 2 < 1:
                if P[0] / A[b] ** 2 + P[1] / B[b] ** 2 + P[2] / C[b] ** 2 >= 1: tot = m if tot is None else tot + m
        vol = h.q(4, 3) * h.pi * (A[b + 1] * B[b + 1] * C[b + 1] - A[b] * B[b] * C[b])
        out.append(None if tot is None else tot / vol)
    return out


def compare(h, got, want, tag=''):
    for b, w in enumerate(want):
        if w is None: h.true(h.isnan(got[b]), '%sempty bin %d is NaN' % (tag, b))
        else: h.eq(got[b], w, '%sbin %d: mass of its particles over the difference of the ellipsoid volumes' % (tag, b))


def run(h, objs, r, box=0.0, center='com'):
    """objs: list of dicts(pts, ms, R, d, q, s, fr (list of frames per radius))"""
    alg = h.load(ALG)
    xyz = []; ms = []; cat = []; size = []; n = 0
    for o in objs:
        for p, m in zip(o['pts'], o['ms']):
            xyz.append(at(p)); ms.append(m); cat.append(n); n += 1
        size.append(len(o['pts']))
    perm = list(range(n))[::-1]           # particles are stored in the reverse order of the catalogue
    X = [xyz[i] for i in perm]; M = [ms[i] for i in perm]
    pos = {v: i for i, v in enumerate(perm)}
    cat = [pos[c] for c in cat]
    D = [o['d'] for o in objs]
    Q = [[o['q'][i] * o['d'][i] for i in range(len(o['d']))] for o in objs]
    S = [[o['s'][i] * o['d'][i] for i in range(len(o['d']))] for o in objs]
    ax = [[[o['fr'][i][k] for i in range(len(o['d']))] for o in objs] for k in range(3)]
    return alg.calcDensProfsEllDirectBinning(h.arr(X), h.arr(M), h.arr([o['R'] for o in objs]), h.arr(r), h.arr(D), h.arr(Q), h.arr(S),
                                             h.arr(ax[0]), h.arr(ax[1]), h.arr(ax[2]), h.i32(cat), h.i32(size), box, center)


def ref(h, o, r):
    return reference(h, o['pts'], o['ms'], o['R'], r, o['d'], o['q'], o['s'], [f[0] for f in o['fr']], [f[1] for f in o['fr']], [f[2] for f in o['fr']])


def pairs(h, us, ms):
    """u and -u for every u: the centre of mass is the origin"""
    pts = []; mm = []
    for u, m in zip(us, ms): pts += [list(u), [-x for x in u]]; mm += [m, m]
    return pts, mm


def ones(h, n): return [h.const(1)] * n


def position(fr, nfree):
    """one particle pair free in nfree coordinates, fixed flattened ellipsoids, rotated frame"""
    def f(h):
        u = [h.real('u%d' % k, -5, 5) if k < nfree else h.const('1/3') for k in range(3)]
        pts, ms = pairs(h, [u, [h.const(1), 0, h.const(0)]], [h.const(2), h.const(3)])
        r = [h.const(v) for v in (1, 2, 3)]
        o = dict(pts=pts, ms=ms, R=h.const(1), d=[h.const(v) for v in (1, 2, 4)], q=[h.const(v) for v in ('3/4', '4/5', '4/5')], s=[h.const(v) for v in ('1/2', '3/5', '1/2')], fr=[frame(h, fr)] * 3)
        w = ref(h, o, r)
        compare(h, run(h, [o], r)[0], w)
    return f


def axes_ratio(h):
    """axis ratios and R200 free, one particle pair on each axis"""
    R = h.real('R', h.q(1, 2), 3)
    q = [h.real('q%d' % i, h.q(1, 4), 1) for i in range(2)]
    pts, ms = pairs(h, [[h.const(0), h.const('6/5'), 0]], [h.const(2)])
    r = [h.const(v) for v in (1, 2, 3)]
    o = dict(pts=pts, ms=ms, R=R, d=[h.const(1), h.const(3)], q=q, s=[h.const('1/5'), h.const('1/4')], fr=[frame(h, 'id')] * 2)
    w = ref(h, o, r)
    compare(h, run(h, [o], r)[0], w)


def minor_ratio(h):
    s = [h.real('s%d' % i, h.q(1, 4), h.q(1, 2)) for i in range(2)]
    u = h.real('u', h.q(1, 10), 3)
    pts, ms = pairs(h, [[h.const(0), 0, u]], [h.const(2)])
    r = [h.const(v) for v in (1, 2, 3)]
    o = dict(pts=pts, ms=ms, R=h.const(1), d=[h.const(1), h.const(3)], q=[h.const('3/4'), h.const('2/3')], s=s, fr=[frame(h, 'id')] * 2)
    w = ref(h, o, r)
    compare(h, run(h, [o], r)[0], w)


def turning(h):
    """axes that turn with radius: interpolated and normalised"""
    u = [h.real('u%d' % k, -4, 4) for k in range(1)] + [h.const('1/2'), h.const(0)]
    pts, ms = pairs(h, [u], [h.const(2)])
    r = [h.const(v) for v in (1, 2, 3)]
    o = dict(pts=pts, ms=ms, R=h.const(1), d=[h.const(v) for v in (1, 3)], q=[h.const('3/4'), h.const('1/2')], s=[h.const('1/2'), h.const('1/2')], fr=[frame(h, 'id'), frame(h, 'rot')])
    w = ref(h, o, r)
    compare(h, run(h, [o], r)[0], w)


def turning_minor(h):
    u = [h.const('1/2'), h.const(0), h.real('u', -4, 4)]
    pts, ms = pairs(h, [u], [h.const(2)])
    r = [h.const(v) for v in (1, 2, 3)]
    fr2 = [[h.const(1), 0, 0], [0, h.const('3/5'), h.const('4/5')], [0, h.const('-4/5'), h.const('3/5')]]
    o = dict(pts=pts, ms=ms, R=h.const(1), d=[h.const(v) for v in (1, 3)], q=[h.const('3/4'), h.const('1/2')], s=[h.const('1/2'), h.const('1/3')], fr=[frame(h, 'id'), fr2])
    w = ref(h, o, r)
    compare(h, run(h, [o], r)[0], w)


def two_objects(h):
    """objects of different size, R200, shape, frame and masses"""
    u = [h.real('u%d' % i, -4, 4) for i in range(2)]
    m = [h.real('m%d' % i, h.q(1, 10), 9) for i in range(3)]
    p0, m0 = pairs(h, [[u[0], h.const('1/3'), 0]], [m[0]])
    p1, m1 = pairs(h, [[0, u[1], h.const('1/4')], [h.const('6/5'), 0, 0]], [m[1], m[2]])
    r = [h.const(v) for v in (1, 2, 3)]
    o0 = dict(pts=p0, ms=m0, R=h.const(1), d=[h.const(v) for v in (1, 2)], q=[h.const('3/4'), h.const('4/5')], s=[h.const('1/2'), h.const('3/5')], fr=[frame(h, 'id')] * 2)
    o1 = dict(pts=p1, ms=m1, R=h.const('3/2'), d=[h.const(v) for v in ('3/2', 4)], q=[h.const('1/2'), h.const('2/3')], s=[h.const('1/4'), h.const('1/3')], fr=[frame(h, 'perm')] * 2)
    for objs in ([o0, o1], [o1, o0]):
        out = run(h, objs, r)
        h.true(out.shape == (2, 3), 'shape of the result')
        for i, o in enumerate(objs): compare(h, out[i], ref(h, o, r), 'object %d: ' % i)


def edge_radii(h):
    """requested radii free"""
    r = [h.real('r0', h.q(1, 2), 3)]
    for i in (1, 2):
        x = h.real('r%d' % i, h.q(1, 2), 6); h.assume(x > r[-1]); r.append(x)
    pts, ms = pairs(h, [[h.const(2), h.const(0), 0]], [h.const(2)])
    o = dict(pts=pts, ms=ms, R=h.const(1), d=[h.const(v) for v in (1, 2)], q=[h.const('3/4'), h.const('3/4')], s=[h.const('1/2'), h.const('1/2')], fr=[frame(h, 'id')] * 2)
    w = ref(h, o, r)
    compare(h, run(h, [o], r)[0], w)


def spherical(h):
    """q = s = 1: equal to the spherical profile with the same edges"""
    u = [h.real('u%d' % k, -4, 4) for k in range(2)] + [h.const('1/3')]
    R = h.const('3/2')
    pts, ms = pairs(h, [u, [h.const(1), 0, h.const(0)]], [h.const(2), h.const(3)])
    r = [h.const(v) for v in (1, 2, 3)]
    o = dict(pts=pts, ms=ms, R=R, d=[h.const(v) for v in (1, 2, 4)], q=ones(h, 3), s=ones(h, 3), fr=[frame(h, 'gen')] * 3)
    out = run(h, [o], r)[0]
    e = [x * R for x in edges(h, r)]
    for b in range(3):
        tot = None
        for p, m in zip(pts, ms):
            d2 = p[0] ** 2 + p[1] ** 2 + p[2] ** 2
            if d2 < e[b + 1] ** 2:
                if d2 >= e[b] ** 2: tot = m if tot is None else tot + m
        if tot is None: h.true(h.isnan(out[b]), 'empty bin %d' % b)
        else: h.eq(out[b], tot / (h.q(4, 3) * h.pi * (e[b + 1] ** 3 - e[b] ** 3)), 'spherical shape gives the spherical profile, bin %d' % b)


def nan_shape(h):
    """an object without a converged shape gets NaN and leaves the other alone"""
    u = [h.real('u%d' % i, -4, 4) for i in range(2)]
    p0, m0 = pairs(h, [[u[0], h.const('1/3'), 0]], [h.const(2)])
    p1, m1 = pairs(h, [[0, u[1], h.const('1/4')]], [h.const(3)])
    r = [h.const(v) for v in (1, 2, 3)]
    N = h.nan
    o0 = dict(pts=p0, ms=m0, R=h.const(1), d=[N, N], q=[N, N], s=[N, N], fr=[[[N] * 3] * 3] * 2)
    o1 = dict(pts=p1, ms=m1, R=h.const('3/2'), d=[h.const(v) for v in ('3/2', 4)], q=[h.const('1/2'), h.const('2/3')], s=[h.const('1/4'), h.const('1/3')], fr=[frame(h, 'perm')] * 2)
    w = ref(h, o1, r)
    out = run(h, [o0, o1], r)
    for b in range(3): h.true(h.isnan(out[0][b]), 'no shape, no profile')
    compare(h, out[1], w)


def caller(h):
    """inputs are left as they were"""
    alg = h.load(ALG)
    cat = h.i32([2, 0, 1, 3]); c0 = [int(v) for v in cat]
    xyz = h.reals('x', (4, 3), 0, 10)
    x0 = [[xyz[i, k] for k in range(3)] for i in range(4)]
    fr = [frame(h, 'id')] * 2
    ax = [h.arr([[fr[i][k] for i in range(2)]] * 2) for k in range(3)]
    h.assume(xyz[2, 0] == 5); h.assume(xyz[0, 0] == 3); h.assume(xyz[1, 0] == 1); h.assume(xyz[3, 0] == 1)
    for i in range(4):
        for k in (1, 2): h.assume(xyz[i, k] == i + k)
    alg.calcDensProfsEllDirectBinning(xyz, h.arr([1, 1, 1, 1]), h.arr([1, 1]), h.arr([1, 2, 3]), h.arr([[1, 2]] * 2), h.arr([[1, 2]] * 2), h.arr([[1, 2]] * 2), *ax, cat, h.i32([2, 2]), 0.0, 'com')
    h.true([int(v) for v in cat] == c0, 'index catalogue unchanged')
    for i in range(4):
        for k in range(3): h.eq(xyz[i, k], x0[i][k], 'coordinates unchanged')


def public(reduced, shell, sel):
    """estDensProfs(direct_binning = True, spherical = False): the ellipsoids are those of the objects' own shapes"""
    import shapes as S
    def f(h):
        internal_units(h)
        eig = S.Eig(h, ('gen', 'id'))
        G, I = frame(h, 'gen'), frame(h, 'id')
        c = h.const
        P = [S.octant(h, G, c(3), c(2), c(1)) + S.octant(h, G, c(9), c(5), c(2)), S.octant(h, I, c(1), c(3), c(2)) + S.octant(h, I, c(3), c(8), c(4))]
        m = h.real('m', h.q(1, 2), 4)
        M = [[c(2)] * 8 + [c(3)] * 8, [m] * 16]
        R = [c(1), c('5/4')]; rs = [c(6), c(16)] if shell else [c(6), c(7), c(16)]
        r = [h.real('r0', 4, 6), c(8), c(14)]
        tol = h.q(1, 10)
        want = {}
        for i in sel:
            sh = [S.shape(h, eig, P[i], M[i], R[i] * x, None if not shell else (R[i] * x if j == 0 else R[i] * (x - rs[j - 1])), tol, 9, 3, reduced) for j, x in enumerate(rs)]
            if any(x is None for x in sh): want[i] = None; continue
            want[i] = reference(h, P[i], M[i], R[i], r, [x[0] for x in sh], [x[1] for x in sh], [x[2] for x in sh], *[[x[3][k] for x in sh] for k in (2, 1, 0)])
        X = [at(p) for o in P for p in o]
        o = dsp(h, h.arr(X), h.arr(M[0] + M[1]), [list(range(16)), list(range(31, 15, -1))], R)
        got = o.estDensProfs(h.arr(r), list(sel), True, False, S.katz(h, rs, tol, 9, 3, reduced, shell))
        h.true(got.shape == (len(sel), 3), 'one profile per object')
        for row, i in enumerate(sel):
            if want[i] is None:
                for b in range(3): h.true(h.isnan(got[row][b]), 'object %d has no shape, no profile' % i)
            else: compare(h, got[row], want[i], 'object %d ' % i)
    return f


HARNESSES = [
    H('position[id,1]', position('id', 1), '4 particles, x of one pair free, 3 bins, shape profile at 3 radii'),
    H('position[id,3]', position('id', 3), '4 particles, one pair anywhere in [-5,5]^3'),
    H('position[perm,3]', position('perm', 3), 'axes permuted'),
    H('position[rot,2]', position('rot', 2), 'rotated frame, two coordinates free'),
    H('position[gen,2]', position('gen', 2), 'generally rotated frame, two coordinates free'),
    H('axis ratio q, R200', axes_ratio, 'q at two radii and R200 free'),
    H('axis ratio s', minor_ratio, 's at two radii and the position free'),
    H('turning axes', turning, 'major and intermediate axes turn with radius; interpolation and normalisation'),
    H('turning minor', turning_minor, 'minor axis turns with radius'),
    H('two objects', two_objects, 'objects of 2 and 4 particles with their own shapes, R200, masses free, both orders'),
    H('radii', edge_radii, 'all three requested radii free'),
    H('spherical', spherical, 'q = s = 1 equals the spherical profile'),
    H('no shape', nan_shape, 'one of two objects has no converged shape (NaN)'),
    H('public', public(False, False, (1, 0)), 'estDensProfs, two objects of 16 particles whose axis ratios change with radius; one radius and a mass free'),
    H('public first', public(False, False, (0,)), 'first object only'),
    H('public reduced', public(True, False, (1, 0)), 'reduced shape tensor'),
    H('public shells', public(False, True, (1,)), 'shapes in shells'),
    H('inputs unchanged', caller, '2 objects'),
    H('position[gen,3]', position('gen', 3), 'generally rotated frame, one pair anywhere', tier='thorough', budget=300),
]
OUTSIDE = 'more than 16 particles, 3 bins or 3 shape radii'
ASSUMPTIONS = []
