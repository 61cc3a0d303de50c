"""C07 shapes from particle positions"""
from cysym.runner import H
from shapes import *


def cluster(h, F, free, vals, extra=True):
    """8 + 2 + 2 particles: a box and pairs on the principal axes; the values named in free are symbols"""
    v = {}
    for k, x in vals.items(): v[k] = h.real(k, *free[k]) if k in free else h.const(x)
    pts = octant(h, F, v['a'], v['b'], v['c'])
    ms = [h.const(2)] * 8
    pts += octant(h, F, v['A'], None, None); ms += [h.const(3)] * 2
    pts += octant(h, F, None, v['B'], None); ms += [h.const(1)] * 2
    return pts, ms


def place(h, pts): return h.arr([at(p) for p in pts])


BASE = {'a': '2', 'b': '1', 'c': '1/2', 'A': '3', 'B': '3/2'}


def local(frame, free, r=('4',), tol='1/20', wall=3, mn=3, reduced=False, shell=False, R='1', rsym=None, vals=BASE):
    def f(h):
        internal_units(h)
        eig = Eig(h, (frame,))
        F = [[h.const(x) for x in row] for row in FRAMES[frame]]
        pts, ms = cluster(h, F, free, vals)
        Rv = h.real('R', *free['R']) if 'R' in free else h.const(R)
        rr = [h.const(x) for x in r]
        t = h.real('tol', *free['tol']) if 'tol' in free else h.const(tol)
        want = []
        for i, x in enumerate(rr):
            d = Rv * x
            delta = None if not shell else (d if i == 0 else d - Rv * rr[i - 1])
            want.append(shape(h, eig, pts, ms, d, delta, t, wall, mn, reduced))
        dp = dsp(h, place(h, pts), h.arr(ms), [list(range(len(pts)))], [Rv])
        out = dp.getShapeCatLocal([0], katz(h, rr, t, wall, mn, reduced, shell))
        h.true(out.shape == (1, len(rr)), 'one row per object, one column per radius')
        for i in range(len(rr)): compare(h, out[0][i], want[i], 'radius %d: ' % i)
    return f


def glob(frame, free, R='1', tol='1/20', wall=3, mn=3, reduced=False, vals=BASE):
    def f(h):
        internal_units(h)
        eig = Eig(h, (frame,))
        F = [[h.const(x) for x in row] for row in FRAMES[frame]]
        pts, ms = cluster(h, F, free, vals)
        Rv = h.real('R', *free['R']) if 'R' in free else h.const(R)
        want = shape(h, eig, pts, ms, Rv + 6, None, h.const(tol), wall, mn, reduced)
        dp = dsp(h, place(h, pts), h.arr(ms), [list(range(len(pts)))], [Rv])
        out = dp.getShapeCatGlobal([0], katz(h, [h.const(1)], h.const(tol), wall, mn, reduced))
        h.true(out.shape == (1,), 'one row per object')
        compare(h, out[0], want)
    return f


def masses(h):
    """masses free (equal in each symmetric group): weights of the tensor"""
    internal_units(h)
    eig = Eig(h, ('gen',))
    F = [[h.const(x) for x in row] for row in FRAMES['gen']]
    m = [h.real('m%d' % i, h.q(1, 4), 4) for i in range(2)]
    pts = octant(h, F, h.const(2), h.const(1), h.q(1, 2)) + octant(h, F, h.const(3), None, None)
    ms = [m[0]] * 8 + [m[1]] * 2
    want = shape(h, eig, pts, ms, h.const(4), None, h.q(1, 20), 2, 3, False)
    dp = dsp(h, place(h, pts), h.arr(ms), [list(range(10))], [h.const(1)])
    compare(h, dp.getShapeCatLocal([0], katz(h, [h.const(4)], h.q(1, 20), 2, 3))[0][0], want)


def two_objects(sel, glb=False):
    """objects of different size, shape and R200; nothing leaks from one to the next"""
    def f(h):
        internal_units(h)
        eig = Eig(h, ('gen', 'id'))
        F = [[h.const(x) for x in row] for row in FRAMES['gen']]; G = [[h.const(x) for x in row] for row in FRAMES['id']]
        a = h.real('a', h.q(3, 2), 3); b = h.real('b', h.q(1, 2), 2)
        p0 = octant(h, F, a, h.const(1), h.q(1, 2)); p1 = octant(h, G, h.q(1, 3), h.const('5/2'), None) + octant(h, G, None, None, b); p2 = octant(h, G, h.const(2), h.const(1), h.q(1, 4))[:1]
        m0 = [h.const(2)] * 8; m1 = [h.const(1)] * 4 + [h.const(3)] * 2
        allp = p0 + p1; allm = m0 + m1
        idx = [list(range(8)), list(range(8, 14))[::-1]]
        R = [h.const(1), h.const('3/4')]
        want = []
        for pts, ms, r in ((p0, m0, R[0]), (p1, m1, R[1])):
            if glb: want.append([shape(h, eig, pts, ms, r + 6, None, h.q(1, 10), 2, 3, False)])
            else: want.append([shape(h, eig, pts, ms, r * x, None, h.q(1, 10), 2, 3, False) for x in (h.const(3), h.const(4))])
        dp = dsp(h, place(h, allp), h.arr(allm), idx, R)
        k = katz(h, [h.const(3), h.const(4)], h.q(1, 10), 2, 3)
        out = dp.getShapeCatGlobal(sel, k) if glb else dp.getShapeCatLocal(sel, k)
        for row, o in enumerate(sel):
            for j, w in enumerate(want[o]): compare(h, out[row] if glb else out[row][j], w, 'object %d radius %d: ' % (o, j))
    return f


def centre_shift(h):
    """unequal masses: the tensor is taken about the centre of mass, not the origin of the pair"""
    internal_units(h)
    eig = Eig(h, ('id',))
    x = h.real('x', h.q(1, 2), 3)
    # masses 1 and 3 on the x axis (com shifted), pairs in y and z
    raw = [[x, 0, 0], [-x, 0, 0], [x / 2, h.const(1), 0], [x / 2, h.const(-1), 0], [x / 2, 0, h.q(1, 2)], [x / 2, 0, h.q(-1, 2)]]
    ms = [h.const(v) for v in (3, 1, 1, 1, 1, 1)]
    M = sum_(h, ms)
    c = [sum_(h, [m * p[k] for m, p in zip(ms, raw)]) / M for k in range(3)]
    pts = [[p[k] - c[k] for k in range(3)] for p in raw]
    want = shape(h, eig, pts, ms, h.const(5), None, h.q(1, 20), 2, 3, False)
    dp = dsp(h, place(h, raw), h.arr(ms), [list(range(6))], [h.const(1)])
    compare(h, dp.getShapeCatLocal([0], katz(h, [h.const(5)], h.q(1, 20), 2, 3))[0][0], want)


def mode_centre(h):
    """CENTER = mode: the shape is taken about the mode"""
    internal_units(h)
    eig = Eig(h, ('id',))
    a = h.real('a', h.q(3, 2), 3)
    F = [[h.const(x) for x in row] for row in FRAMES['id']]
    pts = octant(h, F, a, h.const(1), h.q(1, 2)); ms = [h.const(2)] * 8
    want = shape(h, eig, pts, ms, h.const(5), None, h.q(1, 20), 2, 3, False)
    dp = dsp(h, place(h, pts), h.arr(ms), [list(range(8))], [h.const(1)], CENTER='mode')
    compare(h, dp.getShapeCatLocal([0], katz(h, [h.const(5)], h.q(1, 20), 2, 3))[0][0], want)


HARNESSES = [
    H('local[id,a]', local('id', {'a': (0, 4)}), '12 particles, one box side free, one radius, up to 3 iterations'),
    H('local[gen,a]', local('gen', {'a': ('1/4', 4)}), 'generally rotated object'),
    H('local[gen,A]', local('gen', {'A': (0, 9)}), 'outer pair moves through the boundary'),
    H('local[rot,B,2 radii]', local('rot', {'B': (0, 6)}, r=('2', '4')), 'two radii'),
    H('local[id,R]', local('id', {'R': ('1/2', 2)}, r=('2',)), 'R200 free'),
    H('local[gen,tol]', local('gen', {'tol': ('1/100', '1/2')}, r=('109/25',), wall=4, vals={'a': '2', 'b': '1', 'c': '1/2', 'A': '3', 'B': '2'}), 'IT_TOL free, up to 4 iterations'),
    H('reduced[gen,A]', local('gen', {'A': ('1/4', 9)}, reduced=True, wall=2), 'reduced tensor, 2 iterations'),
    H('reduced[id,A]', local('id', {'A': ('1/4', 9)}, reduced=True, wall=3), 'reduced tensor, 3 iterations'),
    H('shell[id,B]', local('id', {'B': ('1/4', 4)}, r=('2', '4'), shell=True, wall=2), 'shells, 2 radii'),
    H('shell[gen,A]', local('gen', {'A': ('1/4', 6)}, r=('5/2', '5'), shell=True, wall=3), 'shells, rotated, 2 radii, up to 3 iterations'),
    H('shell reduced[gen,A] 3 iterations', local('gen', {'A': ('1/4', 6)}, r=('4',), tol='1/5', shell=True, reduced=True, wall=3), 'reduced tensor in the innermost shell, up to 3 iterations'),
    H('shell reduced[id,A]', local('id', {'A': ('1/4', 6)}, r=('2', '5'), shell=True, reduced=True, wall=2), 'reduced tensor in shells'),
    H('global[gen,A]', glob('gen', {'A': (0, 12)}), 'global shape, d = R200 + 6'),
    H('global[id,R]', glob('id', {'R': ('1/4', 3)}, vals={'a': '7', 'b': '3', 'c': '1', 'A': '8', 'B': '2'}), 'global shape, R200 free'),
    H('global reduced[rot,A]', glob('rot', {'A': (1, 9)}, reduced=True, wall=2), 'global reduced'),
    H('masses', masses, 'masses of two groups free'),
    H('centre', centre_shift, 'centre of mass away from the symmetry centre, one length free'),
    H('mode centre', mode_centre, 'CENTER = mode, 8 particles'),
    H('two objects[1,0]', two_objects([1, 0]), 'objects of 8 and 6 particles, two lengths free, 2 radii'),
    H('two objects[0,1]', two_objects([0, 1]), 'other order'),
    H('two objects global', two_objects([1, 0], True), 'global shapes of both'),
    H('local[gen,a B]', local('gen', {'a': ('1/4', 4), 'B': ('1/4', 4)}, wall=2), 'two lengths free', tier='thorough', budget=300),
    H('local[id,a A]', local('id', {'a': ('1/4', 4), 'A': ('1/4', 9)}, wall=3), 'two lengths free, 3 iterations', tier='thorough', budget=300),
]
OUTSIDE = 'shells whose inner semi-axis s*d - delta vanishes (division by zero in the code); tensors whose eigenvectors are irrational functions of the inputs: objects are symmetric about principal axes whose directions are fixed rational frames (any eigenvalues); more than 14 particles; degenerate or nearly degenerate eigenvalues (axes not determined); more than 4 iterations'
ASSUMPTIONS = ['LAPACK zheevr returns the ascending eigenvalues and an orthonormal eigenbasis of the tensor it is given']
