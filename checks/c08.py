"""C08 a shape is reported exactly when the iteration converged, otherwise NaN"""
from cysym.runner import H
from shapes import *
from c07 import cluster, place, BASE


def ptcs(h, frame, free, vals):
    F = [[h.const(x) for x in row] for row in FRAMES[frame]]
    return cluster(h, F, free, vals)


def vel(h, kind, pts, frame, fv=None):
    """velocities: the positions scaled per principal axis (kind 'v...'), so the tensor stays diagonal in the frame"""
    F = [[h.const(x) for x in row] for row in FRAMES[frame]]
    sc = [h.real('vs', *fv) if fv and k == 1 else h.const(x) for k, x in enumerate(('2', '3/2', '1'))]
    out = []
    for p in pts:
        P = [sum_(h, [F[k][c] * p[c] for c in range(3)]) * sc[k] for k in range(3)]
        out.append([sum_(h, [F[k][c] * P[k] for k in range(3)]) for c in range(3)])
    return out


def call(h, kind, pts, vels, ms, lists, R, r, tol, wall, mn, reduced=False, shell=False, CENTER='com'):
    """the four algorithm entry points; returns per object a list of element dicts"""
    al = h.load('cosmic_profiles.shape_profs.shape_profs_algos')
    xyz = place(h, pts)
    if vels: vels = [at(v, (5, -3, 8)) for v in vels]
    idx = h.i32([i for l in lists for i in l]); sz = h.i32([len(l) for l in lists])
    ms = h.arr(ms); R = h.arr(R)
    if kind == 'local': o = al.calcMorphLocal(xyz, ms, R, idx, sz, 0.0, h.arr(r), tol, wall, mn, CENTER, reduced, shell)
    elif kind == 'global': o = al.calcMorphGlobal(xyz, ms, R, idx, sz, 0.0, tol, wall, mn, CENTER, 6.0, reduced)
    elif kind == 'vlocal': o = al.calcMorphLocalVelDisp(xyz, h.arr(vels), ms, R, idx, sz, 0.0, h.arr(r), tol, wall, mn, CENTER, reduced, shell)
    else: o = al.calcMorphGlobalVelDisp(xyz, h.arr(vels), ms, R, idx, sz, 0.0, tol, wall, mn, CENTER, 6.0, reduced)
    d, q, s, mi, it, ma = o[:6]
    h.true(len(d) == len(lists), 'one row per object')
    def el(ix): return {'d': d[ix], 'q': q[ix], 's': s[ix], 'minor': mi[ix], 'inter': it[ix], 'major': ma[ix], 'is_conv': not h.isnan(q[ix])}
    if 'global' in kind: return [[el((p,))] for p in range(len(lists))]
    return [[el((p, j)) for j in range(len(r))] for p in range(len(lists))]


def algo(kind, frame='gen', free={}, itmin=None, itwall=None, tol='1/20', r=('4',), R='1', reduced=False, shell=False, vals=BASE, fv=None):
    """IT_MIN and IT_WALL are integer symbols"""
    def f(h):
        eig = Eig(h, (frame,))
        pts, ms = ptcs(h, frame, free, vals)
        mn = h.int('IT_MIN', *itmin) if itmin else 3
        wall = h.int('IT_WALL', *itwall) if itwall else 3
        t = h.real('tol', *free['tol']) if 'tol' in free else h.const(tol)
        Rv = h.real('R', *free['R']) if 'R' in free else h.const(R)
        rr = [h.const(x) for x in r]
        v = vel(h, kind, pts, frame, fv) if kind[0] == 'v' else None
        # velocity means vanish by symmetry
        want = []
        for i in range(len(rr) if 'local' in kind else 1):
            d = Rv * rr[i] if 'local' in kind else Rv + 6
            delta = None if not shell else (d if i == 0 else d - Rv * rr[i - 1])
            want.append(shape(h, eig, pts, ms, d, delta, t, wall, mn, reduced, vels=v))
        got = call(h, kind, pts, v, ms, [list(range(len(pts)))], [Rv], rr, t, wall, mn, reduced, shell)
        for i, w in enumerate(want): compare(h, got[0][i], w, 'radius %d: ' % i)
    return f


def public(glb):
    """the structured array of the public call: is_conv, NaN and values"""
    def f(h):
        internal_units(h)
        eig = Eig(h, ('gen', 'id'))
        pts, ms = ptcs(h, 'gen', {}, BASE)
        mn = h.int('IT_MIN', 1, 14)
        p2 = octant(h, [[h.const(x) for x in row] for row in FRAMES['id']], h.const(2), h.const(1), h.q(1, 2)); m2 = [h.const(1)] * 8
        R = [h.const(1), h.const(1)]
        rr = [h.const(3), h.const(5)]
        want = []
        for P, M in ((pts, ms), (p2, m2)):
            want.append([shape(h, eig, P, M, R[0] + 6 if glb else x, None, h.q(1, 20), 3, mn, False) for x in (rr[:1] if glb else rr)])
        dp = dsp(h, place(h, pts + p2), h.arr(ms + m2), [list(range(12)), list(range(12, 20))], R)
        k = katz(h, rr, h.q(1, 20), 3, mn)
        out = dp.getShapeCatGlobal([0, 1], k) if glb else dp.getShapeCatLocal([0, 1], k)
        for o in range(2):
            for j, w in enumerate(want[o]): compare(h, out[o] if glb else out[o][j], w, 'object %d radius %d: ' % (o, j))
    return f


def zero_axes(kind):
    """axes along the coordinate axes: components that are exactly 0 are values, not NaN"""
    return algo(kind, 'id', {}, itmin=(1, 13), fv=('5/4', '7/4') if kind[0] == 'v' else None)


def degenerate(kind):
    """objects whose particles all sit in one point, or whose R200 is 0 (local): not converged, whatever the limits"""
    def f(h):
        n = h.choice('n', 3) + 1
        c = h.choice('case', 2)
        if 'global' in kind or c == 0:
            pts = [[h.const(0)] * 3 for _ in range(n)]; R = h.const(1)
        else:
            pts = octant(h, [[h.const(x) for x in row] for row in FRAMES['id']], h.const(2), h.const(1), h.q(1, 2)); R = h.const(0); n = 8
        eig = Eig(h, ('id',))
        mn = h.int('IT_MIN', 1, 4)
        ms = [h.real('m%d' % i, h.q(1, 4), 4) for i in range(n)] if c == 0 or 'global' in kind else [h.const(1)] * n
        got = call(h, kind, pts, [[h.real('v%d%d' % (i, k), -3, 3) if n < 3 else h.const(i + k * i) for k in range(3)] for i in range(n)], ms, [list(range(n))], [R], [h.const(1), h.const(2)], h.q(1, 20), 3, mn)
        for g in got[0]: compare(h, g, None)
    return f


def planar(kind, late):
    """all particles (velocities) in a coordinate plane, or (late) all that are left after the first iteration: the object is
    not converged, and the other object of the catalogue is reported as if it were alone"""
    def f(h):
        eig = Eig(h, ('id',))
        ax = h.choice('normal', 2) * 2
        red = bool(h.choice('reduced', 2)) if not late else False
        mn = h.int('IT_MIN', 1, 5)
        F = [[h.const(x) for x in row] for row in FRAMES['id']]
        F = [F[(k + ax + 1) % 3] for k in range(3)]   # the third one is the normal
        a = h.real('a', '3/2', 2); b = h.real('b', '1/2', '5/4')
        pts = octant(h, F, a, b, None); ms = [h.const(1)] * 4
        if late: pts += octant(h, F, None, None, h.real('c', '11/4', '14/5')); ms += [h.q(1, 16)] * 2
        other = octant(h, [[h.const(x) for x in row] for row in FRAMES['id']], h.const(2), h.const(1), h.q(1, 2))
        k = len(pts)
        R = [h.const(1), h.const(1)] if 'local' in kind else [h.const(-3)] * 2
        vs = None
        if kind[0] == 'v':
            vs = pts + other
            if not late: pts = [[p[i] + ((-1) ** (j // 2)) * F[2][i] for i in range(3)] for j, p in enumerate(pts)]   # only the velocities are planar
        want = []
        for P, M, V in ((pts, ms, vs and vs[:k]), (other, [h.const(1)] * 8, vs and vs[k:])):
            want.append(shape(h, eig, P, M, h.const(3), None, h.q(1, 20), 4, mn, red, vels=V, planar=True))
        got = call(h, kind, pts + other, vs, ms + [h.const(1)] * 8, [list(range(k)), list(range(k, k + 8))], R, [h.const(3)], h.q(1, 20), 4, mn, red)
        for o in range(2): compare(h, got[o][0], want[o], 'object %d: ' % o)
    return f


KINDS = ('local', 'global', 'vlocal', 'vglobal')
TWO = {'a': '2', 'b': '1', 'c': '1/2', 'A': '3', 'B': '2'}
HARNESSES = []
for k in KINDS:
    r = ('109/25',) if 'local' in k else ('1',)
    R = '1' if 'local' in k else '-41/25'   # the global volume starts at R200 + 6 = 4.36
    HARNESSES += [
        H('IT_MIN %s' % k, algo(k, 'gen', {}, itmin=(1, 14), r=r, R=R, vals=TWO), 'IT_MIN 1..14 symbolic, 12 particles, generally oriented'),
        H('IT_WALL %s' % k, algo(k, 'gen', {}, itwall=(0, 5), r=r, R=R, vals=TWO), 'IT_WALL 0..5 symbolic'),
        H('IT_MIN tol %s' % k, algo(k, 'rot', {'tol': ('1/100', '1/2')}, itmin=(8, 13), r=r, R=R, vals=TWO), 'IT_MIN and IT_TOL symbolic'),
        H('IT_WALL tol %s' % k, algo(k, 'rot', {'tol': ('1/100', '99/100')}, itwall=(0, 4), r=r, R=R, vals=TWO), 'IT_WALL and IT_TOL symbolic'),
        H('zero axes %s' % k, zero_axes(k), 'axis-aligned object: components exactly 0'),
        H('planar %s' % k, planar(k, False), 'one of two objects planar (normal x or z), IT_MIN 1..5, extents symbolic'),
        H('planar late %s' % k, planar(k, True), 'planar once the first iteration has dropped the particles off the plane'),
        H('degenerate %s' % k, degenerate(k), 'all particles in one point, or R200 = 0; 1-3 (8) particles'),
    ]
for k in ('local', 'vlocal'):
    HARNESSES.append(H('IT_MIN shell %s' % k, algo(k, 'gen', {}, itmin=(1, 14), r=('5/2', '5'), vals=BASE, shell=True), 'shells, IT_MIN symbolic'))
    HARNESSES.append(H('R %s' % k, algo(k, 'rot', {'R': ('1/4', 2)}, itmin=(1, 14), r=('5/2',), vals=BASE), 'IT_MIN and R200 symbolic'))
HARNESSES += [
    H('public local', public(False), 'getShapeCatLocal, two objects, two radii, IT_MIN 1..14'),
    H('public global', public(True), 'getShapeCatGlobal, two objects, IT_MIN 1..14'),
]
OUTSIDE = 'IT_MIN < 1, IT_TOL >= 1 (no iteration takes place); more than 12 particles per object, more than 5 iterations; objects that are planar up to rounding only (smallest eigenvalue 1e-16 times the largest one or so), coinciding eigenvalues'
ASSUMPTIONS = ['LAPACK zheevr returns the ascending eigenvalues and an orthonormal eigenbasis of the tensor it is given']
