"""C09 velocity shapes are shapes of the object's own velocities"""
from cysym.runner import H
from shapes import *
from c07 import cluster, place, BASE
from c08 import call
from gadgetfiles import Files, gadget

PERM = (2, 0, 1)   # the velocity ellipsoid is elongated along another principal axis than the positions


def vels(h, frame, free, vals=None):
    """12 velocities (same groups as cluster): symmetric groups along permuted axes plus a common velocity"""
    F = [[h.const(x) for x in row] for row in FRAMES[frame]]
    v = dict(va='3', vb='1', vc='2', vA='1', vB='2', w0='0', w1='0', w2='0'); v.update(vals or {})
    for k, x in list(v.items()): v[k] = h.real(k, *free[k]) if k in free else h.const(x)
    G = [F[i] for i in PERM]
    out = octant(h, G, v['va'], v['vb'], v['vc']) + octant(h, G, v['vA'], None, None) + octant(h, G, None, v['vB'], None)
    return [[p[k] + v['w%d' % k] for k in range(3)] for p in out], out


def algo(kind, frame='gen', free={}, tol='1/20', r=('109/25',), R='1', wall=3, mn=3, reduced=False, shell=False, vals=BASE, vv=None, tag=''):
    def f(h):
        eig = Eig(h, (frame,))
        F = [[h.const(x) for x in row] for row in FRAMES[frame]]
        pts, ms = cluster(h, F, free, vals)
        v, rel = vels(h, frame, free, vv)
        Rv = h.real('R', *free['R']) if 'R' in free else h.const(R)
        rr = [h.const(x) for x in r]
        want = []
        for i in range(len(rr) if 'local' in kind else 1):
            d = Rv * rr[i] if 'local' in kind else Rv + 6
            delta = None if not shell else (d if i == 0 else d - Rv * rr[i - 1])
            want.append(shape(h, eig, pts, ms, d, delta, h.const(tol), wall, mn, reduced, vels=rel))
        got = call(h, kind, pts, v, ms, [list(range(len(pts)))], [Rv], rr, h.const(tol), wall, mn, reduced, shell)
        for i, w in enumerate(want): compare(h, got[0][i], w, 'radius %d: ' % i)
    return f


def unequal(kind, CENTER='com'):
    """unequal masses: the mean velocity is mass-weighted"""
    def f(h):
        eig = Eig(h, ('id',))
        x = h.real('x', h.q(1, 2), 3)
        F = [[h.const(c) for c in row] for row in FRAMES['id']]
        pts = octant(h, F, h.const(2), None, None) + octant(h, F, None, h.const(1), None) + octant(h, F, None, None, h.q(1, 2))
        ms = [h.const(c) for c in (2, 2, 1, 1, 3, 3)]
        w = [[x, 0, 0], [x, 0, 0], [-x, h.const(3), 0], [-x, h.const(-3), 0], [h.const(0), 0, h.const(1)], [h.const(0), 0, h.const(-1)]]
        M = h.const(12)
        c = [sum_(h, [m * p[k] for m, p in zip(ms, w)]) / M for k in range(3)]
        rel = [[p[k] - c[k] for k in range(3)] for p in w]
        d = h.const(5) if 'local' in kind else h.const(7)
        want = shape(h, eig, pts, ms, d, None, h.q(1, 20), 2, 3, False, vels=rel)
        got = call(h, kind, pts, w, ms, [list(range(6))], [h.const(1)], [h.const(5)], h.q(1, 20), 2, 3, CENTER=CENTER)
        compare(h, got[0][0], want)
    return f


def objects(kind, order):
    """two objects sharing nothing: each row comes from its own velocities"""
    def f(h):
        eig = Eig(h, ('gen', 'id'))
        F = [[h.const(x) for x in row] for row in FRAMES['gen']]; I = [[h.const(x) for x in row] for row in FRAMES['id']]
        a = h.real('va', h.q(3, 2), 4); b = h.real('vb', h.q(1, 2), 2)
        w = [h.real('w%d' % k, -5, 5) for k in range(3)]
        P = [octant(h, F, h.const(2), h.const(1), h.q(1, 2)), octant(h, I, h.const(2), h.const(1), None) + octant(h, I, None, None, h.const(1))]
        V = [octant(h, F, h.const(1), a, h.const('1/3')), octant(h, I, b, h.const(3), None) + octant(h, I, None, None, h.const(4))]
        Ms = [[h.const(2)] * 8, [h.const(1)] * 4 + [h.const(3)] * 2]
        lists = [list(range(8)), [13, 12, 11, 10, 9, 8]]
        want = [shape(h, eig, P[i], Ms[i], h.const(5) if 'local' in kind else h.const(7), None, h.q(1, 10), 2, 3, False, vels=V[i]) for i in range(2)]
        allv = V[0] + [[p[k] + w[k] for k in range(3)] for p in V[1]]
        got = call(h, kind, P[0] + P[1], allv, Ms[0] + Ms[1], [lists[i] for i in order], [h.const(1)] * 2, [h.const(5)], h.q(1, 10), 2, 3)
        for row, o in enumerate(order): compare(h, got[row][0], want[o], 'object %d: ' % o)
    return f


def public(glb, reduced=False, shell=False):
    """through the snapshot reader: getShapeCatVelLocal/Global of a Gadget object"""
    def f(h):
        F = Files(h)
        try:
            internal_units(h)
            eig = Eig(h, ('gen', 'id'))
            va = h.real('va', h.q(3, 2), 4)
            G = [[h.const(x) for x in row] for row in FRAMES['gen']]; I = [[h.const(x) for x in row] for row in FRAMES['id']]
            P = [octant(h, I, h.const(1), h.const(2), h.const('1/2')), octant(h, G, h.const(2), h.const(1), h.q(1, 2))]
            V = [octant(h, I, h.const(1), h.const(2), h.const(3)), octant(h, G, h.const(1), va, h.const('1/3'))]
            w = [h.real('w%d' % k, -5, 5) for k in range(3)]
            ms = [h.const(2)] * 16
            R = [h.const('3/2'), h.const(1)]
            allp = P[0] + [[h.const(50)] * 3] + P[1]      # one particle of the first group is in no subhalo
            allv = V[0] + [[h.const(9)] * 3] + [[p[k] + w[k] for k in range(3)] for p in V[1]]
            pos = h.arr([at(p) for p in allp])
            snap = F.snapshot('snap_010', {1: {'POS ': pos, 'MASS': h.arr(ms[:8] + [h.const(1)] + ms[8:]), 'VEL ': h.arr(allv)}}, {'boxsize': h.const(0)})
            grp = F.groups([{'len': [[0, 9, 0, 0, 0, 0], [0, 8, 0, 0, 0, 0]], 'r200': R, 'nsub': [1, 1], 'sub': [[0, 8, 0, 0, 0, 0]] * 2}])
            rr = [h.const(3), h.const(4)]
            want = []
            for i in range(2):
                if glb: want.append([shape(h, eig, P[i], ms[:8], R[i] + 6, None, h.q(1, 10), 3, 3, reduced, vels=V[i])])
                else: want.append([shape(h, eig, P[i], ms[:8], R[i] * x, None if not shell else (R[i] * x if j == 0 else R[i] * x - R[i] * rr[0]), h.q(1, 10), 3, 3, reduced, vels=V[i]) for j, x in enumerate(rr)])
            g = gadget(h, F, snap, grp)
            k = katz(h, rr, h.q(1, 10), 3, 3, reduced, shell)
            out = g.getShapeCatVelGlobal([1, 0], k) if glb else g.getShapeCatVelLocal([1, 0], k)
            h.true(out.shape == ((2,) if glb else (2, 2)), 'one row per object')
            for row, o in enumerate((1, 0)):
                for j, x in enumerate(want[o]): compare(h, out[row] if glb else out[row][j], x, 'object %d radius %d: ' % (o, j))
        finally: F.done()
    return f


HARNESSES = []
for k in ('vlocal', 'vglobal'):
    R = '1' if 'local' in k else '-41/25'
    r = ('109/25',) if 'local' in k else ('1',)
    HARNESSES += [
        H('%s[shift]' % k, algo(k, 'gen', {'w0': (-9, 9), 'w1': (-9, 9), 'w2': (-9, 9)}, r=r, R=R), 'constant velocity (3 symbols) added to all particles'),
        H('%s[va]' % k, algo(k, 'gen', {'va': ('1/4', 6)}, r=r, R=R), 'one velocity amplitude free'),
        H('%s[vA w0]' % k, algo(k, 'rot', {'vA': (0, 9), 'w0': (-9, 9)}, r=r, R=R), 'amplitude of one pair and a common velocity free'),
        H('%s[A]' % k, algo(k, 'gen', {'A': (0, 9)}, r=r, R=R), 'a pair of positions moves through the boundary'),
        H('%s reduced[vB]' % k, algo(k, 'gen', {'vB': ('1/4', 6)}, r=r, R=R, reduced=True, tol='99/100', wall=2), 'reduced tensor (elliptical radius of the positions), one iteration'),
        H('%s reduced[A]' % k, algo(k, 'id', {'A': ('1/2', 6)}, r=r, R=R, reduced=True, wall=2), 'reduced tensor, position free'),
        H('%s unequal' % k, unequal(k), 'unequal masses, velocity free'),
        H('%s unequal mode' % k, unequal(k, 'mode'), 'CENTER = mode'),
        H('%s objects[0,1]' % k, objects(k, [0, 1]), 'two objects, 5 velocities free'),
        H('%s objects[1,0]' % k, objects(k, [1, 0]), 'two objects, other order'),
    ]
HARNESSES += [
    H('vlocal[R]', algo('vlocal', 'gen', {'R': ('1/2', 2)}, r=('2',)), 'R200 free'),
    H('vlocal shell[vA]', algo('vlocal', 'gen', {'vA': ('1/4', 6)}, r=('5/2', '5'), shell=True), 'shells, 2 radii'),
    H('vlocal shell[A]', algo('vlocal', 'id', {'A': ('1/4', 6)}, r=('5/2', '5'), shell=True), 'shells, a pair of positions free'),
    H('vlocal shell[gen,A]', algo('vlocal', 'gen', {'A': ('1/4', 6)}, r=('5/2', '5'), shell=True), 'the same in a general frame'),
    H('vlocal shell reduced[gen,A]', algo('vlocal', 'gen', {'A': ('1/2', 6)}, r=('2', '5'), shell=True, reduced=True, wall=2), 'reduced tensor in shells, general frame'),
    H('vlocal shell reduced[A]', algo('vlocal', 'id', {'A': ('1/2', 6)}, r=('2', '5'), shell=True, reduced=True, wall=2), 'reduced tensor in shells'),
    H('public local', public(False), 'getShapeCatVelLocal through the snapshot reader, two objects, 4 symbols'),
    H('public local shell', public(False, False, True), 'the same in shells'),
    H('public local reduced', public(False, True), 'the same, reduced'),
    H('public global', public(True), 'getShapeCatVelGlobal through the snapshot reader'),
]
OUTSIDE = 'velocity tensors whose eigenvectors are irrational in the inputs; more than 17 particles, more than 3 iterations; the velocity centre for CENTER = "mode" (the statement fixes it for "com"; the check expects the mean for both, as the code does)'
ASSUMPTIONS = ['LAPACK zheevr returns the ascending eigenvalues and an orthonormal eigenbasis of the tensor it is given', 'h5py returns the datasets as stored']
