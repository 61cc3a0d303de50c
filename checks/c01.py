"""C01 results do not depend on where the periodic boundary cuts an object"""
from cysym.runner import H
from shapes import *
import c05

DA = 'cosmic_profiles.dens_profs.dens_profs_algos'
SA = 'cosmic_profiles.shape_profs.shape_profs_algos'


def wrap(h, pts, T, L):
    """pts + T, wrapped once into [0, L) (pts and T lie in [0, L))"""
    out = []
    for p in pts:
        q = []
        for k in range(3):
            x = p[k] + T[k]
            if x >= L: x = x - L
            q.append(x)
        out.append(q)
    return out


def eqmod(h, got, want, L, what):
    """got = want modulo the box size, got in [0, L)"""
    if h.sym:
        if want >= L: want = want - L
        h.eq(got, want, what)
        h.true(got >= 0, what + ': not negative'); h.true(got < L, what + ': below the box size')
    else:
        d = abs(got - want) % L; d = min(d, L - d)
        h.true(d <= 1e-7 * L, what); h.true(0 <= got < L or abs(got) < 1e-9 * L, what + ': inside the box')


def extent(h, pts, L, axes=(0, 1, 2)):
    for k in axes:
        for i in range(len(pts)):
            for j in range(i):
                h.assume(pts[i][k] - pts[j][k] < L / 2 - h.q(1, 10 ** 6)); h.assume(pts[j][k] - pts[i][k] < L / 2 - h.q(1, 10 ** 6))


def centre(n, axis, public=True, Lsym=False):
    """n particles anywhere within half the box, any translation; one axis symbolic, the two others cut the object"""
    def f(h):
        internal_units(h)
        L = h.real('L', 5, 40) if Lsym else h.const(20)
        x = [h.real('x%d' % i, 0, h.q(5, 2) if Lsym else 10) for i in range(n)]
        t = h.real('t', 0, 5 if Lsym else 20)
        if not Lsym: h.assume(t < L)
        pts = [[h.const(v) for v in ((i * 7) % 5 + 1, (i * 3) % 4, i % 3)] for i in range(n)]
        if Lsym: pts = [[c / 4 for c in p] for p in pts]
        T = [h.const(17), h.const(19), h.const('37/2')] if not Lsym else [L - h.const('1/2')] * 3
        for i in range(n): pts[i][axis] = x[i]
        T[axis] = t if not Lsym else L - t
        if Lsym: h.assume(t > 0)
        extent(h, pts, L, (axis,))
        ms = [h.const(v) for v in (3, 1, 2, 5, 4)[:n]]
        M = sum_(h, ms)
        c = [sum_(h, [m * p[k] for m, p in zip(ms, pts)]) / M + T[k] for k in range(3)]
        w = wrap(h, pts, T, L)
        if public:
            o = dsp(h, h.arr(w), h.arr(ms), [list(range(n))], [1], L_BOX=L).getMassesCenters([0])
            cc, mm = o['centre'][0], o['mass'][0]
        else:
            a, b = h.load(DA).calcMassesCenters(h.arr(w), h.arr(ms), h.i32(range(n)), h.i32([n]), L, 'com')
            cc, mm = a[0], b[0]
        h.eq(mm, M, 'mass')
        for k in range(3): eqmod(h, cc[k], c[k], L, 'centre, axis %d, moves with the object' % k)
    return f


def centre_masses(h):
    """masses free, object cut by the boundary along x"""
    internal_units(h)
    m = [h.real('m%d' % i, h.q(1, 10), 10) for i in range(3)]
    t = h.real('t', 12, 19)
    pts = [[h.const(v), h.const(1), h.const(2)] for v in (1, 4, 8)]
    M = sum_(h, m); T = [t, h.const(0), h.const(0)]
    c = [sum_(h, [a * p[k] for a, p in zip(m, pts)]) / M + T[k] for k in range(3)]
    o = dsp(h, h.arr(wrap(h, pts, T, h.const(20))), h.arr(m), [[2, 0, 1]], [1], L_BOX=h.const(20)).getMassesCenters([0])
    for k in range(3): eqmod(h, o['centre'][0][k], c[k], h.const(20), 'centre, axis %d' % k)


def mode(free):
    def f(h):
        internal_units(h)
        L = h.const(20)
        t = h.real('t', 0, 20); h.assume(t < L)
        base = [[1, 2, 3], [2, 2, 4], [3, 1, 3], [2, 3, 2], [4, 2, 5], [8, 7, 1]]
        pts = [[h.const(v) for v in p] for p in base]
        if free: pts[5][0] = h.real('x', 0, 9)
        ms = [h.const(v) for v in (1, 2, 1, 3, 1, 2)]
        ref, _ = h.load(DA).calcMassesCenters(h.arr(pts), h.arr(ms), h.i32(range(6)), h.i32([6]), 0.0, 'mode')
        ref = [ref[0][k] for k in range(3)]
        T = [t, h.const(16), h.const(18)]
        o = dsp(h, h.arr(wrap(h, pts, T, L)), h.arr(ms), [[3, 0, 5, 1, 2, 4]], [1], L_BOX=L, CENTER='mode').getMassesCenters([0])
        for k in range(3): eqmod(h, o['centre'][0][k], ref[k] + T[k], L, 'mode centre, axis %d' % k)
    return f


def trans(h, cut, axis='x'):
    """translation: one symbolic component, the others cut the object, touch it or leave it alone"""
    t = h.real('t', 0, 20); h.assume(t < 20)
    T = [h.const({'cut': '73/4', 'far': '1'}[c]) for c in cut]
    T.insert('xyz'.index(axis), t)
    return T


def dens(kind, cut, axis='x', center='com', rev=False):
    """density profiles of an object at any place in the box equal those of the same object far from the boundary (box size 0)"""
    def f(h):
        internal_units(h)
        L = h.const(20)
        T = trans(h, cut, axis)
        u = h.real('u', h.q(1, 4), 3) if kind != 'kernel' else h.const(1)
        pts = [[3 + u, 3, 3], [3 - u, 3, 3], [3, h.const(5), 3], [3, h.const(1), 3], [3, 3, h.const('7/2')], [3, 3, h.const('5/2')]]
        pts = [[h.q(c, 1) for c in p] for p in pts]
        ms = [h.const(v) for v in (1, 1, 2, 2, 3, 3)]
        order = [2, 5, 0, 1, 4, 3] if rev else list(range(6))
        r = [h.const(v) for v in ('1/2', '3/2', '3')]
        def get(X, box):
            al = h.load(DA)
            X = h.arr([[h.q(c, 1) for c in p] for p in X])
            a = (h.arr(ms), h.arr([h.const(1)]))
            cat = (h.i32(order), h.i32([6]), box, center)
            if kind == 'direct': return dsp(h, X, h.arr(ms), [order], [h.const(1)], L_BOX=box, CENTER=center).estDensProfs(h.arr(r), [0], True, True)
            if kind == 'kernel': return dsp(h, X, h.arr(ms), [order], [h.const(1)], L_BOX=box, CENTER=center).estDensProfs(h.arr([h.const(v) for v in ('1/2', '1', '2')]), [0], False, True) # the kernel is narrow: radii at which particles lie
            ax = [h.const(v) for v in ('1/2', '3/2', '3')]
            F = c05.frame(h, 'rot')
            return al.calcDensProfsEllDirectBinning(X, a[0], a[1], h.arr(r), h.arr([ax]), h.arr([[x * h.q(3, 4) for x in ax]]), h.arr([[x / 2 for x in ax]]),
                                                    h.arr([[F[0]] * 3]), h.arr([[F[1]] * 3]), h.arr([[F[2]] * 3]), *cat)
        want = get(pts, 0.0)
        got = get(wrap(h, pts, T, L), L)
        h.eq(got, want, 'density profile does not depend on the place in the box')
    return f


def shp(kind, cut, axis='x', frame='rot', free=None, center='com'):
    def f(h):
        internal_units(h)
        L = h.const(20)
        T = trans(h, cut, axis)
        eig = Eig(h, (frame,))
        F = [[h.const(x) for x in row] for row in FRAMES[frame]]
        a = h.real('a', 1, 3) if free else h.const(2)
        rel = octant(h, F, a, h.const(1), None) + octant(h, F, None, None, h.q(1, 2))
        pts = [at(p, (4, 7, 11)) for p in rel]; ms = [h.const(2)] * 4 + [h.const(1)] * 2
        vel = [[2 * c for c in p] for p in octant(h, F, h.const(2), h.const(3), None) + octant(h, F, None, None, h.const(1))]
        r = [h.const(5), h.const(6)] if 'local' in kind else [h.const(1)]
        order = [4, 0, 3, 5, 1, 2]
        # the shape itself, from the definition (regular eigenvalues)
        ref = [shape(h, eig, rel, ms, x if 'local' in kind else x + 6, None, h.q(1, 20), 3, 3, False, vels=vel if kind[0] == 'v' else None) for x in r]
        al = h.load(SA)
        X = h.arr([[h.q(c, 1) for c in p] for p in wrap(h, pts, T, L)])
        cat = (h.i32(order), h.i32([6]), L)
        m, R = h.arr(ms), h.arr([h.const(1)])
        t, wall, mn = h.q(1, 20), 3, 3
        if kind == 'local': o = al.calcMorphLocal(X, m, R, *cat, h.arr(r), t, wall, mn, center, False, False)
        elif kind == 'global': o = al.calcMorphGlobal(X, m, R, *cat, t, wall, mn, center, 6.0, False)
        elif kind == 'vlocal': o = al.calcMorphLocalVelDisp(X, h.arr(vel), m, R, *cat, h.arr(r), t, wall, mn, center, False, False)
        else: o = al.calcMorphGlobalVelDisp(X, h.arr(vel), m, R, *cat, t, wall, mn, center, 6.0, False)
        d, q, s, mi, it, ma, cc, mm = o[:8]
        for j, w in enumerate(ref):
            ix = (0, j) if 'local' in kind else (0,)
            compare(h, {'d': d[ix], 'q': q[ix], 's': s[ix], 'minor': mi[ix], 'inter': it[ix], 'major': ma[ix], 'is_conv': not h.isnan(q[ix])}, w, 'radius %d: ' % j)
        h.eq(mm[0], h.const(10), 'mass')
        for k in range(3): eqmod(h, cc[0][k], (4, 7, 11)[k] + T[k], L, 'centre, axis %d' % k)
    return f


def api_shape(glb, kpc):
    """public call, two objects cut at different faces; the box size is converted with the coordinates"""
    def f(h):
        cfg = internal_units(h)
        if kpc:
            cfg.updateInUnitSystem('kpc/h', 'E+10Msun/h', 1e5, 0.5)
        sc = h.const(1000) if kpc else h.const(1)
        L = h.const(20)
        t = h.real('t', 0, 20); h.assume(t < 20)
        eig = Eig(h, ('id',))
        F = [[h.const(x) for x in row] for row in FRAMES['id']]
        rel = octant(h, F, h.const(2), h.const(1), None) + octant(h, F, None, None, h.q(1, 2))
        ms = [h.const(2)] * 4 + [h.const(1)] * 2
        ref = [shape(h, eig, rel, ms, x, None, h.q(1, 20), 3, 3, False) for x in ([h.const(7)] if glb else [h.const(5), h.const(6)])]
        base = [at(p, (4, 7, 11)) for p in rel]
        A = wrap(h, base, [t, h.const(16), h.const(3)], L); B = wrap(h, base, [h.const('31/2'), t, h.const(17)], L)
        X = h.arr([[h.q(c, 1) * sc for c in p] for p in A + B])
        o = dsp(h, X, h.arr(ms + ms), [list(range(6)), list(range(11, 5, -1))], [sc, sc], L_BOX=L * sc)
        k = katz(h, [h.const(5), h.const(6)], h.q(1, 20), 3, 3)
        out = o.getShapeCatGlobal([1, 0], k) if glb else o.getShapeCatLocal([1, 0], k)
        for row in range(2):
            for j, w in enumerate(ref): compare(h, out[row] if glb else out[row][j], w, 'object %d radius %d: ' % (row, j))
    return f


def nobox(h):
    """box size 0: coordinates are used exactly as given, however large"""
    internal_units(h)
    x = [[h.real('x%d%d' % (i, k), -50, 50) for k in range(3)] for i in range(2)]
    ms = [h.const(3), h.const(1)]
    o = dsp(h, h.arr(x), h.arr(ms), [[0, 1]], [h.const(1)], L_BOX=0.0)
    c = o.getMassesCenters([0])['centre'][0]
    for k in range(3): h.eq(c[k], (3 * x[0][k] + x[1][k]) / 4, 'centre, axis %d' % k, scale=1)


HARNESSES = [H('centre[3,%s]' % 'xyz'[a], centre(3, a), '3 particles, 3 coordinates and the translation along one axis free, the object sits in a corner of the box') for a in range(3)]
HARNESSES += [
    H('centre[L]', centre(2, 0, Lsym=True), '2 particles, box size free in [5,40]'),
    H('centre[masses]', centre_masses, '3 masses and the translation free'),
    H('centre[mode]', mode(False), 'CENTER = mode, 6 particles, translation free'),
    H('centre[mode,x]', mode(True), 'CENTER = mode, translation and one coordinate free'),
    H('no box', nobox, '2 particles anywhere in [-50,50]^3, box size 0'),
]
for kind in ('direct', 'kernel', 'ell'):
    for cut, ax in ((('far', 'far'), 'x'), (('cut', 'far'), 'y'), (('cut', 'cut'), 'z')):
        HARNESSES.append(H('%s[%s,%s]' % (kind, '+'.join(cut), ax), dens(kind, cut, ax, rev=ax == 'y'), '6 particles, translation along %s free%s, other axes %s' % (ax, '' if kind == 'kernel' else ' and one pair distance', '/'.join(cut))))
HARNESSES.append(H('direct[mode]', dens('direct', ('cut', 'cut'), 'x', 'mode'), 'CENTER = mode'))
for kind in ('local', 'global', 'vlocal', 'vglobal'):
    HARNESSES += [H('%s[far,x]' % kind, shp(kind, ('far', 'far'), 'x', 'rot', True), 'shapes, 6 particles, translation along x and one length free'),
                  H('%s[corner,y]' % kind, shp(kind, ('cut', 'cut'), 'y', 'gen'), 'object in a corner, general orientation'),
                  H('%s[edge,z]' % kind, shp(kind, ('far', 'cut'), 'z', 'rot', False, 'mode'), 'object at an edge, CENTER = mode')]
HARNESSES += [H('public local', api_shape(False, False), 'getShapeCatLocal, two objects cut at different faces'),
              H('public global', api_shape(True, False), 'getShapeCatGlobal'),
              H('public local kpc', api_shape(False, True), 'input in kpc/h: coordinates, R200 and box size are converted alike')]
OUTSIDE = 'objects larger than half the box; more than 6 particles; symbolic translation along more than one axis at once (the other axes take fixed cutting or non-cutting values)'
ASSUMPTIONS = ['LAPACK zheevr returns the ascending eigenvalues and an orthonormal eigenbasis of the tensor it is given']
