"""C22 pictures of objects show those objects"""
import os
from cysym.runner import H
from shapes import *
from gadgetfiles import *

SC = 'cosmic_profiles.shape_profs.shape_profs_classes'
K = 6      # points per drawn ellipsoid (500 in the pictures)


class Pic:
    """stand-in for matplotlib: what is drawn goes to the current figure"""
    def __init__(self, log): self._log = log
    def __call__(self, *a, **k): return self
    def figure(self, *a, **k): self._log.append([]); return self
    def savefig(self, *a, **k): self._log[-1].append(('savefig', a, k))
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        def f(*a, **k):
            if not self._log: self._log.append([])
            self._log[-1].append((name, a, k))
            return self
        return f


def install(h):
    m = h.load(SC); log = []
    p = Pic(log)
    for k in ('plt', 'pyplot', 'Axes3D', 'FontProperties'): setattr(m, k, p)
    m.set_axes_equal = lambda ax: None
    if hasattr(m, 'fibonacci_ellipsoid'):
        orig = h.load('cosmic_profiles.common.python_routines').fibonacci_ellipsoid
        m.fibonacci_ellipsoid = lambda a, b, c, samples=1: orig(a, b, c, samples=min(samples, K))
    return log


def num(v): return v[()] if hasattr(v, 'ndim') and not hasattr(v, 'n') and not v.ndim else v


def row(h, s, i):
    """axes and semi-axes of one line of a shape catalogue, in output units"""
    return [([num(s[k][i][c]) for c in range(3)], num(s['d'][i]) * (1 if k == 'major' else num(s['q' if k == 'inter' else 's'][i]))) for k in ('major', 'inter', 'minor')]


def close(h, a, b):
    if h.sym: return bool(a == b)
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b), 1e-3)


def on(h, p, c, rw):
    """the quantity that is one on the ellipsoid of the row about c"""
    t = 0
    for ax, l in rw:
        x = 0
        for k in range(3): x = x + (p[k] - c[k]) * ax[k]
        t = t + (x / l) ** 2
    return t


def picture(h, fig, kind, num_, pts, ms, shift, lo, L, S, suffix):
    """one picture of object num_: pts its particles in one piece, S its rows of the shape catalogue (output units)"""
    what = 'object %d: ' % num_
    names = [c[1][0] for c in fig if c[0] == 'savefig']
    h.true([os.path.basename(x) for x in names] == ['%sObj%d%s.pdf' % (kind.capitalize(), num_, suffix)], what + 'the file is named after the object')
    sc = {}
    for c in fig:
        if c[0] == 'scatter': sc.setdefault(str(c[2].get('label')).split(';')[0], []).append(c)
    h.true(len(sc.get('Particles', [])) == 1 and len(sc.get('COM', [])) == 1 and len(sc.get('Inferred', [])) >= 1, what + 'particles, centre and ellipsoids are drawn')
    if not (len(sc.get('Particles', [])) == 1 and len(sc.get('COM', [])) == 1): return
    P = sc['Particles'][0]; C = [num(v) for v in sc['COM'][0][1]]
    n = len(pts)
    ok = h.true(all(len(P[1][c]) == n for c in range(3)), what + 'every particle is drawn')
    if not ok: return
    W = 0
    for m in ms: W = W + m
    for c in range(3):
        cm = 0
        for p, m in zip(pts, ms): cm = cm + p[c] * m
        cm = cm / W
        # about the same centre, whichever image of it is drawn
        for i in range(n): h.eq(P[1][c][i] - C[c], (pts[i][c] - cm) * lo, what + 'particle %d, coordinate %d relative to the centre' % (i, c), scale=1)
        w = cm * lo
        h.true(close(h, C[c], w) or (L is not None and (close(h, C[c], w - L * lo) or close(h, C[c], w + L * lo))), what + 'coordinate %d of the centre, up to the box length' % c)
    sz = P[2].get('s')
    for i in range(1, n): h.eq(sz[i] * ms[0], sz[0] * ms[i], what + 'marker of particle %d in proportion to its mass' % i)
    rows = S
    conv = [r for r in rows if not h.isnan(r[0][1])]
    seen = []
    for e in sc['Inferred']:
        E = [[e[1][c][j] for c in range(3)] for j in range(len(e[1][0]))]
        if h.isnan(E[0][0]): seen.append(None); continue
        k = [r for r in conv if close(h, on(h, E[0], C, r), 1)]
        h.true(len(k) >= 1, what + 'a drawn ellipsoid is one of the inferred ones, about the centre')
        if not k: continue
        seen.append(rows.index(k[0]))
        for j, p in enumerate(E): h.eq(on(h, p, C, k[0]), 1, what + 'point %d of an ellipsoid' % j, tol=1e-6)
        h.true(any(not close(h, E[0][c], E[j][c]) for j in range(1, len(E)) for c in range(3)), what + 'the ellipsoid is not a point')
    last = None if h.isnan(rows[-1][0][1]) else len(rows) - 1
    h.true(last in seen, what + 'the outermost ellipsoid is drawn')
    for c in fig:
        if c[0] != 'quiver': continue
        a = [num(v) for v in c[1]]; l = c[2].get('length')
        lab = str(c[2].get('label') or '').split(' ')[0]
        if h.isnan(l) or h.isnan(a[3]): continue
        for k in range(3): h.eq(a[k], C[k], what + 'an arrow starts at the centre')
        which = {'Major': (0,), 'Intermediate': (1,), 'Minor': (2,)}.get(lab, (0, 1, 2))
        hit = False
        for r in conv:
            for w in which:
                ax, ln = r[w]
                n2 = 0
                for k in range(3): n2 = n2 + a[3 + k] ** 2
                if close(h, l * l * n2, ln * ln):      # what is drawn: the given length times the given vector
                    cr = [a[3 + (k + 1) % 3] * ax[(k + 2) % 3] - a[3 + (k + 2) % 3] * ax[(k + 1) % 3] for k in range(3)]
                    if all(close(h, x, 0) for x in cr): hit = True
        h.true(hit, what + 'arrow %s has the direction and the length of an axis it names' % lab)


def viz(kind, sel, r=('1', '5/4'), box=False, center='com', free='x', mn=3, gadget_=False, turn=None):
    def f(h):
        F = Files(h) if gadget_ else None
        try:
            cfg = h.load('cosmic_profiles.common.config')
            cfg.updateInUnitSystem('Mpc/h', 'E+10Msun/h', 1e5, 0.5)
            Li, Mi, V = cfg.getLMVInternal()
            lo = h.real('lo', h.q(1, 8), 8) if free == 'unit' else h.const(1)
            cfg.updateOutUnitSystem(lo * Li, h.const(3) * Mi, 1e5, 0.5)
            Eig(h, ('gen', 'id'))
            L = h.const(64) if box else None
            t = h.int('i', 0, 63) + h.real('f', h.q(1, 10), h.q(9, 10)) if free == 'x' else h.const(10)      # never on a boundary
            G = [[h.const(v) for v in q] for q in FRAMES['gen']]; I = [[h.const(v) for v in q] for q in FRAMES['id']]
            O = [octant(h, G, h.const(3), h.const(2), h.const(1)), octant(h, I, h.const(2), h.const('3/2'), h.q(1, 2)), octant(h, I, h.const(1), None, None)]
            if turn is not None: O[turn] = O[turn] + octant(h, (G, I)[turn], h.const(2), h.const(9), h.const(5))      # the outer particles point elsewhere and are of another mass
            off = [[t, h.const(20), h.const(5)], [h.const(30), h.const(7), t if box else h.const(11)], [h.const(40), h.const(40), h.const(40)]]
            w = h.real('w', h.q(1, 2), 3) if free == 'w' else h.const(2)
            ms = [[h.const(2)] * 8, [w] * 8, [h.const(1)] * len(O[2])]
            if turn is not None: ms[turn] = ms[turn] + [h.const(3)] * 8
            whole = [[[a + b for a, b in zip(p, off[i])] for p in O[i]] for i in range(3)]
            def wrap(v): return h.ite(v < 0, v + L, h.ite(v >= L, v - L, v)) if box else v
            X = [[wrap(c) for c in p] for o in whole for p in o]
            M = [m for o in ms for m in o]
            n = [len(o) for o in O]; st = [0, n[0], n[0] + n[1]]
            log = install(h)
            k = katz(h, [h.const(v) for v in r], h.q(1, 20), 4, mn, False, False)
            if gadget_:
                snap = F.snapshot('snap_010', {1: {'POS ': h.arr(X), 'MASS': h.arr(M), 'VEL ': h.arr(X)}}, {'boxsize': L if box else h.const(0)})
                grp = F.groups([{'len': [[0, x, 0, 0, 0, 0] for x in n], 'r200': [h.const(4)] * 3, 'nsub': [1] * 3, 'sub': [[0, x, 0, 0, 0, 0] for x in n]}])
                o = gadget(h, F, snap, grp); suffix = '_dm_010'
            else:
                o = dsp(h, h.arr(X), h.arr(M), [list(range(s, s + c)) for s, c in zip(st, n)], [h.const(4), h.const(4), h.const(4)], L_BOX=L if box else h.const(0), CENTER=center); suffix = '_001'
            S = o.getShapeCatLocal(list(sel), k) if kind == 'local' else o.getShapeCatGlobal(list(sel), k)
            del log[:]
            (o.vizLocalShapes if kind == 'local' else o.vizGlobalShapes)(list(sel), k)
            figs = [g for g in log if any(c[0] == 'savefig' for c in g)]
            h.true(len(figs) == len(sel), 'one picture per object')
            for i, g in enumerate(figs):
                j = sel[i]
                rows = [row(h, S[i], q) for q in range(len(r))] if kind == 'local' else [row1(h, S[i])]
                picture(h, g, kind, j, whole[j], ms[j], t, 1 / lo, L, rows, suffix)
        finally:
            if F: F.done()
    return f


def row1(h, s):
    return [([num(s[k][c]) for c in range(3)], num(s['d']) * (1 if k == 'major' else num(s['q' if k == 'inter' else 's']))) for k in ('major', 'inter', 'minor')]


def equal_axes(h):
    """the three axes of a picture are given the same length, centred where they were and covering what they covered"""
    pr = h.load('cosmic_profiles.common.python_routines')
    lim = [[h.real('a%d' % i, -5, 5), h.real('b%d' % i, -5, 5)] for i in range(3)]
    for a, b in lim: h.assume(a < b)
    got = {}
    class Ax:
        def get_xlim3d(self): return tuple(lim[0])
        def get_ylim3d(self): return tuple(lim[1])
        def get_zlim3d(self): return tuple(lim[2])
        get_xlim = get_xlim3d; get_ylim = get_ylim3d; get_zlim = get_zlim3d
        def set_xlim3d(self, *a): got['x'] = list(a[0]) if len(a) == 1 else list(a)
        def set_ylim3d(self, *a): got['y'] = list(a[0]) if len(a) == 1 else list(a)
        def set_zlim3d(self, *a): got['z'] = list(a[0]) if len(a) == 1 else list(a)
        set_xlim = set_xlim3d; set_ylim = set_ylim3d; set_zlim = set_zlim3d
    pr.set_axes_equal(Ax())
    h.true(sorted(got) == ['x', 'y', 'z'], 'all limits are set')
    e = 0 if h.sym else 1e-9
    for c, (a, b) in zip('xyz', lim):
        h.eq(got[c][0] + got[c][1], a + b, 'middle of ' + c, scale=1)
        h.eq(got[c][1] - got[c][0], got['x'][1] - got['x'][0], 'length of ' + c)
        h.true(got[c][0] <= a + e, 'lower end of ' + c); h.true(got[c][1] >= b - e, 'upper end of ' + c)


def surface(n):
    def f(h):
        """points of fibonacci_ellipsoid lie on the ellipsoid, from pole to pole; those of fibonacci_sphere on the unit sphere"""
        pr = h.load('cosmic_profiles.common.python_routines')
        a, b, c = h.reals('a', 3, h.q(1, 10), 10)
        for pts, ax, what in ((pr.fibonacci_ellipsoid(a, b, c, samples=n), (a, b, c), 'ellipsoid'), (pr.fibonacci_sphere(samples=n), (1, 1, 1), 'sphere')):
            h.true(len(pts) == n, 'number of points')
            for i, p in enumerate(pts): h.eq((p[0] / ax[0]) ** 2 + (p[1] / ax[1]) ** 2 + (p[2] / ax[2]) ** 2, 1, '%s: point %d' % (what, i), tol=1e-9)
    return f


HARNESSES = [
    H('local', viz('local', [0, 1]), '2 objects of 8 particles, 2 radii, one coordinate of an object symbolic'),
    H('local order', viz('local', [1, 0], free='unit'), 'other order, output unit of length symbolic'),
    H('local second', viz('local', [1], free='w'), 'the second object only, masses symbolic'),
    H('local box', viz('local', [0, 1], box=True), 'periodic box; one object at a symbolic place along x, one along z'),
    H('local NaN', viz('local', [2, 0], free='unit'), 'an object without a shape'),
    H('local one radius', viz('local', [0], r=('5/4',), free='unit'), 'one radius'),
    H('local six radii', viz('local', [0], r=('1', '9/8', '5/4', '11/8', '3/2', '13/8'), free='unit'), 'six radii'),
    H('local eleven radii', viz('local', [0], r=tuple('%d/8' % (8 + i) for i in range(11)), free='none'), 'eleven radii, nothing symbolic but the iteration', budget=200),
    H('local turning', viz('local', [2, 0], r=('3/2', '13/8', '7/4', '15/8', '2', '9/4', '7/2'), free='unit', turn=0), 'seven radii; the axes of the object turn with radius, particles of unequal masses', budget=150),
    H('local turning second', viz('local', [1], r=('3/2', '9/4', '7/2'), free='w', turn=1), 'three radii; the axes of the object turn with radius, particles of unequal masses, masses symbolic'),
    H('local mode', viz('local', [1, 0], box=True, center='mode'), 'CENTER mode in a periodic box'),
    H('local Gadget', viz('local', [1, 0], box=True, gadget_=True), 'objects read from files, in a periodic box'),
    H('global', viz('global', [0, 1]), 'one coordinate symbolic'),
    H('global order', viz('global', [1, 0], free='unit'), 'other order, output unit of length symbolic'),
    H('global second', viz('global', [1], free='w'), 'the second object only, masses symbolic'),
    H('global box', viz('global', [0, 1], box=True), 'periodic box; one object at a symbolic place along x, one along z'),
    H('global NaN', viz('global', [2, 0], free='unit'), 'an object without a shape'),
    H('global turning', viz('global', [1, 0], free='w', turn=1), 'particles of unequal masses, masses symbolic'),
    H('global turning first', viz('global', [1, 0], turn=0, box=True), 'particles of unequal masses, periodic box, one coordinate symbolic'),
    H('global mode', viz('global', [1, 0], box=True, center='mode'), 'CENTER mode in a periodic box'),
    H('global Gadget', viz('global', [1, 0], box=True, gadget_=True), 'objects read from files, in a periodic box'),
    H('axes', equal_axes, 'arbitrary limits'),
    H('surface 2', surface(2), '2 points, semi-axes symbolic'), H('surface 5', surface(5), '5 points, semi-axes symbolic'), H('surface 1', surface(1), '1 point'),
]
OUTSIDE = 'what matplotlib makes of the calls; objects of more than 5000 particles, of which a random subset is drawn; the number of points per ellipsoid (500 in the pictures, %d here); labels' % K
ASSUMPTIONS = ['eigen-decompositions exact in a known frame', 'matplotlib draws what it is told to']
