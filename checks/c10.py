"""C10 results do not depend on thread count, schedule or left-over scratch contents"""
from cysym.runner import H
from shapes import *
from c03 import frames
import sched

LISTS = [list(range(8)), list(range(13, 7, -1)), [14, 16, 15, 17]]
REPS = 40


def objects(h, vel=False):
    """three objects of 8, 6 and 4 particles; sizes differ so that scratch of a bigger object outlives into a smaller one"""
    a = h.real('a', 2, h.q(9, 4)); b = h.real('b', 2, h.q(9, 4))
    G, I = frames(h, 'gen'), frames(h, 'id')
    P = [octant(h, G, a, h.const(1), h.q(1, 2)), octant(h, I, h.q(1, 3), b, None) + octant(h, I, None, None, h.const(1)), octant(h, I, h.const(3), h.const(1), None)]
    V = [octant(h, G, h.const(1), a, h.q(1, 3)), octant(h, I, b, h.const(3), None) + octant(h, I, None, None, h.const(4)), octant(h, I, h.const(3), h.const(1), None)]
    ms = [h.const(2)] * 8 + [h.const(1)] * 4 + [h.const(3)] * 2 + [h.const(4)] * 4
    return h.arr([at(p) for o in P for p in o]), h.arr([at(p, (5, -3, 8)) for o in V for p in o]), h.arr(ms), [h.const(1), h.const('3/4'), h.const('3/2')]


def both(h, call, rows=True):
    """call(lists, radii, which) -> list of arrays whose first axis is the object"""
    single = [call([LISTS[p]], [p]) for p in range(3)]
    want = [[s[k][0] for s in single] for k in range(len(single[0]))]
    if h.sym:
        W = [h.np.array([w if not hasattr(w, 'tolist') else list(w.reshape(-1)) for w in ws]) for ws in want]
        sched.check(h, W, lambda: [g if len(g.shape) == 1 else g.reshape(g.shape[0], -1) for g in call(LISTS, [0, 1, 2])])
        return
    import numpy as np
    try:
        for n in (1, 2, 4, 8, 16):
            sched.threads(n)
            for rep in range(2):
                for pat in ([0, 1, 2], [2, 0, 1], [1, 0]):
                    sel = pat * REPS
                    got = call([LISTS[p] for p in sel], sel)
                    for k, g in enumerate(got):
                        h.eq(np.array(g), np.array([want[k][p] for p in sel]), '%d threads: result %d' % (n, k), tol=1e-9)
    finally: sched.threads(2)


def cat(h, lists): return h.i32([i for l in lists for i in l]), h.i32([len(l) for l in lists])


def masses(center):
    def f(h):
        X, V, ms, R = objects(h)
        al = h.load('cosmic_profiles.dens_profs.dens_profs_algos')
        both(h, lambda L, w: list(al.calcMassesCenters(X, ms, *cat(h, L), 0.0, center)))
    return f


def prof(kind, L_BOX=0.0):
    def f(h):
        X, V, ms, R = objects(h)
        al = h.load('cosmic_profiles.dens_profs.dens_profs_algos')
        r = h.arr([h.const(v) for v in ('2', '5/2', '3')])
        def call(L, w):
            Rw = h.arr([R[i] for i in w])
            if kind == 'sph': return [al.calcDensProfsSphDirectBinning(X, ms, Rw, r, *cat(h, L), L_BOX, 'com')]
            if kind == 'kernel': return [al.calcDensProfsKernelBased(X, ms, Rw, r, *cat(h, L), L_BOX, 'com')]
            # ellipsoidal: axes of the three objects at the three radii
            ax = [[[h.const(v) * k for v in row] for row in (('2', '3', '4'), ('3/2', '3', '7/2'), ('2', '5/2', '3'))] for k in (1, h.q(1, 2), h.q(1, 4))]
            a, b, c = [h.arr([ax[k][i] for i in w]) for k in range(3)]
            one = [[[h.const(1 if k == c else 0) for c in range(3)] for _ in range(3)] for k in range(3)]
            ma, it, mi = [h.arr([one[(k + i) % 3] for i in w]) for k in range(3)]
            return [al.calcDensProfsEllDirectBinning(X, ms, Rw, r, a, b, c, ma, it, mi, *cat(h, L), L_BOX, 'com')]
        both(h, call)
    return f


def morph(kind, reduced=False, shell=False, L_BOX=0.0):
    def f(h):
        Eig(h, ('gen', 'id'))
        X, V, ms, R = objects(h)
        al = h.load('cosmic_profiles.shape_profs.shape_profs_algos')
        r = h.arr([h.const(3), h.const(5)]) if not shell else h.arr([h.const(3), h.const(6)])
        tol, wall, mn = h.q(1, 10), 2, 5
        def call(L, w):
            Rw = h.arr([R[i] for i in w]); c, s = cat(h, L)
            if kind == 'local': o = al.calcMorphLocal(X, ms, Rw, c, s, L_BOX, r, tol, wall, mn, 'com', reduced, shell)
            elif kind == 'global': o = al.calcMorphGlobal(X, ms, Rw, c, s, L_BOX, tol, wall, mn, 'com', 6.0, reduced)
            elif kind == 'vlocal': o = al.calcMorphLocalVelDisp(X, V, ms, Rw, c, s, L_BOX, r, tol, wall, mn, 'com', reduced, shell)
            else: o = al.calcMorphGlobalVelDisp(X, V, ms, Rw, c, s, L_BOX, tol, wall, mn, 'com', 6.0, reduced)
            return [x for x in o]
        both(h, call)
    return f


def objcat(h):
    """group tables of three groups: number of subhaloes, sizes and radii symbolic"""
    h.world(nocache=True) if h.sym else None
    al = h.load('cosmic_profiles.gadget.gen_catalogues')
    ns = [(1, 1, 1), (2, 0, 1), (0, 1, 2)][h.choice('subhaloes', 3)]
    off = [sum(ns[:i]) for i in range(3)]
    sl = [h.int('len%d' % i, 1, 2) if i in off else 3 for i in range(sum(ns))]
    ff = [sl[off[i]] + 1 if ns[i] else 2 for i in range(3)]
    # first subhalo fits into its group
    for i in range(3):
        if ns[i]: h.assume(sl[off[i]] <= ff[i])
    h.assume(any(ns[i] and sl[off[i]] >= 2 for i in range(3)))
    R = h.reals('R', 3, h.q(1, 10), 5)
    a = h.i32(ns), h.i32(sl), h.i32(ff), h.arr(R)
    call = lambda: list(al.calcObjCat(*a, 2))
    want = call()
    if h.sym:
        sched.check(h, want, call)
        return
    import numpy as np
    try:
        big = [np.tile(x, 300) for x in a]
        for n in (1, 2, 4, 8):
            for rep in range(6):
                sched.threads(n); al.calcObjCat.inner.cache_clear()
                got = list(al.calcObjCat(*big, 2))
                tot = int(np.sum(a[2]))
                idx = np.concatenate([np.array(want[0]) + k * tot for k in range(300)])
                h.eq(got[0], idx, '%d threads: index lists' % n); h.eq(got[1], np.tile(want[1], 300), 'radii'); h.eq(got[2], np.tile(want[2], 300), 'sizes')
    finally: sched.threads(2)


B = '3 objects of 8, 6 and 4 particles, 2 free axes; every assignment of the objects to up to 3 threads and every order (symbolic), arbitrary left-overs'
HARNESSES = [H('masses %s' % c, masses(c), B) for c in ('com',)]
HARNESSES += [H('profile %s' % k, prof(k), B) for k in ('sph', 'kernel', 'ell')]
HARNESSES += [H('profile %s box' % k, prof(k, 30.0), B + ', periodic box') for k in ('sph', 'ell')]
HARNESSES += [H('shape %s' % k, morph(k), B) for k in ('local', 'global', 'vlocal', 'vglobal')]
HARNESSES += [H('shape local reduced', morph('local', True), B), H('shape local shell', morph('local', False, True), B), H('shape vlocal shell', morph('vlocal', False, True), B), H('shape global reduced', morph('global', True), B, tier='thorough')]
HARNESSES += [H('object catalogue', objcat, '3 groups, 3 subhalo patterns, sizes symbolic, every schedule')]
OUTSIDE = 'more than three objects and threads (an iteration only ever meets left-overs of the others, which are arbitrary in the second pass); the OpenMP runtime and the memory model; hand-written parallelism inside numpy/LAPACK'
ASSUMPTIONS = ['data-race freedom is judged on the memoryview accesses of the translated loop bodies; a violation is replayed on the real build with many copies of the objects on 1-16 threads']
