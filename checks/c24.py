"""C24 results do not depend on what was called before"""
from cysym.runner import H
from c03 import *
from c07 import cluster

FRESH = True      # numeric runs: one process each


def data(h):
    """B, the object under test, and A, another one; masses of one object of B symbolic"""
    w = h.real('w', h.q(1, 2), 3)
    X, ms, lists, R = make(h, False)
    P, M = cluster(h, frames(h, 'gen'), {}, TWELVE)
    X = X + [at(p, (61, 43, 50)) for p in P]; ms = ms + M; lists = lists + [list(range(18, 30))]; R = R + [h.const(2)]   # for the default settings
    B = ([[h.const(v) if not hasattr(v, 'key') else v for v in p] for p in X], [m * w if i < 8 else m for i, m in enumerate(ms)], lists, R)
    A = ([[c + 3 * (k + 1) for k, c in enumerate(p)] for p in X], [m * 5 for m in ms], [lists[1], lists[0], lists[2], lists[3]], [h.const(2), h.const('5/4'), h.const(1), h.const('3/2')])   # the same numbers of objects and particles
    rho = h.reals('rho', (3, 3), h.q(1, 10), 9)
    return A, B, rho


TWELVE = {'a': '2', 'b': '1', 'c': '1/2', 'A': '3', 'B': '2'}


def defaults(h, o, s, dens):
    """results for the settings the package uses if none are given"""
    pr = h.load('cosmic_profiles.common.python_routines')
    r = o.getShapeCatGlobal([len(o.getIdxCat()[1]) - 1])
    k = pr.default_katz_config
    return fields(r, SH) + [r['is_conv'].astype(float), h.arr([h.core.num(v) if h.sym else float(v) for v in k['ROverR200']]), h.arr([k[x] for x in ('IT_TOL', 'IT_WALL', 'IT_MIN')] + [int(k['REDUCED']), int(k['SHELL_BASED'])])]


METHODS = dict(METHODS, defaults=defaults)


def build(h, D, box=0): return dsp(h, h.arr(D[0]), h.arr(D[1]), D[2], D[3], L_BOX=h.const(box))


def prep(h):
    internal_units(h)
    stub(h)
    rec = Rec()
    for m in ('cosmic_profiles.shape_profs.shape_profs_classes', 'cosmic_profiles.shape_profs.shape_profs_tools', 'cosmic_profiles.dens_profs.dens_profs_tools'):
        m = h.load(m)
        for k in ('plt', 'pyplot'):
            if hasattr(m, k): setattr(m, k, rec)
    return rec


def units(h, other):
    cfg = h.load('cosmic_profiles.common.config')
    l, m, v = cfg.getLMVInternal()
    if other: cfg.updateOutUnitSystem(l * 3, m * 7, v * 5, LITTLE)
    else: cfg.updateOutUnitSystem(l, m, v, LITTLE)


LITTLE = 0.5
BASE = ('getMassesCenters', 'sph', 'kernel', 'ell', 'local', 'global', 'fit', 'conc')
PL = ('plotGlobalEpsHist', 'plotLocalEpsHist', 'plotLocalTHist', 'plotGlobalTHist', 'plotShapeProfs')


def step(h, o, name, sel, rho):
    """one earlier call; what it returns is overwritten"""
    if name in BASE + ('vlocal', 'vglobal'):
        for a in METHODS[name](h, o, sel, rho): wipe(a)
    elif name in PL: PLOTS[name](o, sel, katz(h, [h.const(3), h.const(4)], h.q(1, 10), 2, 5))
    elif name == 'getters':
        for a in [o.getR200()] + list(o.getXYZMasses()) + list(o.getIdxCat()): wipe(a)
        o.getObjInfo()
    elif name == 'refused':
        try: o.getMassesCenters([0, 0])
        except ValueError: pass
        try: o.getShapeCatLocal([9], katz(h, [h.const(3)], h.q(1, 10), 2, 5))
        except ValueError: pass
    elif name == 'units':
        units(h, True)
        try:
            METHODS['local'](h, o, sel, rho); METHODS['sph'](h, o, sel, rho); METHODS['getMassesCenters'](h, o, sel, rho); o.getR200(); o.getXYZMasses()
        finally: units(h, False)
    elif name == 'config':
        o.getShapeCatLocal(sel, katz(h, [h.const(5), h.const(6), h.const(7)], h.q(1, 2), 3, 4, True))
        o.getShapeCatGlobal(sel, katz(h, [h.const(5)], h.q(1, 2), 3, 4, True))
        o.estDensProfs(h.arr([h.const(v) for v in (2, 5, 7, 8)]), sel, True, True)


def wipe(a):
    if hasattr(a, 'shape') and a.ndim and a.size and getattr(getattr(a, 'flags', None), 'writeable', True):
        for i in range(a.shape[0]): a[i] = 77


OPS = BASE + PL + ('getters', 'refused', 'units', 'config')
SEL = ([0, 1, 2], [1], [2, 0])


def hist(final, n=1, ops=OPS):
    def f(h):
        Eig(h, ('gen', 'id'))
        A, B, rho = data(h)
        s = SEL[h.choice('selection', 3)] if n == 1 else SEL[2]
        def ref():
            prep(h)
            return [x.copy() for x in METHODS[final](h, build(h, B), list(s), rho)]
        want = h.fresh(ref)
        prep(h)
        a, b = build(h, A), build(h, B)
        for i in range(n):
            k = h.choice('call %d' % i, len(ops)); on = h.choice('object %d' % i, 2)
            step(h, (a, b)[on], ops[k], [list(s), [0, 1, 2] if ops[k] in ('fit', 'conc') else [2, 1]][on], rho if on else rho[::-1])
        got = METHODS[final](h, b, list(s), rho)
        h.true(len(got) == len(want), 'same fields')
        for i, (g, w) in enumerate(zip(got, want)):
            h.true(g.shape == w.shape, 'field %d: shape' % i)
            h.eq(g.reshape(-1), w.reshape(-1), 'field %d: as from a fresh object' % i, scale=1e-3)
    return f


def drawn(h, rec):
    """numbers and words of everything drawn, figure by figure"""
    nums, words = [], []
    def walk(x):
        if isinstance(x, str): words.append(x.rsplit('/', 1)[-1])   # directories of their own
        elif isinstance(x, (list, tuple)):
            for y in x: walk(y)
        elif isinstance(x, dict):
            for k in sorted(x): words.append(k); walk(x[k])
        elif getattr(x, 'ndim', 0):
            words.append(str(x.shape))
            for y in x.reshape(-1): walk(y)
        elif isinstance(x, (bool, Rec)) or x is None: words.append(str(x) if not isinstance(x, Rec) else 'figure')
        elif isinstance(x, (int, float)) or hasattr(x, 'key') or hasattr(x, 'dtype'): nums.append(h.core.num(x) if h.sym else float(x))
        else: words.append(type(x).__name__)
    for fig in rec.figs:
        for name, a, k in fig: words.append(name); walk(a); walk(k)
    return words, nums


def pictures(final):
    """what a figure shows after one earlier call"""
    def f(h):
        Eig(h, ('gen', 'id'))
        A, B, rho = data(h)
        k = katz(h, [h.const(3), h.const(4)], h.q(1, 10), 2, 5)
        def go(o, rec):
            del rec.figs[:]
            PLOTS[final](o, [0, 1, 2], k)
            return drawn(h, rec)
        def ref():
            rec = prep(h)
            return go(build(h, B), rec)
        words, nums = h.fresh(ref)
        rec = prep(h)
        a, b = build(h, A), build(h, B)
        j = h.choice('call', len(OPS)); on = h.choice('object', 2)
        step(h, (a, b)[on], OPS[j], [[0, 1, 2], [0, 1, 2] if OPS[j] in ('fit', 'conc') else [2, 1]][on], rho if on else rho[::-1])
        w, n = go(b, rec)
        h.true(w == words, 'same figures with the same captions')
        h.true(len(n) == len(nums), 'same numbers drawn')
        h.eq(h.arr(n), h.arr(nums), 'numbers drawn: as from a fresh object', scale=1e-3)
    return f


def gadgets(final):
    """Gadget objects: other particle type, other snapshot, other radius definition, other minimum size come first; the object
    under test is made before or after"""
    def f(h):
        F = Files(h)
        try:
            Eig(h, ('id', 'rot'))
            va = h.real('va', 3, h.q(7, 2))
            G = frames(h, 'rot'); I = frames(h, 'id')
            P = octant(h, G, h.const(2), h.const(1), h.q(1, 2)) + octant(h, I, h.q(1, 3), h.const('5/2'), None) + octant(h, I, None, None, h.const(1))
            V = octant(h, G, h.const(1), va, h.const('1/3')) + octant(h, I, va, h.const(3), None) + octant(h, I, None, None, h.const(5))
            snaps, grps = [], []
            for t, n in enumerate(('010', '011')):
                sc = t + 1
                blk = {'POS ': h.arr([at([c * sc for c in p], (30 + t, 37, 52)) for p in P]), 'MASS': h.arr([h.const(2 + t)] * 8 + [h.const(1)] * 4 + [h.const(3)] * 2), 'VEL ': h.arr([at([c * sc for c in p], (5, -3, 8)) for p in V])}
                gx = {k: (b[:8] * 2 if k == 'MASS' else b[:8] + 1) for k, b in blk.items()}
                snaps.append(F.snapshot('snap_' + n, {1: blk, 4: gx}, {'boxsize': h.const(0), 'time': h.q(1, sc)}))
                grps.append(F.groups([{'len': [[0, 8, 0, 0, 8, 0], [0, 6, 0, 0, 0, 0]], 'r200': [h.const('3/2') * sc, h.const(1)], 'rmean': [h.const(2) * sc, h.const(3)], 'nsub': [1, 1], 'sub': [[0, 8, 0, 0, 8, 0], [0, 6, 0, 0, 0, 0]]}], dirname='groups_' + n, pat='fof_tab_' + n + '.%d.hdf5'))
            def make(t=0, obj='dm', mn=1, rvir='Rvir'): return gadget(h, F, snaps[t], grps[t], obj, mn, 'com', rvir, SNAP=('010', '011')[t])
            def look(g):
                sel = [1, 0]
                if final in METHODS: return [x.copy() for x in METHODS[final](h, g, sel, None)]
                if final == 'catalogue': return [x.copy() for x in g.getIdxCat()] + [g.getR200().copy()]
                return [g.getXYZMasses()[0].copy(), g.getXYZMasses()[1].copy(), g.getVelXYZ().copy()]
            def ref():
                F.world(); internal_units(h)
                return look(make())
            want = h.fresh(ref)
            F.world(); internal_units(h)
            early = h.choice('made first', 2)
            if early: b = make()
            o = make(**(dict(obj='stars'), dict(t=1), dict(rvir='R200'), dict(mn=7), {})[h.choice('other', 5)])
            n = len(o.getIdxCat()[1])
            k = h.choice('call', 6)
            if k == 1:
                for x in METHODS['getMassesCenters'](h, o, list(range(n)), None) + METHODS['vlocal'](h, o, [0], None): wipe(x)
            elif k == 2:
                for x in METHODS['vglobal'](h, o, list(range(n))[::-1], None) + METHODS['local'](h, o, [0], None): wipe(x)
            elif k == 3:
                for x in list(o.getIdxCat()) + [o.getR200()]: wipe(x)
            elif k == 4:
                for x in list(o.getXYZMasses()) + [o.getVelXYZ()]: wipe(x)
            elif k == 5:
                units(h, True)
                try:
                    o.getR200(); o.getXYZMasses(); METHODS['vlocal'](h, o, [0], None)
                    if not early: make().getR200()
                finally: units(h, False)
            if not early: b = make()
            got = look(b)
            h.true(len(got) == len(want), 'same fields')
            for i, (g, w) in enumerate(zip(got, want)):
                h.true(g.shape == w.shape, 'field %d: shape' % i)
                h.eq(g.reshape(-1), w.reshape(-1), 'field %d: as from a fresh object' % i, scale=1e-3)
        finally: F.done()
    return f


SHORT = ('local', 'getters', 'units', 'config')
HARNESSES = [H(n, hist(n), '3 selections after one call out of %d on this or another object' % len(OPS), budget=120, nwit=3) for n in BASE]
HARNESSES += [H('defaults', hist('defaults'), 'settings left to the package, after one call', budget=120, nwit=3)]
HARNESSES += [H('two %s' % n, hist(n, 2, SHORT), 'after two calls out of %d, each on this or another object' % len(SHORT), budget=120, nwit=2) for n in ('local', 'ell', 'conc', 'getMassesCenters')]
HARNESSES += [H('picture %s' % n, pictures(n), 'what the figures show after one call out of %d on this or another object' % len(OPS), budget=120, nwit=2) for n in PL]
HARNESSES += [H('gadget %s' % n, gadgets(n), 'Gadget objects: 5 variants constructed, 6 calls, before or after construction of the object under test', budget=120, nwit=3) for n in ('vlocal', 'vglobal', 'local', 'catalogue', 'particles')]
HARNESSES += [H('long %s' % n, hist(n, 2), 'after two calls out of %d, each on this or another object' % len(OPS), tier='thorough', thorough_budget=1200, nwit=3) for n in BASE]
OUTSIDE = 'longer histories; calls in other threads or processes; dumped catalogues (C16)'
ASSUMPTIONS = ['eigen-decompositions exact in a known frame']
