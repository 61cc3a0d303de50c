"""C19 mock haloes and samplers (random draws are symbols)"""
from cysym.runner import H
from common import *
from c18 import InlinePool, PARS, model

PR = 'cosmic_profiles.common.python_routines'
MH = 'cosmic_profiles.mock_tools.mock_halo_gen'


class Draws:
    """numpy.random: the i-th normal (uniform) number since the last seeding is given by the harness"""
    def __init__(self, h, normal, uniform):
        self.h = h; self.normal_ = normal; self.uniform_ = uniform; self.n = self.u = 0; self.tag = ''
        if h.sym: h.rt.RT.random = self.sym
        else:
            import numpy as np
            np.random.seed = self.seed
            np.random.normal = self.normal; np.random.uniform = self.uniform
            np.random.randn = lambda *s: self.normal(0, 1, s or None); np.random.standard_normal = lambda size=None: self.normal(0, 1, size)
            np.random.rand = lambda *s: self.uniform(0, 1, s or None); np.random.random = np.random.random_sample = lambda size=None: self.uniform(0, 1, size)

    def seed(self, *a): self.n = self.u = 0; self.tag = '_%s' % (a[0] if a else '')
    def one(self, kind, a):
        if kind == 'normal':
            self.n += 1
            return a[0] + a[1] * self.normal_(self.n - 1, self.tag)
        self.u += 1
        return a[0] + (a[1] - a[0]) * self.uniform_(self.u - 1, self.tag)
    def sym(self, kind, a, idx):
        if kind == 'seed': return self.seed(*a)
        return self.one(kind, a)
    def arr(self, kind, a, size):
        import numpy as np
        if size is None: return self.one(kind, a)
        o = np.empty(size)
        for i in np.ndindex(*o.shape): o[i] = self.one(kind, a)
        return o
    def normal(self, loc=0, scale=1, size=None): return self.arr('normal', (loc, scale), size)
    def uniform(self, low=0, high=1, size=None): return self.arr('uniform', (low, high), size)


def quadric(h, p, ax): return sum_(h, [(p[i] / ax[i]) * (p[i] / ax[i]) for i in range(len(ax))])


def le(h, a, b): return a <= b if h.sym else a <= b * (1 + 1e-9) + 1e-12


# directions whose length and projection on the xy plane are rational
DIRS = [('1', '2', '2'), ('2', '-3', '6'), ('3', '4', '12'), ('-3', '4', '0'), ('0', '0', '-1'), ('0', '1', '0'), ('-12', '9', '-8'), ('12', '-16', '15')]


def axes(h, n, free):
    """increasing semi-axes"""
    r = []
    for k, nm in enumerate('abc'):
        col = []
        for i in range(n):
            s = h.real('%s%d' % (nm, i), h.q(1, 8), 2) if (nm, i) in free else h.q(i + 1, k + 1) + h.q(1, 4)
            col.append(s if not col else col[-1] + s)
        r.append(col)
    return r


def shell(free, sizes, dirs, seed=0):
    """drawUniformFromShell: every particle lies inside its shell"""
    def f(h):
        pr = h.load(PR)
        n = len(sizes)
        a, b, c = axes(h, n, free)
        k = h.choice('shell', n)
        base = h.choice('direction', len(dirs))
        scale = h.real('len', h.q(1, 4), 4) if 'len' in free else h.const(1)
        def normal(i, tag):
            return h.const(DIRS[dirs[(base + i // 3) % len(dirs)]][i % 3]) * scale
        # cube numbers, so that the radius of the auxiliary ball is rational; later draws arbitrary
        us = {}
        def uniform(i, tag):
            if i < sizes[k]: return h.const(['1/8', '1/27', '27/64'][i % 3])
            return h.real('u%d' % i, 0, h.q(999999, 1000000))
        Draws(h, normal, uniform)
        X = pr.drawUniformFromShell(3, h.arr(a), h.arr(b), h.arr(c), h.i32(sizes), k)
        h.true(tuple(X.shape) == (sizes[k], 3), 'as many points as asked for')
        for i in range(sizes[k]):
            p = [X[i, 0], X[i, 1], X[i, 2]]
            for v in p: h.true(not h.isnan(v), 'finite')
            h.true(le(h, quadric(h, p, (a[k], b[k], c[k])), 1), 'point %d inside the outer ellipsoid of its shell' % i)
            if k: h.true(le(h, 1, quadric(h, p, (a[k - 1], b[k - 1], c[k - 1]))), 'point %d outside the inner ellipsoid of its shell' % i)
    return f


def inshell(h):
    """inShell is membership of the shell"""
    pr = h.load(PR)
    a, b, c = axes(h, 3, ())
    k = h.choice('shell', 3)
    p = [h.real('x%d' % i, -8, 8) for i in range(3)]
    out = quadric(h, p, (a[k], b[k], c[k])); inn = quadric(h, p, (a[k - 1], b[k - 1], c[k - 1])) if k else None
    if not h.sym:
        from cysym.harness import Skip
        for v in (out, inn):
            if v is not None and abs(v - 1) < 1e-9: raise Skip('tie')
    want = bool(out <= 1) and (inn is None or bool(inn > 1))
    h.true(bool(pr.inShell(h.arr(p), h.arr(a), h.arr(b), h.arr(c), k)) == want, 'membership')


def shell2(sizes, none):
    """the same for elliptical shells"""
    D = [('3', '4'), ('-5', '12'), ('0', '2'), ('-1', '0'), ('8', '-15')]
    def f(h):
        pr = h.load(PR)
        n = len(sizes)
        a, b, c = axes(h, n, {('a', 0), ('b', 1), ('a', 1)})
        k = h.choice('shell', n)
        base = h.choice('direction', len(D))
        def uniform(i, tag):
            if i < sizes[k]: return h.const(['1/4', '9/16', '4/25'][i % 3])
            return h.real('u%d' % i, 0, h.q(999999, 1000000))
        Draws(h, lambda i, tag: h.const(D[(base + i // 2) % len(D)][i % 2]), uniform)
        X = pr.drawUniformFromShell(2, h.arr(a), h.arr(b), None, h.i32(sizes), k)
        h.true(tuple(X.shape) == (sizes[k], 2), 'as many points as asked for')
        for i in range(sizes[k]):
            p = [X[i, 0], X[i, 1]]
            for v in p: h.true(not h.isnan(v), 'finite')
            h.true(le(h, quadric(h, p, (a[k], b[k])), 1), 'point %d inside the outer ellipse of its shell' % i)
            if k: h.true(le(h, 1, quadric(h, p, (a[k - 1], b[k - 1]))), 'point %d outside the inner ellipse of its shell' % i)
    return f


def ellipsoid(dims, none):
    def f(h):
        pr = h.load(PR)
        n = 2; sizes = [1, 2]
        a, b, c = axes(h, n, {('a', 0), ('b', 0), ('c', 0)})
        k = h.choice('ellipsoid', n)
        base = h.choice('direction', len(DIRS))
        D = [('3', '4'), ('-5', '12'), ('0', '2'), ('-1', '0'), ('8', '-15')]
        def normal(i, tag): return h.const(DIRS[(base + i // 3) % len(DIRS)][i % 3] if dims == 3 else D[(base + i // 2) % len(D)][i % 2])
        def uniform(i, tag): return h.const((['1/8', '27/64', '1'] if dims == 3 else ['1/4', '9/16', '1'])[i % 3])
        Draws(h, normal, uniform)
        X, nb = pr.drawUniformFromEllipsoid(dims, h.arr(a), h.arr(b), None if dims == 2 and none else h.arr(c) if dims == 3 else [None] * n, h.i32(sizes), k)
        h.true(int(nb) == k, 'number of the ellipsoid comes back')
        h.true(tuple(X.shape) == (sizes[k], dims), 'as many points as asked for')
        for i in range(sizes[k]):
            p = [X[i, j] for j in range(dims)]
            for v in p: h.true(not h.isnan(v), 'finite')
            h.true(le(h, quadric(h, p, (a[k], b[k], c[k])[:dims]), 1), 'point %d inside the ellipsoid' % i)
    return f


def radius(dims):
    """the radius drawn is u^(1/dims): every point stays inside for every u, and the whole ellipsoid is reached"""
    def f(h):
        pr = h.load(PR)
        a = h.real('a', h.q(1, 4), 4); b = h.real('b', h.q(1, 4), 4)
        u = h.real('u', 0, 1)
        Draws(h, lambda i, t: h.const(['1', '2', '2'][i % 3]) if dims == 3 else h.const(['3', '4'][i % 2]), lambda i, t: u)
        X, nb = pr.drawUniformFromEllipsoid(dims, h.arr([a]), h.arr([b]), h.arr([3]) if dims == 3 else [None], h.i32([1]), 0)
        p = [X[0, j] for j in range(dims)]
        for v in p: h.true(not h.isnan(v), 'finite')
        q = quadric(h, p, (a, b, h.const(3))[:dims])
        if h.sym and not (u == 0):
            h.true(q > 0, 'not at the centre')
        h.true(le(h, q, 1), 'inside')
    return f


def fib(n, ell):
    def f(h):
        pr = h.load(PR)
        a, b, c = [h.real(k, h.q(1, 4), 4) for k in 'abc'] if ell else [h.const(1)] * 3
        X = pr.fibonacci_ellipsoid(a, b, c, samples=n) if ell else pr.fibonacci_sphere(samples=n)
        h.true(len(X) == n, 'as many points as asked for')
        for i in range(n): h.eq(quadric(h, X[i], (a, b, c)), 1, 'point %d on the surface' % i, tol=1e-9)
        ys = [X[i][1] for i in range(n)]
        for i in range(1, n): h.true(ys[i] < ys[i - 1], 'points are distinct')
    return f


# ------------------------------------------------------------------ haloes
def halo(profile, nshell, res, coarse=False, draws=1):
    """total mass, counts per shell, positions; the quadrature is any additive positive functional of the integrand"""
    def f(h):
        m = h.load(MH)
        p = {'rho_s': None, 'r_s': h.const('1' if profile == 'einasto' else '3/2')}
        for k, v in (('alpha', '1' if profile == 'einasto' else '2'), ('beta', '5'), ('gamma', '1')):
            if k in PARS[profile]: p[k] = h.const(v)
        a = [h.const(i + 1) for i in range(nshell)]; b = [h.q(3, 4) * x for x in a]; c = [h.q(1, 2) * x for x in a]
        # one node per shell, symbolic weights
        T = [x - h.q(1, 2) for x in a]
        unit = dict(p); unit['rho_s'] = h.const(1)
        v = [h.real('w%d' % i, h.q(1, 8), 2) for i in range(nshell)]
        W = [x / (h.pi * model(h, profile, t, unit)) for x, t in zip(v, T)]
        def quad(fn, lo, hi, args=(), **k):
            if not isinstance(args, tuple): args = (args,)
            s = h.const(0)
            for t, w in zip(T, W):
                if lo < t and not (hi < t): s = s + w * fn(t, *args)
            return s, h.const(0)
        m.quad = quad; m.Pool = InlinePool
        tot = h.real('M', 1, 1000)
        Draws(h, lambda i, t: h.const(DIRS[(i // 3) % 4][i % 3]), lambda i, t: h.const(['1/8', '1/27', '27/64', '1/3'][i % 4]))
        g = [x * 4 * t * t for t, x in zip(T, v)]
        G = sum_(h, g)
        if not coarse:      # otherwise the code merges shells
            h.assume(g[1] * res * 2 > G * h.q(1001, 1000))
        mp = {k: x for k, x in p.items() if x is not None}
        x, y, z, md, rho = m.genHalo(tot, res, mp, profile, h.arr(a), h.arr(b), h.arr(c))
        N = len(x)
        h.true(len(y) == N and len(z) == N, 'three coordinates each')
        h.true(N > 0, 'particles')
        h.eq(md * N, tot, 'number of particles times particle mass is the halo mass', tol=1e-9)
        h.eq(rho * G, tot, 'rho_s is that of the halo mass', tol=1e-9)
        cnt = [0] * nshell
        ok = True
        for i in range(N):
            P = (x[i], y[i], z[i])
            for e in P: h.true(not h.isnan(e), 'finite')
            q = [quadric(h, P, (a[k], b[k], c[k])) for k in range(nshell)]
            h.true(le(h, q[nshell - 1], 1), 'particle %d inside the halo' % i)
            for k in range(nshell):
                if le(h, q[k], 1): cnt[k] += 1; break
        N1 = cnt[1]
        if not coarse:
            h.true(abs(N1 * G - res * g[1]) * 2 <= G * (1 if h.sym else 1 + 1e-9), 'number in shell 1 follows the mass in it')
            for k in range(nshell): h.true(abs(cnt[k] * g[1] - N1 * g[k]) * 2 <= g[1] * (1 if h.sym else 1 + 1e-9), 'number in shell %d follows the mass in it' % k)
    return f


def toolow(h):
    """a resolution too low for a single particle is refused"""
    m = h.load(MH)
    T = [h.q(1, 2), h.q(3, 2)]
    w = h.real('w', h.q(1, 2), 2)
    def quad(fn, lo, hi, args=(), **k):
        if not isinstance(args, tuple): args = (args,)
        return sum_(h, [h.const(0)] + [w * fn(t, *args) for t in T if lo < t and not (hi < t)]), h.const(0)
    m.quad = quad; m.Pool = InlinePool
    Draws(h, lambda i, t: h.const(1), lambda i, t: h.q(1, 2))
    h.raises(ValueError, lambda: m.genHalo(h.const(100), h.q(1, 1000), {'r_s': h.const(1)}, 'nfw', h.arr([1, 2]), h.arr([1, 2]), h.arr([1, 2])), 'resolution too low')


HARNESSES = [
    H('shell a b c', shell({('a', 0), ('b', 0), ('c', 0), ('a', 1)}, [1, 1], list(range(len(DIRS)))), '2 shells, 1 point, 8 directions; 4 semi-axis steps and the radial draw symbolic'),
    H('shell 3', shell({('a', 1), ('c', 2)}, [2, 1, 2], [0, 3, 4, 6]), '3 shells, up to 2 points; semi-axis steps and radial draws symbolic'),
    H('shell empty', shell({('a', 1)}, [1, 0, 1], [1, 2]), 'a shell without points'),
    H('shell length', shell({'len', ('b', 1)}, [1, 1], [2, 5]), 'length of the normal draw symbolic'),
    H('shell ellipse', shell2([1, 2], True), '2 elliptical shells, 5 directions; semi-axis steps and radial draws symbolic'),
    H('in shell', inshell, '3 shells, point symbolic'),
    H('ellipsoid', ellipsoid(3, False), '2 ellipsoids, 8 directions; semi-axes symbolic'), H('ellipse', ellipsoid(2, False), '2 ellipses; semi-axes symbolic'), H('ellipse None', ellipsoid(2, True), 'c is None'),
    H('radius 3', radius(3), 'radial draw symbolic'), H('radius 2', radius(2), 'radial draw symbolic'),
]
HARNESSES += [H('fibonacci sphere %d' % n, fib(n, False), '%d points' % n) for n in (1, 2, 5)] + [H('fibonacci ellipsoid %d' % n, fib(n, True), '%d points, semi-axes symbolic' % n) for n in (1, 2, 5)]
HARNESSES += [H('halo ' + p, halo(p, 3, 6), '3 shells, about 6 particles; mass and quadrature weights symbolic') for p in PARS]
HARNESSES += [H('halo coarse', halo('nfw', 4, 2, coarse=True), '4 shells merged until there is a particle'), H('halo odd', halo('hernquist', 5, 2, coarse=True), '5 shells merged'), H('resolution too low', toolow, 'no particle in any shell')]
OUTSIDE = 'statistical distribution of the draws; the accuracy of scipy quad; a normal draw of exactly three zeros'
ASSUMPTIONS = ['numpy.random returns some numbers of the requested range', 'quad is an additive positive functional']
