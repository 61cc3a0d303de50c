"""reference for the iterative shape algorithm, shared by C07, C08, C09 (and C10, C01)"""
from common import *

FRAMES = {
    'id': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    'rot': [['3/5', '4/5', 0], ['-4/5', '3/5', 0], [0, 0, 1]],
    'gen': [['2/3', '2/3', '1/3'], ['-2/3', '1/3', '2/3'], ['1/3', '-2/3', '2/3']],
}


class Eig:
    """eigen-decomposition: exact in one of the given frames (checked), otherwise an arbitrary one"""
    def __init__(self, h, names=('id',)):
        self.h = h; self.memo = {}
        if h.sym:
            self.frames = [[[h.const(v) for v in row] for row in FRAMES[n]] for n in names]
            h.rt.RT.zheevr = self.solve

    def __call__(self, T):
        if not self.h.sym:
            import numpy as np
            w, v = np.linalg.eigh(np.array([[float(T[i][j]) for j in range(3)] for i in range(3)]))
            return list(w), [list(v[:, k]) for k in range(3)]
        return self.solve(T)

    def solve(self, T):
        h = self.h
        N = h.core.num
        T = [[N(T[i][j].real if isinstance(T[i][j], complex) else T[i][j]) for j in range(3)] for i in range(3)]
        key = tuple(x.key() for r in T for x in r)
        if key in self.memo: return self.memo[key]
        res = None
        for F in self.frames:
            D = [[None] * 3 for _ in range(3)]
            ok = True
            for a in range(3):
                for b in range(a, 3):
                    t = 0
                    for i in range(3):
                        for j in range(3): t = t + F[a][i] * T[i][j] * F[b][j]
                    D[a][b] = N(t)
                    if a != b and not (D[a][b].isconst and D[a][b].cval == 0): ok = False
            if ok:
                e = [(D[k][k], F[k]) for k in range(3)]
                for i, j in ((0, 1), (1, 2), (0, 1)):
                    if e[j][0] < e[i][0]: e[i], e[j] = e[j], e[i]
                res = ([x[0] for x in e], [[-c for c in x[1]] for x in e]); break
        if res is None:   # not diagonal in the known frames: any positive values, any unit vectors
            n = len(self.memo)
            v = [h.real('eig%d_%d' % (n, k), h.q(1, 100), 100) for k in range(3)]
            h.assume(v[0] < v[1]); h.assume(v[1] < v[2])
            res = (v, [[-c for c in x] for x in self.frames[0]])
        self.memo[key] = res
        return res


def lt(h, a, b):
    """a < b; numeric runs stay away from ties that rounding could turn over"""
    if not h.sym:
        from cysym.harness import Skip
        if abs(a - b) < 1e-7 * max(abs(a), abs(b), 1e-3): raise Skip('tie')
        return a < b
    return True if a < b else False


def ltx(h, a, b):
    """a < b including exact ties (only for exactly representable numbers)"""
    if not h.sym:
        from cysym.harness import Skip
        if a != b and abs(a - b) < 1e-7 * max(abs(a), abs(b), 1e-3): raise Skip('tie')
        return a < b
    return True if a < b else False


def shape(h, eig, pts, ms, d, delta, tol, wall, mn, reduced, vels=None, less=lt, ratio=None, planar=False):
    """pts relative to the centre; delta None: full ellipsoid, else shell thickness. None: not converged"""
    n = len(pts)
    n2 = [p[0] ** 2 + p[1] ** 2 + p[2] ** 2 for p in pts]
    d2 = d * d
    def inner(x, i): return delta is None or not less(h, x, 1)
    sel = []
    for i in range(n):
        if less(h, n2[i], d2):
            if delta is None or d is delta or not less(h, n2[i], (d - delta) * (d - delta)): sel.append(i)
    r2 = n2
    q = s = h.const(1); it = 1
    while True:
        if it > wall: return None
        if len(sel) < mn: return None
        M = sum_(h, [ms[i] for i in sel])
        src = vels if vels is not None else pts
        T = [[None] * 3 for _ in range(3)]
        for a in range(3):
            for b in range(3):
                t = None
                for i in sel:
                    x = ms[i] * src[i][a] * src[i][b] / M
                    if reduced: x = x / r2[i]
                    t = x if t is None else t + x
                T[a][b] = t
        w, v = eig(T)
        if planar and flat(h, T): return None   # a plane, a line or a point: no ellipsoid
        h.assume(w[0] > w[2] * h.q(1, 2000)); h.assume(w[1] - w[0] > w[2] * h.q(1, 200)); h.assume(w[2] - w[1] > w[2] * h.q(1, 200))
        qn = h.sqrt(w[1] / w[2]); sn = h.sqrt(w[0] / w[2])
        conv = True
        for new, old in ((qn, q), (sn, s)):
            x = (new - old) / old
            if less(h, tol, x) or less(h, tol, -x): conv = False
        q, s = qn, sn
        if conv: return d, q, s, v
        sel = []; r2 = []
        q2 = w[1] / w[2]; s2 = w[0] / w[2]
        if delta is not None and d is not delta:   # a thickness that makes an inner semi-axis exactly 0 is left out
            for x in (q * d - delta, s * d - delta): h.assume(not less(h, x, h.q(1, 1000)) or not less(h, h.q(-1, 1000), x))
        for i in range(n):
            P = [sum_(h, [v[2 - k][c] * pts[i][c] for c in range(3)]) for k in range(3)]
            e = P[0] ** 2 + P[1] ** 2 / q2 + P[2] ** 2 / s2
            r2.append(e)
            if less(h, e, d2):
                if delta is None or d is delta: sel.append(i)
                else:
                    g = P[0] ** 2 / (d - delta) ** 2 + P[1] ** 2 / (q * d - delta) ** 2 + P[2] ** 2 / (s * d - delta) ** 2
                    if not less(h, g, 1): sel.append(i)
        it += 1


def flat(h, T):
    """no extent along the first or the third coordinate axis (exactly, in doubles as well)"""
    def zero(x): return (h.core.num(x).isconst and h.core.num(x).cval == 0) if h.sym else x == 0
    return any(zero(T[k][k]) for k in (0, 2))


def compare(h, got, want, tag='', single=True):
    """got: one element of the structured result"""
    if want is None:
        h.true(not bool(got['is_conv']), tag + 'is_conv is False')
        for k in ('d', 'q', 's'): h.true(h.isnan(got[k]), tag + k + ' is NaN')
        for k in ('minor', 'inter', 'major'):
            for c in range(3): h.true(h.isnan(got[k][c]), tag + '%s[%d] is NaN' % (k, c))
        return
    d, q, s, v = want
    h.true(bool(got['is_conv']), tag + 'is_conv is True')
    for k, x in (('d', d), ('q', q), ('s', s)): h.eq(got[k], x, tag + k)
    for k, a in (('minor', v[0]), ('inter', v[1]), ('major', v[2])):
        for i in range(3):
            for j in range(i, 3): h.eq(got[k][i] * got[k][j], a[i] * a[j], tag + '%s axis (up to sign), components %d,%d' % (k, i, j), scale=1)


def octant(h, F, a, b, c):
    """the eight (or four, two) points (+-a, +-b, +-c) in frame F; a component that is None is 0"""
    out = []
    for sa in ((1, -1) if a is not None else (0,)):
        for sb in ((1, -1) if b is not None else (0,)):
            for sc in ((1, -1) if c is not None else (0,)):
                p = [0, 0, 0]
                for k, (sg, x) in enumerate(((sa, a), (sb, b), (sc, c))):
                    if x is None: continue
                    for i in range(3): p[i] = p[i] + sg * x * F[k][i]
                out.append(p)
    return out


def katz(h, r, tol, wall, mn, reduced=False, shell=False):
    return {'ROverR200': h.arr(r), 'IT_TOL': tol, 'IT_WALL': wall, 'IT_MIN': mn, 'REDUCED': reduced, 'SHELL_BASED': shell}
