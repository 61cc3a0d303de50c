"""C13 halo catalogues built from group data name the right particles"""
from cysym.runner import H
from gadgetfiles import *

BIG = 10 ** 7


def reference(h, ns, sl, ff, R, mn):
    """(index lists, radii, sizes) of the objects"""
    lists, rad, size = [], [], []
    start = 0; sub = 0
    for g in range(len(ns)):
        if ns[g] > 0:
            L = sl[sub]
            if L >= mn:
                n = int(L)
                lists.append([start + i for i in range(n)]); rad.append(R[g]); size.append(n)
        start = start + ff[g]; sub += int(ns[g])
    return lists, rad, size


def table(G, maxsub=2, maxlen=3, symns=True):
    def f(h):
        al = h.load('cosmic_profiles.gadget.gen_catalogues')
        if h.sym: h.rt.RT.symint = True
        if symns: ns = [int(h.int('nsub%d' % i, 0, maxsub)) for i in range(G)]
        else: ns = [(1, 2, 0, 1), (0, 1, 1, 2), (2, 0, 0, 1)][h.choice('pattern', 3)][:G]
        sub = [sum(ns[:i]) for i in range(G)]
        sl = [h.int('len%d' % i, 0, maxlen) if i in [sub[g] for g in range(G) if ns[g]] else h.int('rest%d' % i, 0, BIG) for i in range(sum(ns))]
        mn = h.int('MIN', 1, maxlen + 1)
        ff = [h.int('fof%d' % i, 0, BIG) for i in range(G)]
        R = h.reals('R', G, h.q(1, 10), 5)
        lists, rad, size = reference(h, ns, sl, ff, list(R), mn)
        got = al.calcObjCat(h.i32(ns), h.i32(sl) if sl else h.np.zeros(0, dtype=h.np.int32), h.i32(ff), h.arr(R), mn)
        cmp(h, got, lists, rad, size)
    return f


def cmp(h, got, lists, rad, size):
    idx, r, sz = got
    want = [i for l in lists for i in l]
    h.true(len(sz) == len(size), 'number of objects')
    h.true(len(r) == len(rad), 'number of radii')
    h.true(len(idx) == len(want), 'length of the index list')
    for i, w in enumerate(size): h.eq(sz[i], w, 'size of object %d' % i)
    for i, w in enumerate(rad): h.eq(r[i], w, 'radius of object %d' % i)
    for i, w in enumerate(want): h.eq(idx[i], w, 'index %d' % i)


TYPES = {'dm': 1, 'stars': 4, 'gas': 0}


def klass(kind, rvir, MINS=(1, 2, 3)):
    """the public class: column of the particle type, radius definition, groups in file order"""
    def f(h):
        F = Files(h)
        try:
            internal_units(h)
            t = TYPES[kind]
            # 2 files, 4 groups; first subhalo sizes symbolic, other columns hold other numbers
            ns = (1, 2, 0, 1)
            a = h.int('a', 0, 3); b = h.int('b', 0, 3)
            c = h.int('c', 0, 2)
            first = [a, b, None, 2]
            h.assume(a + c <= 4)
            ff = [a + c, 3, 1, 2]
            R = [h.real('R%d' % i, h.q(1, 2), 2) for i in range(4)]; Q = [h.real('Q%d' % i, h.q(1, 2), 2) for i in range(4)]
            def row(x): return [x if k == t else 7 + k for k in range(6)]
            subs = [a, b, 1, 2]
            tab = [{'len': [row(ff[0]), row(ff[1])], 'r200': R[:2], 'rmean': Q[:2], 'nsub': [1, 2], 'sub': [row(x) for x in subs[:3]]},
                   {'len': [row(ff[2]), row(ff[3])], 'r200': R[2:], 'rmean': Q[2:], 'nsub': [0, 1], 'sub': [row(x) for x in subs[3:]]}]
            mn = MINS[h.choice('MIN', len(MINS))]
            N = 10
            X = [[h.const(i), h.const(2 * i), h.const(3 * i)] for i in range(N)]
            snap = F.snapshot('snap_010', {t: {'POS ': h.arr(X), 'MASS': h.arr([h.const(1)] * N)}}, {'boxsize': h.const(50)})
            grp = F.groups(tab)
            lists, rad, size = reference(h, ns, subs, ff, R if rvir == 'Rvir' else Q, mn)
            g = gadget(h, F, snap, grp, obj=kind, mn=mn, rvir=rvir)
            cat, sz = g.getIdxCat()
            cmp(h, (cat, g.getR200(), sz), lists, rad, size)
        finally: F.done()
    return f


B = '%d groups, 0-%d subhaloes each, first-subhalo sizes 0-%d, MIN 1-%d, group sizes up to 10^7 and radii symbolic'
HARNESSES = [H('table 1', table(1, 2, 4), B % (1, 2, 4, 5)), H('table 2', table(2), B % (2, 2, 3, 4)), H('table 3', table(3, 2, 2), B % (3, 2, 2, 3)), H('table 4', table(4, 2, 2, False), '4 groups, 3 subhalo patterns, otherwise as table 3'),
             H('table 3 thorough', table(3, 2, 4), B % (3, 2, 4, 5), tier='thorough'), H('table 4 thorough', table(4, 2, 2), B % (4, 2, 2, 3), tier='thorough')]
HARNESSES += [H('class %s %s' % (k, r), klass(k, r), 'DensShapeProfsGadget on 2 group files, 4 groups, 2 first-subhalo sizes and a group size symbolic, MIN 1-3') for k, r in (('dm', 'Rvir'), ('stars', 'R200'), ('gas', 'Rvir'))]
OUTSIDE = 'more than four groups; index sums beyond 32 bits; a table without any group (the classes refuse it)'
