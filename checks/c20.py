"""C20 group files give the same tables for any number of processes"""
from cysym.runner import H
from gadgetfiles import *
import ranks, os

HERE = os.path.dirname(os.path.abspath(__file__))
RF = 'cosmic_profiles.gadget.read_fof'


def worlds(h, F, n, lim=None):
    """one module world per process"""
    hub = ranks.Hub(n)
    from cysym.world import World, MPIMod
    ws = []
    for r in range(n):
        m = MPIMod(ranks.Comm(hub, r))
        import types
        ov = {'h5py': FakeH5(F.files), 'glob': F.glob, 'mpi4py': types.SimpleNamespace(MPI=m), 'mpi4py.MPI': m}
        ws.append(World(overrides=ov, transform={RF: ranks.limit(lim)} if lim is not None else None))
    return hub, ws


SHAPES = [(0, 0), (1, 1), (2, 1), (1, 0), (0, 1), (2, 3)]    # groups and subhaloes in one file (0: the datasets are missing)


def tables(n, nf, shapes, lim=None, order=None, one=True, base=0, calls=1):
    """n processes, nf files; shapes: what a file may contain"""
    def f(h):
        F = Files(h)
        try:
            if h.sym: h.rt.RT.symint = True
            uin = ('kpc/h', 'E+10Msun/h', 1e5, 0.5); uout = ('Mpc/h', 'E+10Msun/h', 1e5, 0.5)
            k = (0, 1, 4)[h.choice('type', 3)] if one else 1
            rad = ('Rvir', 'R200')[h.choice('rad', 2)] if one else 'Rvir'
            tab = []; q = 0
            want = {'ns': [], 'sl': [], 'ff': [], 'rr': []}
            for i in range(nf):
                ng, ns = shapes[h.choice('file%d' % i, len(shapes))]
                def val(c):
                    nonlocal q
                    q += 1
                    return h.int('%s%d' % (c, q), 0, 100)
                R = [h.real('R%d_%d' % (i, g), h.q(1, 2), 2) for g in range(ng)]; Q = [h.real('Q%d_%d' % (i, g), h.q(1, 2), 2) for g in range(ng)]
                ff = [val('f') for _ in range(ng)]; sl = [val('s') for _ in range(ns)]; nn = [val('n') for _ in range(ng)]
                row = lambda x: [x if t == k else 200 + t for t in range(6)]
                tab.append({'len': [row(x) for x in ff], 'r200': R, 'rmean': Q, 'nsub': nn, 'sub': [row(x) for x in sl]})
                want['ff'] += ff; want['sl'] += sl; want['ns'] += nn; want['rr'] += R if rad == 'Rvir' else Q
            # file numbers base, base+1, ... : their order as strings differs from that as numbers
            full = [{}] * base + tab
            d = F.groups(full, order=[base + i for i in (order or range(nf))])
            L = lim[h.choice('limit', len(lim))] if lim else None
            if h.sym:
                hub, ws = worlds(h, F, n, L)
                def proc(w):
                    def g():
                        c = w.load('cosmic_profiles.common.config'); c.updateInUnitSystem(*uin); c.updateOutUnitSystem(*uout)
                        m = w.load(RF)
                        for again in range(calls): r = m.getFoFSHData(d, rad, k)
                        return dict(zip(('ns', 'sl', 'ff', 'rr'), r)), c.InUnitLength_in_cm / c.getLMVInternal()[0]
                    return g
                try: res = hub.run([proc(w) for w in ws])
                except ranks.Deadlock as e:
                    h.true(False, 'the processes agree on their collectives (%s)' % e); return
                fac = res[0][1]; res = [x[0] for x in res]
            else:
                fac = 1e-3
                try: res = ranks.mpirun(n, HERE + '/mpi_c20.py', {'do': 'tables', 'dir': os.path.abspath(d), 'rad': rad, 'type': k, 'units_in': uin, 'units_out': uout, 'limit': L})
                except ranks.Deadlock as e:
                    h.true(False, 'the processes agree on their collectives (%s)' % e); return
            for r in range(n):
                for key, name in (('ns', 'numbers of subhaloes'), ('sl', 'subhalo sizes'), ('ff', 'group sizes'), ('rr', 'radii')):
                    h.true(len(res[r][key]) == len(want[key]), '%s of process %d: length' % (name, r))
                    for i, w in enumerate(want[key]): h.eq(res[r][key][i], w * fac if key == 'rr' else w, '%s of process %d' % (name, r), tol=1e-6)
        finally: F.done()
    return f


def refused(h):
    """no file, or an unknown radius definition"""
    F = Files(h)
    try:
        d = F.groups([{'len': [[1] * 6], 'r200': [h.const(1)], 'nsub': [1], 'sub': [[1] * 6]}])
        rf = h.load(RF)
        h.raises(ValueError, lambda: rf.getFoFSHData(d, 'R500', 1), 'unknown radius definition')
        h.raises(ValueError, lambda: rf.getFoFSHData(d + '_missing', 'Rvir', 1), 'directory without files')
        for name, k in (('dm', 1), ('stars', 4), ('gas', 0)): h.true(rf.getPartType(name) == k, 'particle type ' + name)
        try: rf.getPartType('bh'); h.true(False, 'unknown particle type is refused')
        except AssertionError: pass
    finally: F.done()


def analysis(n):
    """an analysis object built on the files: the root process answers as a single process does"""
    def f(h):
        F = Files(h)
        try:
            uin = ('kpc/h', 'E+10Msun/h', 1e5, 0.5); uout = ('Mpc/h', 'E+10Msun/h', 1e5, 0.5)
            c = [2 + h.choice('n%d' % g, 2) for g in range(3)]; mn = 2 + h.choice('MIN', 2)
            N = sum(c)
            X = [[h.real('x%d' % i, -2, 2) if i in (0, N - 1) else h.const((3 * i) % 5), h.const((2 * i) % 7), h.const(i % 3)] for i in range(N)]
            M = [h.real('m%d' % i, h.q(1, 2), 2) if i in (1, N - 1) else h.const(1) for i in range(N)]; R = [h.real('R%d' % g, h.q(1, 2), 2) for g in range(3)]
            keep = [g for g in range(3) if c[g] >= mn]
            h.assume(len(keep) > 0)
            snap = F.snapshot('snap_010', {1: {'POS ': h.arr(X), 'MASS': h.arr(M)}}, {'boxsize': h.const(0)})
            row = lambda x: [9, x, 9, 9, 9, 9]
            tab = [{'len': [row(c[0])], 'r200': R[:1], 'nsub': [1], 'sub': [row(c[0])]}, {}, {'len': [row(x) for x in c[1:]], 'r200': R[1:], 'nsub': [1, 1], 'sub': [row(x) for x in c[1:]]}]
            grp = F.groups(tab, order=(2, 0, 1))
            if h.sym:
                hub, ws = worlds(h, F, n)
                def proc(w, r):
                    def g():
                        cf = w.load('cosmic_profiles.common.config'); cf.updateInUnitSystem(*uin); cf.updateOutUnitSystem(*uout)
                        o = w.load('cosmic_profiles.shape_profs.shape_profs_classes').DensShapeProfsGadget(snap, grp, 'dm', '010', h.scratch() + '/v', h.scratch() + '/c', RVIR_OR_R200='Rvir', MIN_NUMBER_PTCS=mn, CENTER='com')
                        cat, size = o.getIdxCat(); rr = o.getR200(); mc = o.getMassesCenters(list(range(len(keep))))
                        if r == 0: return {'cat': list(cat), 'size': list(size), 'R': list(rr), 'm': list(mc['mass']), 'c': [list(v) for v in mc['centre']]}
                    return g
                try: got = hub.run([proc(w, r) for r, w in enumerate(ws)])[0]
                except ranks.Deadlock as e:
                    h.true(False, 'the processes agree on their collectives (%s)' % e); return
            else:
                try: got = ranks.mpirun(n, HERE + '/mpi_c20.py', {'do': 'object', 'snap': os.path.abspath(snap), 'dir': os.path.abspath(grp), 'rad': 'Rvir', 'min': mn, 'n': len(keep), 'units_in': uin, 'units_out': uout})[0]
                except ranks.Deadlock as e:
                    h.true(False, 'the processes agree on their collectives (%s)' % e); return
            h.true([int(v) for v in got['size']] == [c[g] for g in keep], 'object sizes')
            h.true([int(v) for v in got['cat']] == [sum(c[:g]) + i for g in keep for i in range(c[g])], 'catalogue')
            for k, g in enumerate(keep):
                ix = range(sum(c[:g]), sum(c[:g]) + c[g])
                m = sum_(h, [M[i] for i in ix])
                h.eq(got['R'][k], R[g] * h.q(1, 1000), 'radius %d' % k, tol=1e-6)
                h.eq(got['m'][k], m, 'mass %d' % k, tol=1e-6)
                for a in range(3): h.eq(got['c'][k][a] * m, sum_(h, [M[i] * X[i][a] for i in ix]) * h.q(1, 1000), 'centre %d,%d' % (k, a), tol=1e-5, scale=1e-3)
        finally: F.done()
    return f


HARNESSES = []
for n in (2, 3): HARNESSES.append(H('analysis object %d' % n, analysis(n), '%d processes, 3 groups of 2-3 particles in 3 files (one empty), MIN 2-3' % n, nwit=1))
for n in (1, 2, 3, 4): HARNESSES.append(H('%d processes' % n, tables(n, 3, SHAPES[:4], order=(2, 0, 1), one=False), '%d processes, 3 files with 4 kinds of contents each; all table entries symbolic' % n, nwit=2))
HARNESSES += [H('columns', tables(2, 2, SHAPES[1:3]), '2 processes, 2 files, 3 particle types, 2 radius definitions', nwit=2),
              H('5 processes 2 files', tables(5, 2, SHAPES, one=False), '5 processes, 2 files, 6 kinds of contents', nwit=2),
              H('2 processes 5 files', tables(2, 5, SHAPES[:2], one=False, order=(4, 1, 3, 0, 2)), '2 processes, 5 files', nwit=2),
              H('3 processes 5 files', tables(3, 5, SHAPES[:2], one=False, order=(4, 1, 3, 0, 2)), '3 processes, 5 files', nwit=2),
              H('4 processes 7 files', tables(4, 7, SHAPES[1:2], one=False), '4 processes, 7 files', nwit=1),
              H('file numbers', tables(2, 4, SHAPES[1:2], one=False, base=8, order=(2, 3, 0, 1)), 'files number 8, 9, 10 and 11', nwit=1),
              H('cached', tables(2, 2, SHAPES[:2], one=False, calls=2), 'each process asks twice', nwit=1),
              H('chunks', tables(2, 3, [(0, 0), (1, 2), (2, 1)], one=False, lim=(1, 2, 3, 4)), 'messages of at most 1, 2, 3 or 4 entries (in place of 3*10^8), 0-6 groups, 0-6 subhaloes', nwit=3),
              H('refused', refused, 'one file')]
OUTSIDE = 'the MPI library itself; more files and processes than stated; message limits above 4 entries'
ASSUMPTIONS = ['processes run one after the other between two collectives (they share no other state)', 'for the chunks harness every integer constant of read_fof.py of at least 10^6 is replaced']
