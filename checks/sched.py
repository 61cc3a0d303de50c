"""schedules of parallel loops: symbolic assignment and order, memory accesses of iterations, left-over scratch contents"""
import itertools

PERMS = list(itertools.permutations(range(3)))


def schedule(h):
    """symbolic schedule of three iterations on up to three threads, one representative per renaming of the threads:
    iteration 0 on thread 0, iteration 1 on thread 0 or 1, iteration 2 on an old thread or the next new one; any order within a thread"""
    t1 = h.int('thread1', 0, 1); t2 = h.int('thread2', 0, 2)
    h.assume(t2 <= t1 + 1)
    o = h.int('order', 0, 5)
    thr = [0, int(t1), int(t2)]; o = int(o)
    # iterations on different threads may interleave arbitrarily: shared locations are treated as racing, so listing the threads one after the other is enough
    p = PERMS[o]
    h.assume(list(p) == sorted(p, key=lambda j: thr[j]))
    return thr, list(p)


class Hook:
    """pass 1 records which iteration writes which location; pass 2 replaces every value that work of another iteration may have left
    (or is racing to write) by an arbitrary value"""
    def __init__(self, h):
        self.h = h; self.rt = h.rt; self.writes = {}; self.mode = 'record'; self.havocs = 0

    def begin(self, mode):
        self.mode = mode; self.seq = {}; self.keep = []; self.region = None; self.it = None; self.done = []; self.own = set(); self.poison = {}

    def loc(self, mv, k):
        a = mv.a; b = a
        while getattr(b, 'base', None) is not None and hasattr(b.base, '__array_interface__'): b = b.base
        key = b.__array_interface__['data'][0]
        if key not in self.seq: self.seq[key] = len(self.seq); self.keep.append(b)
        k = [i + n if i < 0 else i for i, n in zip(k, a.shape)]
        return (self.seq[key], a.__array_interface__['data'][0] - key + sum(i * s for i, s in zip(k, a.strides)))

    def iteration(self, t, j):
        r = self.rt.RT.par_region
        if self.region != r: self.region = r; self.done = []
        elif self.it is not None: self.done.append(self.it)
        self.it = (t, j); self.own = set(); self.poison = {}

    def others(self, L):
        """(threads of other iterations writing L, whether one that ran before on this thread wrote it)"""
        w = self.writes.get((self.region, L), ())
        diff = any(x[0] != self.it[0] for x in w)
        before = any(x in self.done for x in w if x != self.it)
        return diff, before

    def fresh(self, L, el):
        self.havocs += 1
        return self.h.core.fresh('leftover_%d_%d_%d' % (self.region, L[0], L[1]), el == 'int')

    def read(self, mv, k, v):
        L = self.loc(mv, k)
        if not self.rt.RT.par_depth:
            return v
        if self.mode == 'record': return v
        diff, before = self.others(L)
        if diff or (before and L not in self.own):
            if L not in self.poison: self.poison[L] = self.fresh(L, mv.el)
            return self.poison[L]
        return v

    def write(self, mv, k):
        L = self.loc(mv, k)
        if not self.rt.RT.par_depth: return
        if self.mode == 'record':
            self.writes.setdefault((self.region, L), set()).add(self.it)
        else: self.own.add(L)

    def races(self):
        """locations written by iterations on different threads"""
        return sorted({(r, L[0]) for (r, L), w in self.writes.items() if len({x[0] for x in w}) > 1})


def flat(o):
    if isinstance(o, (list, tuple)): return [x for p in o for x in flat(p)]
    return [o]


def check(h, want, call, reps=1):
    """call() -> list of arrays equals want under every schedule"""
    if not h.sym: return
    RT = h.rt.RT
    thr, order = schedule(h)

    def sch(n):
        if n <= 3: return [(thr[j], j) for j in order if j < n]
        return [(thr[j], j) for j in order] + [(thr[j % 3], j) for j in range(3, n)]
    from cysym.core import Inconclusive
    hook = Hook(h)
    RT.nthreads = max(thr) + 1
    try:
        for mode in ('record', 'havoc'):
            RT.par_region = 0
            RT.schedule = sch; RT.hook = hook; hook.begin(mode)
            try: got = call()
            except Inconclusive as e:
                if 'eig' in str(e).lower() or 'frame' in str(e).lower():
                    h.true(False, 'threads %s order %s: the eigenproblem of an object depends on work on another object' % (thr, order)); return
                raise
            RT.hook = None; RT.schedule = None
            if mode == 'record':
                for r, s in hook.races(): h.true(False, 'threads %s: iterations on different threads write the same memory (loop %d, array %d)' % (thr, r, s))
            h.true(len(got) == len(want), 'results')
            for i, (g, w) in enumerate(zip(got, want)):
                h.eq(g, w, 'threads %s order %s%s: result %d' % (thr, order, ', arbitrary left-overs' if mode == 'havoc' else '', i))
    finally: RT.hook = None; RT.schedule = None; RT.nthreads = 1


def threads(n):
    """real build: number of OpenMP threads"""
    import ctypes
    ctypes.CDLL('libgomp.so.1').omp_set_num_threads(n)
