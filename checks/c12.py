"""C12 caching never changes a result; LRU bound, order and counters"""
from cysym.runner import H
from common import *


class K:
    """a key compared by the solver: all keys share one hash, equality is decided on the symbols"""
    def __init__(self, v): self.v = v
    def __hash__(self): return 7
    def __eq__(self, o): return isinstance(o, K) and bool(self.v == o.v)
    def __ne__(self, o): return not self == o
    def __deepcopy__(self, m): return self


class Ref:
    """reference LRU cache"""
    def __init__(self, maxsize): self.maxsize = maxsize; self.keys = []; self.hits = self.misses = 0; self.full = False

    def clear(self): self.keys = []; self.hits = self.misses = 0; self.full = False

    def call(self, k, low=None):
        """-> True if served from the cache; low: memory is short after this call"""
        for i, x in enumerate(self.keys):
            if x == k:
                self.keys.append(self.keys.pop(i)); self.hits += 1
                return True
        self.misses += 1
        if self.maxsize == 0: return False
        if self.full: self.keys.pop(0)
        self.keys.append(k)
        if low is not None:
            if not self.full: self.full = low
        elif self.maxsize is not None: self.full = len(self.keys) >= self.maxsize
        return False


class Mem:
    """psutil stand-in"""
    low = False

    def virtual_memory(self):
        class V: available = 1 if Mem.low else 10 ** 12
        return V


def marks(maxsize):
    """calls that spell the same values out as positional or keyword arguments"""
    def f(h):
        c = h.load('cosmic_profiles.common.caching')
        n = [0]

        def user(*a, **kw):
            n[0] += 1
            return (a, tuple(sorted(kw.items())))
        g = c.lru_cache(maxsize=maxsize, typed=bool(h.choice('typed', 2)))(user)
        v = [K(h.int('v%d' % i, 0, 3)) for i in range(2)]
        calls = [((v[0], 'b', v[1]), {}), ((v[0],), {'b': v[1]}), ((v[0], 'b'), {}), ((v[0],), {'b': v[1], 'c': v[0]}), ((v[0], 'b', v[1], 'c', v[0]), {}), ((v[0], 'b', v[1]), {'c': v[0]}),
                 ((v[0], 'c', v[0]), {'b': v[1]}), ((), {'b': v[1]}), (('b', v[1]), {}), ((), {}), ((('b', v[1]),), {})]
        for i in range(2):
            a, kw = calls[h.choice('call%d' % i, len(calls))]
            h.true(g(*a, **kw) == (a, tuple(sorted(kw.items()))), 'call %d returns the uncached value' % i)
            h.true(g.cache_info().misses == n[0], 'misses')
    return f


def lru(maxsize, n, mem=False, clears=True, reenter=False, fails=False):
    def f(h):
        c = h.load('cosmic_profiles.common.caching')
        if mem: c.psutil = Mem(); Mem.low = False
        ran = []
        depth = [0]; nbad = [0]
        bad = h.int('bad', 0, 1) if fails else None

        def user(k):
            if fails and k.v == bad:
                nbad[0] += 1
                raise KeyError('user')
            ran.append(k)
            if reenter and depth[0] == 0:
                depth[0] = 1
                try: g(k)
                finally: depth[0] = 0
            return ('value', k.v * 3 + 1)
        g = c.lru_cache(maxsize=maxsize, use_memory_up_to=1000 if mem else False)(user)
        ref = Ref(maxsize)
        for i in range(n):
            if clears and 0 < i < n - 1 and h.choice('op%d' % i, 2):
                g.cache_clear(); ref.clear()
                del ran[:]
                h.true(tuple(g.cache_info()) == (0, 0, None if mem else maxsize, 0), 'empty after cache_clear')
                continue
            k = K(h.int('k%d' % i, 0, n))
            low = None
            if mem:
                low = bool(h.choice('low%d' % i, 2)) if not ref.full else True
                Mem.low = low
            if fails and k.v == bad:
                m = nbad[0]
                h.raises(KeyError, lambda: g(k), 'an error of the function reaches the caller')
                h.true(nbad[0] == m + 1, 'a call that failed is not remembered')
                h.true(g.cache_info().currsize == len(ref.keys), 'nothing is kept of it')
                continue
            got = g(k)
            h.true(isinstance(got, tuple) and len(got) == 2 and got[0] == 'value', 'type of the result')
            h.eq(got[1], k.v * 3 + 1, 'call %d returns the uncached value' % i)
            info = g.cache_info()
            if reenter:
                h.true(info.hits + info.misses == len(ran) + info.hits, 'every miss ran the function')
                if maxsize: h.true(info.currsize <= maxsize, 'at most maxsize entries')
                h.true(info.misses == len(ran), 'misses')
                m = len(ran); g2 = g(k)
                h.eq(g2[1], k.v * 3 + 1, 'repeated call')
                if maxsize: h.true(len(ran) == m, 'the most recent key is cached')
                continue
            ref.call(k, low)
            h.true(info.hits == ref.hits and info.misses == ref.misses, 'call %d: hits and misses' % i)
            h.true(info.misses == len(ran), 'call %d: the function ran once per miss' % i)
            h.true(info.currsize == len(ref.keys), 'call %d: number of entries' % i)
            h.true(info.maxsize == (None if mem else maxsize), 'maxsize')
            if maxsize is not None and not mem: h.true(info.currsize <= maxsize, 'at most maxsize entries')
    return f


def kwargs(maxsize):
    """positional and keyword use, typed or not"""
    def f(h):
        c = h.load('cosmic_profiles.common.caching')
        typed = bool(h.choice('typed', 2))
        n = [0]

        @c.lru_cache(maxsize=maxsize, typed=typed)
        def user(a, b=5, **kw):
            n[0] += 1
            return (a, b, tuple(sorted(kw.items())))
        v = [K(h.int('v%d' % i, 0, 3)) for i in range(2)]
        # each call and what it returns
        calls = [((v[0], v[1]), {}), ((v[1], v[0]), {}), ((v[0],), {'b': v[1]}), ((v[0],), {}), ((v[0],), {'c': v[1]}), ((v[0],), {'b': v[1], 'c': v[0]}), ((), {'a': v[0], 'b': v[1]}), ((v[0], 'b', v[1]), None), ((v[1],), {'d': v[1]}), ((v[0], v[1]), {'c': v[0], 'd': v[1]}), ((v[0], v[1]), {'d': v[1], 'c': v[0]})]
        calls = [x for x in calls if x[1] is not None]
        for i in range(3):
            a, kw = calls[h.choice('call%d' % i, len(calls))]
            want = (a[0] if a else kw['a'], a[1] if len(a) > 1 else kw.get('b', 5), tuple(sorted((k, x) for k, x in kw.items() if k not in ('a', 'b'))))
            got = user(*a, **kw)
            h.true(got == want, 'call %d returns the uncached value' % i)
            h.true(user.cache_info().misses == n[0], 'misses')
    return f


def arrays(gbs, maxsize):
    """np_cache_factory: arrays that differ in shape, type, value or order; lists of lists; scalars; results are modified by the caller"""
    def f(h):
        cfg = h.load('cosmic_profiles.common.config')
        c = h.load('cosmic_profiles.common.caching')
        g0, m0 = cfg.GBs, cfg.CACHE_MAXSIZE
        cfg.updateCachingMaxGBs(gbs); cfg.updateCachingMaxSize(maxsize)
        try:
            np = h.np
            x, y = h.real('x', 0, 1), h.real('y', 2, 3)
            n = [0]

            def user(a, b, l, s):
                n[0] += 1
                t = 0
                for i, v in enumerate(a.reshape(-1)): t = t + (i + 1) * v
                for i, v in enumerate(b.reshape(-1)): t = t + (i + 2) * 10 * v
                for i, q in enumerate(l):
                    for j, v in enumerate(q): t = t + (100 * (i + 1) + j) * v
                return np.array([t + a.shape[0] * 1000 + len(a.shape) * 10000 + len(l) * 100000, t]), (str(s), int(b.dtype.kind == 'i') if not h.sym else None)
            cached = c.np_cache_factory(2, 1)(user)
            A1 = h.arr([x, y]); A2 = h.arr([[x], [y]]); A3 = h.arr([[x, y]]); A4 = h.arr([y, x]); A5 = h.arr([x, y, x])
            B1 = h.arr([1, 2]); B2 = h.i32([1, 2]); B0 = h.i32([]); 
            Z1 = h.np.zeros((2, 0)); Z2 = h.np.zeros((3, 0)); L5 = [[2, 1], [3]]
            L1 = [[1, 2], [3]]; L2 = [[1], [2, 3]]; L3 = [[1, 2, 3]]; L4 = [[1, 2], [3], []]
            confs = [(A1, B1, L1, 1), (A2, B1, L1, 1), (A3, B1, L1, 1), (A4, B1, L1, 1), (A5, B1, L1, 1), (A1, B2, L1, 1), (A1, B0, L1, 1), (A1, B1, L2, 1), (A1, B1, L3, 1), (A1, B1, L4, 1), (A1, B1, L1, '1'), (A1, B1, L1, 1.0), (A1, B1, L1, True), (B1, A1, L1, 1), (Z1, B1, L1, 1), (Z2, B1, L1, 1), (A1, B1, L5, 1)]
            keep = []
            for i in range(2):
                conf = confs[h.choice('call%d' % i, len(confs))]
                want = user(*conf)
                before = n[0]
                got = cached(*conf)
                h.true(n[0] - before <= 1, 'at most one run')
                h.eq(got[0], want[0], 'call %d returns the uncached value' % i)
                h.true(got[1] == want[1], 'call %d: second part of the result' % i)
                got[0][0] = got[0][0] + 1000; got[0][1] = 0    # the caller may do what it likes with its result
                conf2 = tuple(v.copy() if hasattr(v, 'copy') and not isinstance(v, list) else v for v in conf)
                again = cached(*conf2)
                h.eq(again[0], want[0], 'call %d repeated with equal arguments' % i)
                info = cached.cache_info()
                h.true(info.hits + info.misses == 2 * (i + 1), 'hits + misses = calls')
                if maxsize != 0 or gbs: h.true(info.hits >= i + 1, 'the repeated call is a hit')
            cached.cache_clear()
            h.true(cached.cache_info().currsize == 0 and cached.cache_info().hits == 0, 'cleared')
        finally: cfg.updateCachingMaxGBs(g0); cfg.updateCachingMaxSize(m0)
    return f


def fof(n):
  def f(h):
      """group tables read under other units, types, radius definitions and directories: never those of an earlier call"""
      from gadgetfiles import Files
      F = Files(h)
      try:
          cfg = internal_units(h)
          rf = h.load('cosmic_profiles.gadget.read_fof')
          R = [h.real('R%d' % i, h.q(1, 2), 2) for i in range(2)]; Q = [h.real('Q%d' % i, h.q(1, 2), 2) for i in range(2)]
          dirs = []
          for d in range(2):
              dirs.append(F.groups([{'len': [[1 + d, 2, 3, 4, 5 + d, 6]], 'r200': [R[d]], 'rmean': [Q[d]], 'nsub': [1], 'sub': [[2, 3 + d, 4, 5, 6, 7]]}], dirname='g%d' % d))
          for i in range(n):
              d, t, k, r = h.choice('dir%d' % i, 2), (0, 1)[h.choice('type%d' % i, 2)], h.choice('unit%d' % i, 2), h.choice('rad%d' % i, 2)
              cfg.updateInUnitSystem(('Mpc/h', 'kpc/h')[k], 'E+10Msun/h', 1e5, 0.5)
              ns, sl, ff, rr = rf.getFoFSHData(dirs[d], ('Rvir', 'R200')[r], t)
              h.eq(rr[0], (R, Q)[r][d] * (cfg.InUnitLength_in_cm / cfg.getLMVInternal()[0]), 'call %d: radius in internal units' % i, tol=1e-4)
              h.eq(ff[0], [[1, 2], [2, 2]][d][t], 'call %d: group size' % i); h.eq(sl[0], [[2, 3], [2, 4]][d][t], 'call %d: subhalo size' % i); h.eq(ns[0], 1, 'call %d: number of subhaloes' % i)
              if h.sym: rr[0] = 77; ff[0] = 77
      finally: F.done()
  return f


def catalogue(h):
    """object catalogues of different tables through the shared cache"""
    al = h.load('cosmic_profiles.gadget.gen_catalogues')
    if h.sym: h.rt.RT.symint = True
    R = h.reals('R', 2, h.q(1, 2), 2)
    confs = [([1, 1], [2, 3], [2, 3], 1), ([1, 1], [2, 3], [2, 3], 3), ([1, 1], [3, 2], [2, 3], 1), ([2, 0], [2, 3], [2, 3], 1), ([1, 1], [2, 3], [4, 3], 1), ([0, 0], [], [2, 3], 1)]
    for i in range(2):
        ns, sl, ff, mn = confs[h.choice('conf%d' % i, len(confs))]
        rr = [R, R[::-1]][h.choice('rad%d' % i, 2)]
        from c13 import reference, cmp
        lists, rad, size = reference(h, ns, sl, ff, list(rr), mn)
        got = al.calcObjCat(h.i32(ns), h.i32(sl), h.i32(ff), h.arr(list(rr)), mn)
        cmp(h, got, lists, rad, size)
        for g in got:
            if len(g): g[0] = 55


HARNESSES = []
for ms in (None, 0, 1, 2, 3): HARNESSES.append(H('lru %s' % ms, lru(ms, 5), '5 operations (calls with symbolic keys, clears), maxsize %s' % ms))
HARNESSES += [H('lru calls 2', lru(2, 6, clears=False), '6 calls with symbolic keys, maxsize 2'), H('lru calls 3', lru(3, 6, clears=False), '6 calls, maxsize 3'),
              H('lru memory', lru(None, 4, mem=True), '4 operations, memory short or not after each of them (symbolic)'), H('lru memory calls', lru(128, 5, mem=True, clears=False), '5 calls, memory state arbitrary'),
              H('lru reentrant 2', lru(2, 4, reenter=True, clears=False), 'the cached function calls itself with the same key; 4 calls, maxsize 2'), H('lru reentrant None', lru(None, 3, reenter=True, clears=False), 'as before, unbounded'),
              H('lru calls 3 deep', lru(3, 7, clears=False), '7 calls, maxsize 3', tier='thorough'), H('lru 2 deep', lru(2, 7), '7 operations, maxsize 2', tier='thorough')]
HARNESSES += [H('marks %s' % m, marks(m), '2 calls out of 11 argument forms with symbolic values') for m in (2, None)]
HARNESSES += [H('lru errors %s' % m, lru(m, 4, fails=True, clears=False), '4 calls, the function raises for a symbolic key, maxsize %s' % m) for m in (2, None, 0)] + [H('lru errors memory', lru(None, 3, mem=True, fails=True, clears=False), '3 calls, the function raises for a symbolic key')]
HARNESSES += [H('keywords %s' % m, kwargs(m), '3 calls out of 10 argument forms with symbolic values') for m in (2, None)]
HARNESSES += [H('arrays %s %s' % (g, m), arrays(g, m), '2 calls (each repeated) out of 17 argument tuples, real entries symbolic; GBs=%s, maxsize %s' % (g, m)) for g, m in ((0, 128), (1, 128), (0, 1), (0, None), (0, 0))]
HARNESSES += [H('group tables', fof(2), '2 calls over 2 directories, 2 types, 2 units, 2 radius definitions; radii symbolic'), H('group tables 3', fof(3), '3 calls', tier='thorough', budget=300), H('object catalogue', catalogue, '2 calls over 6 tables and 2 radius lists')]
OUTSIDE = 'real threads (the lock is taken at face value, re-entrance is covered); files that change on disk between two calls; longer histories'
ASSUMPTIONS = []
