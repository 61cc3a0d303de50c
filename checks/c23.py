"""C23 what is reported about a catalogue is true of it"""
import re
from cysym.runner import H
from gadgetfiles import *
from c13 import reference, TYPES


def number(h, text, phrase, want, what):
    """the number in the line that holds the phrase"""
    l = [x for x in text.split('\n') if re.search(phrase, x, re.I)]
    ok = h.true(len(l) >= 1, what + ': reported')
    for x in l:
        n = re.findall(r'(-?\d+)\s*$', x.replace('\x1b[0m', '').strip())
        h.true(bool(n) and int(n[-1]) == want, what + ': %s' % want)


def direct():
    """objects given as index lists"""
    def f(h):
        internal_units(h)
        n = [h.choice('n%d' % i, 4) for i in range(3)]
        mn = h.int('MIN', 1, 4)
        X = [[h.real('x%d' % i, 0, 5), h.const(i), h.const(0)] for i in range(9)]
        o = dsp(h, h.arr(X), h.arr([h.const(1)] * 9), [list(range(3 * i, 3 * i + k)) for i, k in enumerate(n)], [h.const(1)] * 3, MIN=mn)
        t = h.printed(o.getObjInfo)
        number(h, t, 'sufficient resolution', len([k for k in n if k >= mn]), 'objects')
        h.true('001' in t, 'the snapshot is named')
    return f


def files(kind):
    def f(h):
        F = Files(h)
        try:
            internal_units(h)
            t = TYPES[kind]
            ns = [(1, 2, 0, 1), (0, 0, 1, 1), (1, 0, 0, 0)][h.choice('subhaloes', 3)]
            first = [h.int('a', 0, 3), h.int('b', 0, 3)]
            mn = h.int('MIN', 1, 4)
            ff = [3, 3, 1, 2]
            subs = []
            for g in range(4):
                for i in range(ns[g]): subs.append(first.pop(0) if first and g != 1 or (first and i == 0) else 2)
            def row(x): return [x if k == t else 7 + k for k in range(6)]
            R = [h.const(1 + i) for i in range(4)]
            m = sum(ns[:2])
            tab = [{'len': [row(x) for x in ff[:2]], 'r200': R[:2], 'nsub': list(ns[:2]), 'sub': [row(x) for x in subs[:m]]},
                   {'len': [row(x) for x in ff[2:]], 'r200': R[2:], 'nsub': list(ns[2:]), 'sub': [row(x) for x in subs[m:]]}]
            z = h.real('z', 0, 10); L = h.real('L', 1, 100)
            lo = h.const(2)
            snap = F.snapshot('snap_010', {t: {'POS ': h.arr([[h.const(i)] * 3 for i in range(10)]), 'MASS': h.arr([h.const(1)] * 10)}}, {'boxsize': L, 'redshift': z, 'time': h.const('1/2')})
            lists, rad, size = reference(h, ns, subs, ff, R, mn)
            o = gadget(h, F, snap, F.groups(tab), obj=kind, mn=mn)
            txt = h.printed(o.getObjInfoGadget)
            number(h, txt, 'sufficient resolution', len(size), 'objects')
            number(h, txt, r'> 0 SHs', len([x for x in ns if x]), 'groups with subhaloes')
            number(h, txt, r'total number of objects is', 4, 'groups')
            number(h, txt, r'total number of SHs', sum(ns), 'subhaloes')
            number(h, txt, r'have no SH', len([x for x in ns if not x]), 'groups without subhaloes')
            h.true('010' in txt and kind in txt, 'snapshot and particle type are named')
            number(h, h.printed(o.getObjInfo), 'sufficient resolution', len(size), 'objects (getObjInfo)')
            hd = o.getHeader()
            h.eq(hd.boxsize, L, 'box size in the header', scale=1); h.eq(hd.redshift, z, 'redshift', scale=1); h.eq(hd.time, h.const('1/2'), 'time')
            for k in range(6): h.eq(hd.nall[k], 10 if k == t else 0, 'number of particles of type %d' % k)
        finally: F.done()
    return f


HARNESSES = [H('direct', direct(), '3 objects with 0-3 particles, MIN 1-4 symbolic')] + \
            [H('files ' + k, files(k), '2 group files with 4 groups, 3 patterns of subhaloes, 2 sizes and MIN symbolic; box size and redshift symbolic') for k in TYPES]
OUTSIDE = 'wording, colours and the elapsed time; reports of other processes than the root'
ASSUMPTIONS = []
