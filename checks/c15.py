"""C15 snapshot blocks are read back exactly as stored (binary format 1 and 2, HDF5)"""
from cysym.runner import H
import binfiles
from gadgetfiles import *

MOD = 'cosmic_profiles.gadget.readgadget'
SNP = 'cosmic_profiles.gadget.readsnap'
VEC = ('POS ', 'VEL ')


def units(h, sym):
    """arbitrary input units: -> {block: factor to internal units}"""
    cfg = h.load('cosmic_profiles.common.config')
    cfg.updateInUnitSystem('Mpc/h', 'E+10Msun/h', 1e5, 0.5)
    L, M, V = cfg.getLMVInternal()
    r = [h.real(k, h.q(1, 8), 8) if sym else h.const(c) for k, c in (('ul', 3), ('um', 5), ('uv', 2))]
    cfg.updateInUnitSystem(r[0] * L, r[1] * M, r[2] * V, 0.5)
    return {'POS ': r[0], 'MASS': r[1], 'VEL ': r[2], 'ID  ': 1}


def wide(f):
    """integer arrays keep symbols and know their range"""
    def g(h):
        if h.sym: h.rt.RT.symint = 'all'
        f(h)
    return g


def call(h, f, what):
    """result of f; giving up (an exception, sys.exit) on a well-formed snapshot is a violation"""
    try: return f()
    except SystemExit: h.true(False, what + ': gives up (sys.exit)')
    except Exception as e:
        if type(e).__name__ in ('Skip', 'Mismatch'): raise
        h.true(False, '%s: raises %s(%s)' % (what, type(e).__name__, e))


class Model:
    """contents of a snapshot: counts per file and type, values, header"""
    def __init__(self, h, counts, table, ids='u4', redshift=None, **head):
        self.h = h; self.counts = counts; self.table = table; self.ids = ids
        nf = len(counts)
        z = redshift if redshift is not None else h.const(0)
        self.H = {'massarr': [h.const(0)] * 6, 'time': 1 / (1 + z), 'redshift': z, 'sfr': 0, 'feedback': 0, 'cooling': 1, 'filenum': nf, 'boxsize': h.const(10),
                  'omega_m': h.const('1/4'), 'omega_l': h.const('3/4'), 'hubble': h.const('1/2')}
        self.H.update(head)
        for t, m in table.items(): self.H['massarr'][t] = m
        self.nall = [0] * 6
        for c in counts:
            for t in range(6): self.nall[t] = self.nall[t] + c[t]

    def values(self, block, f, t, n, wide=False):
        h = self.h
        if block in VEC: return [h.real('%s%d_%d_%d_%d' % (block.strip().lower(), f, t, i, a), -9, 9) for i in range(n) for a in range(3)]
        if block == 'ID  ':
            top = 2 ** 64 - 1 if self.ids == 'u8' else 2 ** 32 - 1
            return [h.int('id%d_%d_%d' % (f, t, i), 0, top) for i in range(n)]
        return [h.real('%s%d_%d_%d' % (block.strip().lower(), f, t, i), h.q(1, 10), 9) for i in range(n)]

    def want(self, block, types):
        """stored values of these types, type by type, file by file"""
        out = []
        for t in types:
            for f, c in enumerate(self.counts):
                if block == 'MASS' and t in self.table: out += [self.table[t]] * int(c[t])
                else: out += self.values(block, f, t, int(c[t]))
        return out

    def spec(self, f, fmt, order, prec, blocks=('POS ', 'VEL ', 'ID  ', 'MASS'), holes=()):
        """holes: types whose data are not spelled out (counts may be symbolic)"""
        s = binfiles.Spec(order); H = dict(self.H); c = self.counts[f]
        H['npart'] = list(c); H['nall'] = list(self.nall)
        s.record(binfiles.header(H), 'HEAD', fmt)
        for b in blocks:
            kind = self.ids if b == 'ID  ' else prec
            body = []; some = False
            for t in OWN.get(b, range(6)):
                if b == 'MASS' and t in self.table: continue
                if isinstance(c[t], int) and c[t] == 0: continue
                some = True
                if t in holes: body.append(('hole', c[t] * (binfiles.SIZE[kind] * (3 if b in VEC else 1))))
                else: body.append((kind, self.values(b, f, t, c[t])))
            if some: s.record(body, b, fmt)
        return s

    def write(self, D, name, **k):
        nf = len(self.counts)
        for f in range(nf): D.add(name + ('.%d' % f if nf > 1 else ''), self.spec(f, **k))
        return D.root + '/' + name


OWN = {'U   ': [0], 'RHO ': [0], 'NE  ': [0], 'NH  ': [0], 'HSML': [0], 'SFR ': [0], 'VOL ': [0], 'AREA': [0], 'MHI ': [0], 'TEMP': [0], 'AGE ': [4], 'Z   ': [0, 4], 'BHMA': [5], 'BHMD': [5]}


def compare(h, got, want, block, what, fac=1, prec='f8'):
    per = 3 if block in VEC else 1
    if not h.true(got.shape == ((len(want) // per, 3) if per == 3 else (len(want),)), what + ': one row per particle'): return
    tol = 1e-6 if prec == 'f4' else None
    for i, w in enumerate(want):
        g = got[i // 3][i % 3] if per == 3 else got[i]
        if block == 'ID  ':
            if not h.sym: g, w = int(g), int(w)
            h.true(g == w, '%s: particle %d' % (what, i))
        else: h.eq(g, w / fac, '%s: particle %d' % (what, i // per), **({'tol': tol} if tol else {}))


# ------------------------------------------------------------------ binary, through readgadget
def binary(block, fmt, order='<', prec='f8', nf=1, types=None, ids='u4', holes=True, symunits=True):
    """requested types out of a snapshot whose other types have any number of particles"""
    @wide
    def f(h):
        fac = units(h, symunits)
        if block == 'VEL ':
            z = h.real('z', 0, 5) if nf > 1 or h.choice('z0', 2) else h.const(0)
        else: z = h.const(0)
        D = binfiles.Snaps(h)
        tab = h.choice('tab1', 2) if block == 'MASS' else 1
        table = {5: h.real('m5', h.q(1, 10), 9)}
        if tab: table[1] = h.real('m1', h.q(1, 10), 9)
        counts = []
        for k in range(nf):
            c = [0] * 6
            if h.choice('gas%d' % k, 2): c[0] = h.int('n0_%d' % k, 1, 1000) if holes else 2
            if nf == 1 or k: c[5] = h.int('n5_%d' % k, 1, 1000) if holes else 1
            c[1] = h.choice('n1_%d' % k, 3 if nf == 1 else 2); c[4] = h.choice('n4_%d' % k, 2)
            counts.append(c)
        m = Model(h, counts, table, ids, z)
        req = types or ([[1], [4], [1, 4], [4, 1]][h.choice('types', 4)] if nf == 1 else [[4, 1], [4]][h.choice('types', 2)])
        snap = m.write(D, 'snap', fmt=fmt, order=order, prec=prec, holes=(0, 5))
        fc = h.sqrt(m.H['time']) if block == 'VEL ' else 1
        want = m.want(block, req)
        if block != 'ID  ': want = [w * fc for w in want]
        rg = h.load(MOD)
        got = call(h, lambda: rg.read_block(snap, block, list(req)), 'read_block %s %s' % (block, req))
        if got is not None: compare(h, got, [w * fac[block] for w in want] if block != 'ID  ' else want, block, 'block ' + block, prec=prec)
        D.done()
    return f


def field(block, fmt, order):
    """one sub-file by its own name"""
    @wide
    def f(h):
        fac = units(h, True)
        D = binfiles.Snaps(h)
        table = {5: h.real('m5', h.q(1, 10), 9)}
        counts = []
        for k in range(2):
            c = [0] * 6
            c[0] = h.int('n0_%d' % k, 1, 1000); c[1] = 1 + h.choice('n1_%d' % k, 2); c[4] = h.choice('n4_%d' % k, 2)
            counts.append(c)
        m = Model(h, counts, table)
        snap = m.write(D, 'snap', fmt=fmt, order=order, prec='f8', holes=(0,))
        k = h.choice('file', 2); t = (1, 4)[h.choice('type', 2)]
        rg = h.load(MOD)
        got = call(h, lambda: rg.read_field(snap + '.%d' % k, block, t), 'read_field')
        want = m.values(block, k, t, counts[k][t])
        if got is not None: compare(h, got, want if block == 'ID  ' else [w * fac[block] for w in want], block, 'field ' + block)
        D.done()
    return f


def big(block, fmt):
    """more than 2 GB of other particles in front of the requested ones"""
    @wide
    def f(h):
        units(h, False)
        D = binfiles.Snaps(h)
        n = [2 ** 31 // 24 - 1, 2 ** 31 // 24, 2 ** 31 // 24 + 1, 10 ** 8, 2 ** 32 // 24 - 3][h.choice('n0', 5)]
        m = Model(h, [[n, 1, 0, 0, 1, 0]], {})
        snap = m.write(D, 'snap', fmt=fmt, order='<', prec='f8', holes=(0,), blocks=('POS ', 'VEL ', 'ID  '))
        t = (1, 4)[h.choice('type', 2)]
        rs = h.load(SNP)
        got = call(h, lambda: rs.read_block(snap, block, t), 'read_block')
        if got is not None: compare(h, got, m.want(block, [t]), block, 'block ' + block)
        D.done()
    return f


# ------------------------------------------------------------------ header
def head(fmt, order, nf=1):
    @wide
    def f(h):
        D = binfiles.Snaps(h)
        counts = [[h.int('n%d_%d' % (k, t), 0, 2 ** 20) for t in range(6)] for k in range(nf)]
        H = {k: h.real(k, -9, 9) for k in ('boxsize', 'hubble')}
        H.update({k: h.real(k, h.q(1, 10), 9) for k in ('omega_m', 'omega_l')})
        H['redshift'] = h.real('z', 0, 9); H['time'] = h.real('time', h.q(1, 9), 1)
        for k in ('sfr', 'feedback', 'cooling'): H[k] = h.int(k, 0, 1)
        m = Model(h, counts, {}, **H)
        m.H['redshift'] = H['redshift']; m.H['time'] = H['time']
        m.H['massarr'] = [h.real('mt%d' % t, 0, 9) for t in range(6)]
        s = []
        for k in range(nf):
            sp = binfiles.Spec(order); d = dict(m.H); d['npart'] = counts[k]; d['nall'] = m.nall
            sp.record(binfiles.header(d), 'HEAD', fmt)
            s.append(D.add('snap' + ('.%d' % k if nf > 1 else ''), sp))
        hub = 100 * h.sqrt(H['omega_m'] * (1 + H['redshift']) ** 3 + H['omega_l'])
        rg = h.load(MOD); rs = h.load(SNP)
        def check(r, k, what, full):
            for a in ('time', 'redshift', 'boxsize', 'omega_m', 'omega_l', 'hubble'): h.eq(getattr(r, a), m.H[a], '%s: %s' % (what, a))
            h.true(r.cooling == m.H['cooling'], what + ': cooling'); h.true(r.filenum == nf, what + ': number of files')
            if full: h.true(r.sfr == m.H['sfr'], what + ': sfr'); h.true(r.feedback == m.H['feedback'], what + ': feedback')
            else: h.eq(r.Hubble, hub, what + ': Hubble')
            for t in range(6):
                h.eq(r.massarr[t], m.H['massarr'][t], '%s: mass table %d' % (what, t))
                h.true(r.npart[t] == counts[k][t], '%s: npart %d' % (what, t)); h.true(r.nall[t] == m.nall[t], '%s: nall %d' % (what, t))
            h.true(r.format == fmt, what + ': format')
        check(rg.header(D.root + '/snap'), 0, 'header', False)
        for k in range(nf):
            check(rs.snapshot_header(s[k]), k, 'snapshot_header of file %d' % k, True)
            check(rg.header(s[k]), k, 'header of file %d' % k, False)
        D.done()
    return f


# ------------------------------------------------------------------ readsnap: all types together, blocks of some types
def alltypes(block, fmt, order, nf, prec='f8'):
    @wide
    def f(h):
        D = binfiles.Snaps(h)
        table = {3: h.real('m3', h.q(1, 10), 9)}
        if block == 'MASS' and h.choice('tab', 2): table[0] = h.real('m0', h.q(1, 10), 9); table[4] = h.real('m4', h.q(1, 10), 9)
        counts = []
        for k in range(nf):
            c = [0] * 6
            for t in (0, 3, 4): c[t] = h.choice('n%d_%d' % (k, t), 2 if t != 0 or nf > 1 else 3)
            counts.append(c)
        m = Model(h, counts, table)
        rs = h.load(SNP)
        snap = m.write(D, 'snap', fmt=fmt, order=order, prec=prec)
        got = call(h, lambda: rs.read_block(snap, block), 'read_block of all types')
        if got is not None: compare(h, got, m.want(block, range(6)), block, 'all types', prec=prec)
        D.done()
    return f


def species(fmt, order, layout, nf=1, mass=True):
    """blocks that only some types have; in format 1 the position in the file is given by the code version"""
    arepo, blocks = layout
    @wide
    def f(h):
        D = binfiles.Snaps(h)
        table = {1: h.real('m1', h.q(1, 10), 9)}
        if not mass: table[0] = h.real('m0', h.q(1, 10), 9); table[4] = h.real('m4', h.q(1, 10), 9); table[5] = h.real('m5', h.q(1, 10), 9)
        counts = []
        for k in range(nf):
            c = [0] * 6
            c[0] = 1 + h.choice('n%d_0' % k, 2) if nf == 1 else h.choice('n%d_0' % k, 2)
            c[1] = h.choice('n%d_1' % k, 2); c[4] = 1; c[5] = 1
            counts.append(c)
        m = Model(h, counts, table)
        snap = m.write(D, 'snap', fmt=fmt, order=order, prec='f8', blocks=('POS ', 'VEL ', 'ID  ') + (('MASS',) if mass else ()) + tuple(blocks))
        b = [x for x in blocks if x in OWN][h.choice('block', len([x for x in blocks if x in OWN]))]
        rs = h.load(SNP)
        for pt in OWN[b] + [-1]:
            got = call(h, lambda: rs.read_block(snap, b, parttype=pt, arepo=arepo, no_masses=not mass), 'block %r of type %d' % (b, pt))
            if got is not None: compare(h, got, m.want(b, OWN[b] if pt < 0 else [pt]), b, 'block %r of type %d' % (b, pt))
        D.done()
    return f




GADGET = (0, ['U   ', 'RHO ', 'NE  ', 'NH  ', 'HSML', 'SFR ', 'AGE ', 'Z   ', 'BHMA', 'BHMD'])
AREPO = (1, ['U   ', 'RHO ', 'VOL ', 'NE  ', 'NH  ', 'HSML', 'SFR ', 'AGE ', 'Z   ', 'BHMA', 'BHMD'])


# ------------------------------------------------------------------ HDF5
def hdf5(block, nf, types=None, symunits=True):
    @wide
    def f(h):
        F = Files(h)
        fac = units(h, symunits)
        z = h.real('z', 0, 5) if block == 'VEL ' else h.const(0)
        table = [h.const(0)] * 6
        tab = h.choice('tab1', 2) if block == 'MASS' else 0
        if tab: table[1] = h.real('m1', h.q(1, 10), 9)
        counts = [{t: h.choice('n%d_%d' % (k, t), 3 if nf == 1 else 2) for t in (1, 4)} for k in range(nf)]
        n = {t: sum(c[t] for c in counts) for t in (1, 4)}
        M = Model(h, [[0, c[1], 0, 0, c[4], 0] for c in counts], {1: table[1]} if tab else {}, redshift=z)
        parts = {}
        for t in (1, 4):
            parts[t] = {}
            for b in ('POS ', 'VEL ', 'ID  ', 'MASS') if block != 'POS ' else ('POS ', 'ID  '):
                if b == 'MASS' and t == 1 and tab: continue
                v = M.want(b, [t])
                if b in VEC:
                    a = h.np.zeros((n[t], 3)) if h.sym else h.np.zeros((n[t], 3))
                    for i in range(len(v)): a[i // 3, i % 3] = v[i]
                elif b == 'ID  ': a = h.np.array(v) if h.sym else h.np.array([int(x) for x in v], dtype=h.np.uint64)
                else: a = h.arr(v)
                parts[t][b] = a
        head = {'time': M.H['time'], 'redshift': z, 'boxsize': h.const(9), 'massarr': table, 'nall': [0, n[1], 0, 0, n[4], 0]}
        snap = F.snapshot('snap', parts, head, split=counts)
        req = types or [[1], [4], [1, 4], [4, 1]][h.choice('types', 4)]
        want = M.want(block, req)
        if block == 'VEL ': want = [w * h.sqrt(M.H['time']) for w in want]
        if block != 'ID  ': want = [w * fac[block] for w in want]
        rg = h.load(MOD)
        got = call(h, lambda: rg.read_block(snap, block, list(req)), 'read_block %s %s' % (block, req))
        if got is not None: compare(h, got, want, block, 'block ' + block)
        hd = rg.header(snap)
        for t in (1, 4):
            h.true(hd.nall[t] == n[t], 'header: nall'); h.eq(hd.massarr[t], table[t], 'header: mass table')
        h.eq(hd.time, M.H['time'], 'header: time'); h.eq(hd.redshift, z, 'header: redshift'); h.true(hd.filenum == nf, 'header: files')
        h.eq(hd.boxsize, h.const(9), 'header: box')
        F.done()
    return f


def missing(kind):
    """a block that is not there is reported, never made up"""
    @wide
    def f(h):
        units(h, False)
        z = h.const(0)
        m1 = h.real('m1', h.q(1, 10), 9)
        block = ('POS ', 'VEL ', 'ID  ')[h.choice('block', 3)]
        have = [b for b in ('POS ', 'VEL ', 'ID  ') if b != block]
        n = 1 + h.choice('n', 2)
        M = Model(h, [[0, n, 0, 0, 0, 0]], {1: m1})
        rg = h.load(MOD)
        if kind == 'hdf5':
            F = Files(h); units(h, False)
            parts = {1: {}}
            for b in have:
                v = M.want(b, [1])
                a = h.np.zeros((n, 3)) if b in VEC else h.np.zeros(n)
                for i in range(len(v)):
                    if b in VEC: a[i // 3, i % 3] = v[i]
                    else: a[i] = v[i]
                parts[1][b] = a
            snap = F.snapshot('snap', parts, {'massarr': M.H['massarr'], 'nall': [0, n, 0, 0, 0, 0]}, split=[{1: n}])
            rg = h.load(MOD); D = F
        else:
            D = binfiles.Snaps(h)
            snap = m_ = M.write(D, 'snap', fmt=2, order='<', prec='f8', blocks=have)
        try: rg.read_block(snap, block, [1]); ok = False
        except SystemExit: ok = True
        except Exception as e:
            if type(e).__name__ in ('Skip', 'Mismatch'): raise
            ok = True
        h.true(ok, 'block %r is missing' % block)
        D.done()
    return f


E_ = {'<': 'little', '>': 'big'}
HARNESSES = []


def add(name, fn, bounds, **k): HARNESSES.append(H(name, fn, bounds, **k))


for b in ('POS ', 'VEL ', 'MASS', 'ID  '):
    for fmt in (1, 2):
        for order in '<>':
            add('binary %s format %d %s endian' % (b.strip(), fmt, E_[order]), binary(b, fmt, order), '1 file; types 1 (0-2 particles), 4 (0-1); any number <= 1000 of type 0, 5; any units, values, redshift; types [1], [4], [1,4], [4,1]', nwit=4)
for b, fmt, order in (('POS ', 1, '<'), ('VEL ', 2, '>'), ('MASS', 1, '>'), ('MASS', 2, '<'), ('ID  ', 1, '<'), ('POS ', 2, '<')):
    add('binary %s format %d %s endian two files' % (b.strip(), fmt, E_[order]), binary(b, fmt, order, nf=2, symunits=False), '2 files; per file 0-1 particles of types 1, 4; any number <= 1000 of types 0, 5 or none', nwit=4)
for b in ('POS ', 'VEL ', 'MASS'):
    add('binary %s single precision' % b.strip(), binary(b, 1 + (b == 'VEL '), '<', 'f4'), 'as above, 4-byte reals', nwit=4)
add('binary POS single precision two files', binary('POS ', 1, '>', 'f4', nf=2, symunits=False), '2 files, 4-byte reals', nwit=4)
for fmt, order, nf in ((1, '<', 1), (2, '>', 1), (1, '>', 2)):
    add('binary ID 64-bit format %d %s endian %d files' % (fmt, E_[order], nf), binary('ID  ', fmt, order, ids='u8', nf=nf, symunits=False), 'IDs up to 2^64-1', nwit=4)
for b in ('POS ', 'MASS', 'ID  '):
    add('field %s of a sub-file' % b.strip(), field(b, 1, '>' if b == 'MASS' else '<'), 'two files, read one by one', nwit=4)
for b in ('POS ', 'ID  '):
    add('blocks over 2 GB %s' % b.strip(), big(b, 1), 'up to 4 GB per block (sparse files)', nwit=12)
for fmt in (1, 2):
    for order in '<>':
        add('header format %d %s endian' % (fmt, E_[order]), head(fmt, order), 'every header', nwit=2)
add('header two files', head(1, '<', 2), 'every header', nwit=2)
for b in ('POS ', 'VEL ', 'MASS', 'ID  '):
    add('all types %s' % b.strip(), alltypes(b, 1, '>' if b == 'POS ' else '<', 1), 'types 0, 3, 4 with 0-2 particles', nwit=3)
    add('all types %s two files' % b.strip(), alltypes(b, 2, '<', 2), 'two files', nwit=3)
add('species blocks format 1', species(1, '<', GADGET), 'Gadget block order; all gas, star and black hole blocks', nwit=3)
add('species blocks format 1 no masses', species(1, '<', GADGET, mass=False), 'no mass block', nwit=3)
add('species blocks format 1 arepo', species(1, '>', AREPO), 'Arepo block order', nwit=3)
add('species blocks format 2', species(2, '>', (0, ['U   ', 'BHMD', 'Z   ', 'RHO ', 'AGE ', 'MHI ', 'TEMP', 'NE  '])), 'any order, found by name', nwit=3)
add('species blocks format 2 two files', species(2, '<', (0, ['RHO ', 'U   ', 'AGE ']), nf=2), 'two files, one without gas', nwit=3)
for b in ('POS ', 'VEL ', 'MASS', 'ID  '):
    for nf in (1, 2):
        add('hdf5 %s %d files' % (b.strip(), nf), hdf5(b, nf), 'per file 0-%d particles of types 1, 4; any units, values, redshift' % (2 if nf == 1 else 1), nwit=3)
add('missing block hdf5', missing('hdf5'), '1-2 particles', nwit=3)
add('missing block binary', missing('binary'), '1-2 particles', nwit=3)

# deeper: three files
for b, fmt, order in (('POS ', 1, '>'), ('VEL ', 1, '<'), ('MASS', 2, '>'), ('ID  ', 2, '<')):
    add('binary %s format %d %s endian three files' % (b.strip(), fmt, E_[order]), binary(b, fmt, order, nf=3, symunits=False), '3 files; per file 0-1 particles of types 1, 4; any number <= 1000 of types 0, 5 or none', nwit=4, tier='thorough', thorough_budget=700)
for b in ('POS ', 'MASS', 'ID  '):
    add('hdf5 %s 3 files' % b.strip(), hdf5(b, 3), '3 files', nwit=3, tier='thorough', thorough_budget=700)
