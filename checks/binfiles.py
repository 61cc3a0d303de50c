"""Binary Gadget snapshots (format 1 and 2, both byte orders): real files for numeric runs, typed segments at
possibly symbolic offsets for symbolic ones"""
import struct, sys
import numpy as np

SIZE = {'i4': 4, 'u4': 4, 'f4': 4, 'f8': 8, 'u8': 8, 'i8': 8, 'raw': 1}


class Spec:
    """a file as a list of (kind, values) and ('hole', number of bytes)"""
    def __init__(self, order): self.order = order; self.segs = []
    def put(self, kind, vals): self.segs.append((kind, list(vals)))
    def hole(self, n): self.segs.append(('hole', n))
    def record(self, body, name=None, fmt=1):
        """one Fortran record; body: list of segments"""
        n = 0
        for k, v in body: n = n + (v if k == 'hole' else SIZE[k] * len(v))
        if fmt == 2:
            self.put('u4', [8]); self.put('raw', name.encode()); self.put('u4', [n + 8]); self.put('u4', [8])
        self.put('u4', [n])
        self.segs += [(k, v if k == 'hole' else list(v)) for k, v in body]
        self.put('u4', [n])


def header(H, fill=0):
    """body of the header record; H: dict"""
    b = [('i4', H['npart']), ('f8', H['massarr']), ('f8', [H['time'], H['redshift']]), ('i4', [H['sfr'], H['feedback']]), ('u4', H['nall']),
         ('i4', [H['cooling'], H['filenum']]), ('f8', [H['boxsize'], H['omega_m'], H['omega_l'], H['hubble']])]
    n = sum(SIZE[k] * len(v) for k, v in b)
    return b + [('raw', b'\x07' * (256 - n))]


def write(path, spec):
    with open(path, 'wb') as f:
        for k, v in spec.segs:
            if k == 'hole': f.seek(int(v), 1); f.truncate(f.tell())
            elif k == 'raw': f.write(bytes(v))
            else: f.write(np.array(v, dtype=spec.order + k).tobytes())


class Bytes:
    """contents of a region that is not plain bytes"""
    def __init__(self, f, pos, n): self.f = f; self.pos = pos; self.n = n
    def __len__(self): return self.n


class SymFile:
    def __init__(self, h, spec):
        self.h = h; self.spec = spec; self.pos = 0
        self.start = []; p = 0
        for k, v in spec.segs:
            self.start.append(p); p = p + (v if k == 'hole' else SIZE[k] * len(v))
        self.size = p

    def seek(self, off, whence=0):
        off = _plain(off)
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else self.size + off)
        return self.pos
    def tell(self): return self.pos
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def where(self, pos):
        """(segment, item) at this offset, None inside a hole or between items"""
        h = self.h
        def const(x):
            x = _plain(x)
            if isinstance(x, int): return x
            return int(x.cval) if x.isconst else None
        later = []
        for i, (k, v) in enumerate(self.spec.segs):
            if k != 'hole' and not len(v): continue
            d = const(pos - self.start[i])
            if d is None: later.append(i); continue
            if k == 'hole':
                if d == 0: return None
                continue
            if 0 <= d < SIZE[k] * len(v): return (i, d // SIZE[k]) if d % SIZE[k] == 0 else None
        for i in later:
            k, v = self.spec.segs[i]
            if k == 'hole': continue
            if bool(pos >= self.start[i]) and bool(pos < self.start[i] + SIZE[k] * len(v)):
                for j in range(len(v)):
                    if bool(pos == self.start[i] + j * SIZE[k]): return i, j
                return None
        return None

    def items(self, kind, n, other):
        """n items of this kind from here; other: the reader assumes the other byte order"""
        core = self.h.core; out = []
        for _ in range(n):
            at = self.where(self.pos)
            v = None
            if at is None:
                if not isinstance(_plain(self.pos - self.size), int) or _plain(self.pos - self.size) >= 0:
                    if bool(self.pos + SIZE[kind] > self.size): break       # end of the file
            if at is not None:
                k = self.spec.segs[at[0]][0]
                if k == kind or (k[1:] == kind[1:] and k[0] in 'iu' and kind[0] in 'iu'): v = self.spec.segs[at[0]][1][at[1]]
            if v is None: v = core.fresh('bytes', kind[0] != 'f')
            elif other: v = swap(self.h, v, kind)
            out.append(v); self.pos = self.pos + SIZE[kind]
        return out

    def read(self, n=-1):
        n = int(n)
        at = self.where(self.pos)
        if at is not None and self.spec.segs[at[0]][0] == 'raw' and at[1] + n <= len(self.spec.segs[at[0]][1]):
            self.pos = self.pos + n
            return bytes(self.spec.segs[at[0]][1][at[1]:at[1] + n])
        r = Bytes(self, self.pos, n); self.pos = self.pos + n
        return r


def _plain(x):
    if isinstance(x, np.generic): x = x.item()
    if hasattr(x, 'isconst') and x.isconst and x.isint: return int(x.cval)
    return x


def swap(h, v, kind):
    """the value whose bytes are those of v in the other order"""
    core = h.core; reg = core.C.__dict__.setdefault('swaps', {})
    if isinstance(v, np.generic): v = v.item()
    if isinstance(v, int) or (getattr(v, 'isconst', False) and v.isint):
        v = int(v) if isinstance(v, int) else int(v.cval)
        return int(np.array(v, dtype=kind).byteswap().item())
    if not isinstance(v, core.Sym): return core.fresh('swapped')
    if v.isconst and v.cval == 0: return v
    if v.key() in reg: return reg[v.key()]
    g = core.Sym.var('swap(%d)' % len(reg), v.isint)
    reg[v.key()] = g; reg[g.key()] = v
    return g


class Snaps:
    """a directory of binary snapshot files"""
    def __init__(self, h):
        self.h = h; self.files = {}
        if h.sym:
            self.root = '/bin'
            if h.w is None: h.world()
            h.w.open_hook = self.open
            h.rt.RT.fromfile = self.fromfile; h.rt.RT.frombuffer = self.frombuffer
            h.rt.RT.byteswap = lambda v: swap(h, v, 'u4')
        else:
            import tempfile, os
            self.root = os.path.realpath(tempfile.mkdtemp(prefix='bin_', dir='.'))

    def add(self, name, spec):
        p = self.root + '/' + name
        if self.h.sym: self.files[p] = spec; self.h.rt.RT.fs[p] = 'binary'
        else: write(p, spec)
        return p

    def open(self, name, mode='r', *a, **k):
        if name not in self.files: raise FileNotFoundError(name)
        return SymFile(self.h, self.files[name])

    def fromfile(self, f, dtype=float, count=-1, sep='', offset=0):
        rt = self.h.rt
        if not isinstance(f, SymFile): f = self.open(f)
        if offset: f.seek(offset, 1)
        rd = rt.realdt(dtype); base = rd.base; per = int(np.prod(rd.shape)) if rd.shape else 1
        c = int(count)
        kind = base.kind + str(base.itemsize)
        if c < 0: c = int((f.size - f.pos) // (SIZE[kind] * per))
        big = base.byteorder == '>'
        vals = f.items(kind, c * per, big != (f.spec.order == '>'))
        n = len(vals) // per
        return self._array(vals[:n * per], kind, (n,) + rd.shape)

    def frombuffer(self, b, dtype=float, count=-1, offset=0):
        if isinstance(b, Bytes):
            pos = b.f.pos; b.f.pos = b.pos + offset
            rd = self.h.rt.realdt(dtype)
            r = self.fromfile(b.f, dtype, count if count >= 0 else (b.n - offset) // rd.itemsize)
            b.f.pos = pos
            return r
        return np.frombuffer(b, self.h.rt.realdt(dtype), count, offset)

    def _array(self, vals, kind, shape):
        if kind[0] != 'f' and all(isinstance(_plain(v), int) for v in vals):
            return np.array([_plain(v) for v in vals], dtype=np.dtype(kind)).reshape(shape)
        o = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals): o[i] = v if kind[0] != 'f' else (v if hasattr(v, 'isconst') else self.h.const(v))
        return o.reshape(shape).view(self.h.rt.A)

    def done(self):
        if not self.h.sym:
            import shutil; shutil.rmtree(self.root, ignore_errors=True)
