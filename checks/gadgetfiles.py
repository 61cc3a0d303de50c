"""HDF5 snapshots and group files: real files for numeric runs, an in-memory tree for symbolic ones"""
from common import *

BLOCK = {'POS ': 'Coordinates', 'MASS': 'Masses', 'ID  ': 'ParticleIDs', 'VEL ': 'Velocities'}


class Dset:
    def __init__(self, a): self.a = a
    @property
    def shape(self): return self.a.shape
    @property
    def dtype(self): return self.a.dtype
    def __getitem__(self, k): 
        r = self.a[k]
        return r.copy() if hasattr(r, 'copy') else r
    def __len__(self): return len(self.a)


class Node:
    def __init__(self, tree, pre): self.tree = tree; self.pre = pre
    def keys(self): return sorted({k[len(self.pre):].split('/')[0] for k in self.tree if k.startswith(self.pre) and '@' not in k})
    def __contains__(self, k):
        k = self.pre + k.strip('/')
        return k in self.tree or any(x.startswith(k + '/') for x in self.tree)
    def __getitem__(self, k):
        k = self.pre + k.strip('/')
        if k in self.tree: return Dset(self.tree[k])
        if any(x.startswith(k + '/') or x.startswith(k + '@') for x in self.tree): return Node(self.tree, k + '/')
        raise KeyError("Unable to open object (object %r doesn't exist)" % k)
    @property
    def attrs(self):
        p = self.pre.rstrip('/') + '@'
        return {k[len(p):]: v for k, v in self.tree.items() if k.startswith(p)}
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class FakeH5:
    def __init__(self, files): self.files = files
    def File(self, name, mode='r', *a, **k):
        name = str(name)
        if name not in self.files: raise OSError('Unable to open file ' + name)
        return Node(self.files[name], '')


class FakeGlob:
    def __init__(self, names): self.names = names
    def glob(self, pat, *a, **k):
        import fnmatch
        return [n for n in self.names if fnmatch.fnmatch(n, pat) and n.count('/') == pat.count('/')]


class Files:
    """one directory of HDF5 files; order: the order in which glob lists them"""
    def __init__(self, h, overrides=None, **kw):
        self.h = h; self.files = {}
        if h.sym:
            self.root = '/data'
            self.glob = FakeGlob([])
            ov = {'h5py': FakeH5(self.files), 'glob': self.glob}
            ov.update(overrides or {})
            self.world = lambda: h.world(overrides=ov, **kw)
            self.world()
        else:
            import tempfile, os
            self.root = os.path.realpath(tempfile.mkdtemp(prefix='h5_', dir='.'))
            self.world = lambda: None

    def add(self, name, tree):
        p = self.root + '/' + name
        if self.h.sym:
            self.files[p] = tree; self.h.rt.RT.fs[p] = 'hdf5'
            self.glob.names.append(p)
        else:
            import h5py, os, numpy as np
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with h5py.File(p, 'w') as f:
                for k, v in tree.items():
                    if '@' in k:
                        g, a = k.split('@'); f.require_group(g).attrs[a] = v
                    else: f[k] = np.array(v)
        return p

    def snapshot(self, name, parts, head, split=None):
        """parts: {type: {'POS ': array, ...}}; head: dict(time, boxsize, massarr(6)); split: per file {type: count}"""
        h = self.h
        import numpy as np
        n = [0] * 6
        for t, b in parts.items():
            for k, v in b.items(): n[t] = len(v)
        if 'nall' in head: n = head['nall']
        split = split or [{t: n[t] for t in range(6)}]
        off = [0] * 6
        for i, sp in enumerate(split):
            tr = {}
            A = lambda k, v: tr.__setitem__('Header@' + k, v)
            A('Time', head.get('time', h.const(1))); A('Redshift', head.get('redshift', h.const(0))); A('BoxSize', head.get('boxsize', h.const(0)))
            A('NumFilesPerSnapshot', len(split)); A('Omega0', h.const('3/10')); A('OmegaLambda', h.const('7/10')); A('HubbleParam', h.const('1/2'))
            A('MassTable', h.arr(head.get('massarr', [h.const(0)] * 6)))
            A('NumPart_ThisFile', np.array([sp.get(t, 0) for t in range(6)], dtype=np.int32)); A('NumPart_Total', np.array(n, dtype=np.uint32)); A('Flag_Cooling', 0)
            for t, b in parts.items():
                c = sp.get(t, 0)
                if c == 0: continue
                for k, v in b.items(): tr['PartType%d/%s' % (t, BLOCK[k])] = v[off[t]:off[t] + c]
                off[t] += c
            self.add(name + ('.hdf5' if len(split) == 1 else '.%d.hdf5' % i), tr)
        return self.root + '/' + name

    def groups(self, tables, dirname='groups', pat='fof_tab_010.%d.hdf5', order=None):
        """tables: per file dict(len=[[6 ints]], r200=[...], rmean=[...], nsub=[...], sub=[[6 ints]])"""
        h = self.h
        import numpy as np
        for i in (order or range(len(tables))):
            t = tables[i]; tr = {'Header@x': 0}
            if t.get('len') is not None and len(t['len']):
                tr['Group/GroupLenType'] = self.itab(t['len'])
                tr['Group/Group_R_TopHat200'] = h.arr(t['r200']); tr['Group/Group_R_Mean200'] = h.arr(t.get('rmean', t['r200']))
                tr['Group/GroupNsubs'] = h.i32(t['nsub'])
            if t.get('sub') is not None and len(t['sub']): tr['Subhalo/SubhaloLenType'] = self.itab(t['sub'])
            self.add(dirname + '/' + (pat % i), tr)
        return self.root + '/' + dirname

    def itab(self, rows):
        import numpy as np
        if self.h.sym: return self.h.np.array([list(r) for r in rows])
        return np.array(rows, dtype=np.int32)

    def done(self):
        if not self.h.sym:
            import shutil; shutil.rmtree(self.root, ignore_errors=True)


def gadget(h, F, snap, grp, obj='dm', mn=1, center='com', rvir='Rvir', SNAP='010', CAT=None, VIZ=None):
    mod = h.load('cosmic_profiles.shape_profs.shape_profs_classes')
    return mod.DensShapeProfsGadget(snap, grp, obj, SNAP, VIZ or h.scratch() + '/viz', CAT or h.scratch() + '/cat', RVIR_OR_R200=rvir, MIN_NUMBER_PTCS=mn, CENTER=center)
