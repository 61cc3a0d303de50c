"""helpers shared by the property harnesses (work on symbols and on numbers)"""


def vec(h, name, n=3, lo=None, hi=None): return h.reals(name, n, lo, hi)


def dist2(p, q): return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 + (p[2] - q[2]) ** 2


def sum_(h, xs):
    s = xs[0]
    for x in xs[1:]: s = s + x
    return s


def internal_units(h):
    """input and output units equal to the internal ones"""
    cfg = h.load('cosmic_profiles.common.config')
    cfg.updateInUnitSystem('Mpc/h', 'E+10Msun/h', 1e5, 0.5)
    cfg.updateOutUnitSystem('Mpc/h', 'E+10Msun/h', 1e5, 0.5)
    return cfg


def dsp(h, xyz, ms, lists, r200, L_BOX=0.0, MIN=1, CENTER='com', SNAP='001', CAT=None, VIZ=None):
    mod = h.load('cosmic_profiles.shape_profs.shape_profs_classes')
    return mod.DensShapeProfs(xyz, ms, [list(l) for l in lists], h.arr(r200), L_BOX, SNAP, VIZ or h.scratch() + '/viz', CAT or h.scratch() + '/cat', MIN, CENTER)


AT = (20, 33, 47)     # where objects are put: no two coordinates of a centre alike


def at(p, o=AT): return [o[k] + p[k] for k in range(3)]


def spread(xyz):
    """points about (20, 20, 20) moved to about AT"""
    return [[p[0], p[1] + 13, p[2] + 27] for p in xyz]


class Rec:
    """stand-in for matplotlib.pyplot: remembers, per figure, what was drawn"""
    def __init__(self): self.figs = []
    def figure(self, *a, **k): self.figs.append([]); return self
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        def f(*a, **k):
            if not self.figs: self.figs.append([])
            self.figs[-1].append((name, a, k))
            if name == 'hist': return [], [], []
            return self
        return f
    def drawn(self, kind): return [f for f in self.figs if any(c[0] in kind for c in f)]


def minimiser(h, fn):
    """replace scipy.optimize.minimize; fn(cost, x0, bounds, args) -> the point it finds"""
    dt = h.load('cosmic_profiles.dens_profs.dens_profs_tools')
    class Res: pass
    def impl(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, *a, **k):
        if not isinstance(args, tuple): args = (args,)
        r = Res(); r.x = h.arr(fn(lambda x: fun(h.arr(x), *args), x0, bounds, args)); r.success = True; r.fun = 0
        return r
    if h.sym: h.w.optimize.impl = impl
    else:
        import scipy.optimize
        scipy.optimize.minimize = impl
        if hasattr(dt, 'minimize'): dt.minimize = impl
    return dt


def datafit(h, scale=1):
    """a point that depends on the data only, in the same way in every unit system"""
    def fn(cost, x0, bounds, args):
        if len(args) == 3:
            med, R, prof = args
            return [med[0] + 2 * med[len(med) - 1]] + [h.const(j + 2) for j in range(len(x0) - 2)] + [R[0] * 2 + R[len(R) - 1]]
        return [1 + cost(x0)] + [h.const(j + 2) for j in range(len(x0) - 2)] + [x0[len(x0) - 1]]
    return fn
