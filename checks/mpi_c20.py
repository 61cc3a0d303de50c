"""run under mpirun: reads group tables (optionally with other message limits) or builds an analysis object; writes RANK.json"""
import sys, json, os, types
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.dirname(os.path.abspath(__file__))]
a = json.loads(sys.argv[1])
import numpy as np
from mpi4py import MPI
r = MPI.COMM_WORLD.Get_rank()
from cosmic_profiles.common import config
if a.get('limit') is not None:
    sys.path.append(os.path.dirname(os.path.abspath(__file__)))
    from ranks import limit
    import cosmic_profiles.gadget as G
    p = os.path.join(list(G.__path__)[0] if getattr(G, '__path__', None) else os.path.dirname(G.__file__), 'read_fof.py')
    m = types.ModuleType('cosmic_profiles.gadget.read_fof'); m.__file__ = p
    exec(compile(limit(a['limit'])(open(p).read()), p, 'exec'), m.__dict__)
else: import cosmic_profiles.gadget.read_fof as m
config.updateInUnitSystem(*a['units_in']); config.updateOutUnitSystem(*a['units_out'])
if a['do'] == 'tables':
    ns, sl, ff, rr = m.getFoFSHData(a['dir'], a['rad'], a['type'])
    out = {'ns': ns.tolist(), 'sl': sl.tolist(), 'ff': ff.tolist(), 'rr': rr.tolist()}
else:
    from cosmic_profiles import DensShapeProfsGadget
    g = DensShapeProfsGadget(a['snap'], a['dir'], 'dm', '010', sys.argv[2] + '/v', sys.argv[2] + '/c', RVIR_OR_R200=a['rad'], MIN_NUMBER_PTCS=a['min'], CENTER='com')
    cat, size = g.getIdxCat(); R = g.getR200(); o = g.getMassesCenters(list(range(a['n'])))
    out = None if r else {'cat': cat.tolist(), 'size': size.tolist(), 'R': R.tolist(), 'm': o['mass'].tolist(), 'c': o['centre'].tolist()}
json.dump(out, open('%s/%d.json' % (sys.argv[2], r), 'w'))
