"""several MPI processes in lockstep (symbolic runs) or under mpirun (the real build)

Processes interact only through collectives, so every interleaving between two collectives gives the same state: each
process runs up to its next collective in turn. A process that ends, or calls another collective, while others wait is
reported as a deadlock."""
import threading, ast, os, sys, json, subprocess


class Killed(BaseException): pass


class Deadlock(Exception): pass


class Hub:
    def __init__(self, n): self.n = n; self.sem = [threading.Semaphore(0) for _ in range(n)]; self.main = threading.Semaphore(0); self.post = [None] * n; self.reply = [None] * n; self.dead = False; self.done = [False] * n; self.exc = [None] * n; self.out = [None] * n; self.log = []

    def call(self, r, op):
        """from process r: take part in a collective"""
        self.post[r] = op
        self.main.release(); self.sem[r].acquire()
        if self.dead: raise Killed()
        x = self.reply[r]; self.reply[r] = None
        return x

    def run(self, fs):
        old = threading.stack_size(512 * 1024 * 1024)
        try: ts = [threading.Thread(target=self._body, args=(r, f), daemon=True) for r, f in enumerate(fs)]
        finally: pass
        try:
            for t in ts: t.start()
            threading.stack_size(old)
            while not all(self.done):
                for r in range(self.n):
                    if self.done[r]: continue
                    self.sem[r].release(); self.main.acquire()
                    if self.exc[r] is not None: raise self.exc[r]
                live = [r for r in range(self.n) if not self.done[r]]
                if not live: break
                if len(live) < self.n: raise Deadlock('processes %s wait for a collective that the others never call' % live)
                self.collective()
            return self.out
        finally:
            self.dead = True
            for r in range(self.n):
                if not self.done[r]: self.sem[r].release()
            for t in ts:
                if t.is_alive(): t.join(5)

    def _body(self, r, f):
        try:
            self.sem[r].acquire()
            if self.dead: return
            self.out[r] = f()
        except Killed: return
        except BaseException as e: self.exc[r] = e
        self.done[r] = True
        self.main.release()

    def collective(self):
        ops = self.post
        k = {(o[0], o[2]) for o in ops}
        if len(k) != 1: raise Deadlock('processes call different collectives: %s' % sorted(map(str, k)))
        kind, root = k.pop()
        self.log.append(kind)
        data = [o[1] for o in ops]
        if kind == 'barrier': self.reply = [None] * self.n
        elif kind == 'gather': self.reply = [list(data) if r == root else None for r in range(self.n)]
        elif kind == 'allgather': self.reply = [list(data) for r in range(self.n)]
        elif kind == 'bcast': self.reply = [data[root]] * self.n
        elif kind == 'Bcast':
            for r in range(self.n):
                if r == root: continue
                if len(data[r]) != len(data[root]): raise Deadlock('Bcast: buffers of length %d and %d' % (len(data[r]), len(data[root])))
                if len(data[root]): data[r][:] = data[root]
            self.reply = [None] * self.n
        elif kind == 'Gatherv':
            buf, counts, displs = data[root][1][:3]
            for r in range(self.n):
                send = data[r][0]
                if len(send) > int(counts[r]): raise Deadlock('Gatherv: process %d sends %d values into %d places' % (r, len(send), int(counts[r])))
                a = int(displs[r])
                if a + len(send) > len(buf): raise Deadlock('Gatherv: write beyond the end of the receive buffer')
                if len(send): buf[a:a + len(send)] = send
            self.reply = [None] * self.n
        else: raise Deadlock('collective ' + kind)


class Comm:
    def __init__(self, hub, r): self.hub = hub; self.r = r
    def Get_rank(self): return self.r
    def Get_size(self): return self.hub.n
    rank = property(Get_rank); size = property(Get_size)
    def Barrier(self): self.hub.call(self.r, ('barrier', None, 0))
    barrier = Barrier
    def gather(self, x, root=0): return self.hub.call(self.r, ('gather', x, root))
    def allgather(self, x): return self.hub.call(self.r, ('allgather', x, 0))
    def bcast(self, x, root=0): return self.hub.call(self.r, ('bcast', x, root))
    def Bcast(self, x, root=0): self.hub.call(self.r, ('Bcast', x[0] if isinstance(x, (list, tuple)) else x, root))
    def Gatherv(self, send, recv, root=0): self.hub.call(self.r, ('Gatherv', (send[0] if isinstance(send, (list, tuple)) else send, recv), root))


def limit(n):
    """source transformation: every integer constant expression of at least 10^6 (the limits on the length of one message) becomes n"""
    def val(t):
        if isinstance(t, ast.Constant): return t.value if type(t.value) in (int, float) else None
        if isinstance(t, ast.BinOp) and isinstance(t.op, (ast.Add, ast.Sub, ast.Mult, ast.Pow, ast.LShift)):
            a, b = val(t.left), val(t.right)
            if a is None or b is None: return None
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Pow: lambda: a ** b, ast.LShift: lambda: a << b}[type(t.op)]()

    class X(ast.NodeTransformer):
        def visit(self, t):
            if isinstance(t, (ast.Constant, ast.BinOp)):
                v = val(t)
                if v is not None and v >= 10 ** 6: return ast.copy_location(ast.Constant(n), t)
            return self.generic_visit(t)

    def f(src):
        t = X().visit(ast.parse(src)); ast.fix_missing_locations(t)
        return ast.unparse(t)
    return f


def mpirun(n, script, arg, cwd='.'):
    """run script under n real MPI processes; -> list of their results"""
    import cosmic_profiles, tempfile
    pk = os.path.dirname(os.path.dirname(os.path.abspath(cosmic_profiles.__file__)))
    env = dict(os.environ, PYTHONPATH=pk, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_btl_vader_single_copy_mechanism='none', PYTHONWARNINGS='ignore')
    with tempfile.TemporaryDirectory(dir=cwd) as d:
        env['TMPDIR'] = '/tmp'
        p = subprocess.run(['mpirun', '--oversubscribe', '--bind-to', 'none', '-n', str(n), sys.executable, '-B', os.path.abspath(script), json.dumps(arg), os.path.abspath(d)], env=env, capture_output=True, text=True, timeout=200, stdin=subprocess.DEVNULL)
        if p.returncode: raise Deadlock('mpirun: exit %d: %s' % (p.returncode, [l for l in p.stderr.split('\n') if 'Error' in l][-1:] or p.stderr[-300:]))
        return [json.load(open('%s/%d.json' % (d, r))) for r in range(n)]
