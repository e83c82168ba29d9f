"""Runs a Python harness over the real package: symbolically for the driver, or natively on candidate inputs.

rt.py zygote SOCKETFD HARNESS     symbolic; one forked child per path
rt.py native HARNESS CANDIDATES   real numpy and scipy, one forked child per candidate
"""
import importlib
import math
import cmath
import os
import signal
import socket
import struct
import sys
import types

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

import numpy as np                        # noqa: E402
import sym                                # noqa: E402
import arr                                # noqa: E402
import lib as libmod                      # noqa: E402


class Anything:
    """plotting stand-in"""
    def __init__(self, name='plt'):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Anything(n)

    def __call__(self, *a, **k):
        if self._n in ('acorr', 'xcorr'):
            return Anything(), Anything(), Anything(), Anything()
        return Anything()

    def __iter__(self):
        return iter(())

    def __getitem__(self, i):
        return Anything()

    def __add__(self, o):
        return self
    __radd__ = __add__


class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Anything(n)


class VP:
    """what a harness sees"""
    def __init__(self, symbolic):
        self.sym = symbolic
        self.env = {}
        self.only = None
        self.tol, self.abstol = 1e-6, 1e-9
        self.wantobs = False
        self.res = None
        self.feed = None
        self.ndraw = 0
        self.draws = []
        self.ints = []
        self.mins = 0

    def par(self, n, d=None):
        return int(os.environ['H_' + n] if d is None else os.environ.get('H_' + n, d))

    # ---------------------------------------------------------------- inputs
    def var(self, n):
        if self.sym:
            return sym.node('V ' + n, False, 0.0)
        return self.env.get(n, 0.5)

    def const(self, x):
        """a number whose arithmetic is exact"""
        return sym.box(float(x)) if self.sym else float(x)

    def assume(self, p, a, b):
        if self.sym:
            a, b = sym.num(a), sym.num(b)
            if sym.special(a) or sym.special(b):
                sym.unsupported('assumption about a non-finite value')
            a, b = sym.box(a), sym.box(b)
            sym.rt.out.write('A %d %d %d\n' % (p, a.id, b.id))
        elif not (a < b if p == 0 else a <= b if p == 1 else a == b if p == 2 else a != b):
            self.cut()

    def lt(self, a, b): self.assume(0, a, b)
    def le(self, a, b): self.assume(1, a, b)
    def ne(self, a, b): self.assume(3, a, b)

    def pos(self, n):
        x = self.var(n)
        self.lt(0.0, x)
        return x

    def nonneg(self, n):
        x = self.var(n)
        self.le(0.0, x)
        return x

    def inr(self, n, lo, hi):
        x = self.var(n)
        self.le(lo, x)
        self.le(x, hi)
        return x

    def cx(self, re, im):
        return sym.SC(re, im) if self.sym else complex(re, im)

    def branch(self, n):
        x = self.var(n)
        return sym.branch(0, x, 0.0) if self.sym else x < 0

    def choose(self, n, k):
        """an input ranging over 0..k-1"""
        for i in range(k - 1):
            if self.branch('%s_%d' % (n, i)):
                return i
        return k - 1

    def floats(self, xs):
        if self.sym:
            r = np.array(list(xs) + [None], dtype=object)[:-1] if not isinstance(xs, np.ndarray) else xs
            return arr.wrap(r, 'f')
        return np.array(xs, dtype=float)

    def floats2(self, rows):
        if not self.sym:
            return np.array(rows, dtype=float)
        r = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, row in enumerate(rows):
            for j, x in enumerate(row):
                r[i, j] = x
        return arr.wrap(r, 'f')

    def cxs(self, xs):
        if self.sym:
            return arr.wrap(np.array(list(xs) + [None], dtype=object)[:-1], 'c')
        return np.array(xs, dtype=complex)

    def cut(self):
        if self.sym:
            sym.rt.out.write('X\n')
            sym.die(0)
        self.res.write('cut\n')
        self.res.flush()
        os._exit(2)

    # ---------------------------------------------------------------- obligations
    def failed(self, l, a, b):
        if self.only and self.only != l:
            return
        self.res.write('fail %s %.17g %.17g\n' % (l, a, b))
        self.res.flush()
        os._exit(1)

    def eq(self, l, a, b):
        if iscomplex(a) or iscomplex(b):
            self.eq1(l, rpart(a), rpart(b))
            self.eq1(l, ipart(a), ipart(b))
        else:
            self.eq1(l, a, b)

    def eq1(self, l, a, b):
        if self.sym:
            a, b = sym.num(scal(a)), sym.num(scal(b))
            if a is None or b is None:
                return self.ok(l, False)
            w = sym.rt.out.write
            if not isinstance(a, sym.S) and not isinstance(b, sym.S):
                return self.ok(l, a == b or (math.isnan(a) and math.isnan(b)))
            if sym.special(a) or sym.special(b):
                return self.ok(l, False)
            a, b = sym.box(a), sym.box(b)
            w('E %s %d %d\n' % (l, a.id, b.id))
            return
        try:
            a, b = float(scal(a)), float(scal(b))
        except (TypeError, ValueError):
            return self.failed(l, 0, 0)
        if a == b or (math.isnan(a) and math.isnan(b)):
            return
        d, s = abs(a - b), max(abs(a), abs(b))
        if math.isfinite(d) and math.isfinite(s) and d <= self.tol * s + self.abstol:
            return
        self.failed(l, a, b)

    def ok(self, l, c):
        c = bool(c)
        if self.sym:
            sym.rt.out.write('C %s %d\n' % (l, c))
            if not c:
                sym.readreply()
                os._exit(0)
        elif not c:
            self.failed(l, 0, 0)

    def rel(self, l, p, a, b):
        if self.sym:
            a, b = sym.num(scal(a)), sym.num(scal(b))
            if sym.special(a) or sym.special(b) or not (isinstance(a, sym.S) or isinstance(b, sym.S)):
                x, y = (0.0 if isinstance(v, sym.S) else v for v in (a, b))
                return self.ok(l, x < y if p == 0 else x <= y)
            a, b = sym.box(a), sym.box(b)
            sym.rt.out.write('P %s %d %d %d\n' % (l, p, a.id, b.id))
            return
        a, b = float(scal(a)), float(scal(b))
        e = self.tol * max(abs(a), abs(b)) + self.abstol
        if not (math.isfinite(a) and math.isfinite(b)):
            good = a < b if p == 0 else a <= b
        else:
            good = a < b + e if p == 0 else a <= b + e
        if not good:
            self.failed(l, a, b)

    def less(self, l, a, b): self.rel(l, 0, a, b)
    def leq(self, l, a, b): self.rel(l, 1, a, b)

    def obs(self, l, x):
        if iscomplex(x):
            self.obs(l + '.re', rpart(x))
            self.obs(l + '.im', ipart(x))
            return
        x = scal(x)
        if self.sym:
            x = sym.num(x)
            if sym.special(x):
                sym.rt.out.write('O %s !%s\n' % (l, float(x).hex()))
            else:
                x = sym.box(x)
                sym.rt.out.write('O %s %d\n' % (l, x.id))
        elif self.wantobs:
            self.res.write('obs %s %.17g\n' % (l, float(x)))

    def reach(self, l):
        if self.sym:
            sym.rt.out.write('R %s\n' % l)

    def same(self, a, b):
        """the identical value (no branch)"""
        a, b = scal(a), scal(b)
        if self.sym:
            pa, pb = sym.pair(a), sym.pair(b)
            if pa is None or pb is None:
                return False
            return all(sym.box(x).id == sym.box(y).id if not (sym.special(x) or sym.special(y)) else x == y for x, y in zip(pa, pb))
        return a == b

    # ---------------------------------------------------------------- draws
    def draw(self):
        k = self.ndraw
        self.ndraw += 1
        if self.feed is not None:
            if k >= len(self.feed):
                return self.extra_draw(k)
            return self.feed[k]
        return self.var('z%d' % k)

    def extra_draw(self, k):
        return self.var('zextra%d' % k)

    def draw01(self):
        k = self.ndraw
        self.ndraw += 1
        return self.inr('u%d' % k, 0.0, 1.0)

    def drawint(self, lo, hi):
        if hi <= lo:
            raise ValueError('low >= high')
        r = lo + self.choose('i%d' % len(self.ints), hi - lo)
        self.ints.append((lo, hi, r))
        return r

    # ---------------------------------------------------------------- functions for specifications
    def exp(self, x):
        if self.sym:
            return sym.sexp(x)
        return cmath.exp(x) if isinstance(x, complex) else math.exp(x)

    def log(self, x):
        return sym.slog(x) if self.sym else math.log(x)

    def sqrt(self, x):
        return sym.ssqrt(x) if self.sym else math.sqrt(x)


def scal(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        return x.item()
    return x


def iscomplex(x):
    return isinstance(scal(x), (sym.SC, complex, np.complexfloating))


def rpart(x):
    x = scal(x)
    return x.re if isinstance(x, sym.SC) else x.real


def ipart(x):
    x = scal(x)
    return x.im if isinstance(x, sym.SC) else x.imag


class Result:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getitem__(self, n):
        return self.__dict__[n]

    def get(self, n, d=None):
        return self.__dict__.get(n, d)


def load_reduced(name, path, size):
    """the module with the number of points of its thousand-point grids replaced (a bound of the harness that asks for it)"""
    import ast

    class Reduce(ast.NodeTransformer):
        def visit_Constant(self, n):
            return ast.copy_location(ast.Constant(size), n) if type(n.value) is int and n.value == 1000 else n
    with open(path) as f:
        tree = ast.fix_missing_locations(Reduce().visit(ast.parse(f.read(), path)))
    m = types.ModuleType(name)
    m.__file__, m.__package__ = path, name.rpartition('.')[0]
    sys.modules[name] = m
    exec(compile(tree, path, 'exec'), m.__dict__)


def load(vp):
    """the package of the code under test, on top of the recording library"""
    import scipy.linalg
    import scipy.optimize
    for n in ('matplotlib', 'matplotlib.pyplot'):
        sys.modules[n] = Mod(n)
    sys.modules['matplotlib'].pyplot = sys.modules['matplotlib.pyplot']
    real = dict(solve=scipy.linalg.solve, minimize=scipy.optimize.minimize)
    src = os.path.join(REPO, 'src', 'carmcmc')
    pkg = types.ModuleType('carmcmc')
    pkg.__path__ = [src]
    sys.modules['carmcmc'] = pkg
    vp.lib = libmod.make(vp)
    sys.modules['carmcmc._carmcmc'] = vp.lib
    pkg._carmcmc = vp.lib
    if vp.sym and os.environ.get('H_GRID'):
        load_reduced('carmcmc.carma_pack', os.path.join(src, 'carma_pack.py'), int(os.environ['H_GRID']))
    vp.mod = importlib.import_module('carmcmc.carma_pack')
    vp.samplers = importlib.import_module('carmcmc.samplers')

    def minimize(fun, x0, args=(), method=None, jac=None, bounds=None, **k):
        if not isinstance(args, tuple):
            args = (args,)
        r = vp.on_minimize(fun, x0, args, bounds)
        vp.lib.rec.optimizer.append((fun, x0, args, bounds, r))
        return r

    class Pool:
        def __init__(self, n=None, *a, **k):
            vp.lib.rec.pools.append(n)

        def map(self, f, xs, *a, **k):
            return [f(x) for x in xs]

        def imap(self, f, xs, *a, **k):
            return iter(self.map(f, xs))

        def starmap(self, f, xs, *a, **k):
            return [f(*x) for x in xs]

        def imap_unordered(self, f, xs, *a, **k):
            return iter(self.map(f, xs))

        def apply_async(self, f, args=(), kwds={}, *a, **k):
            r = f(*args, **kwds)
            return Result(get=lambda *a: r)

        def map_async(self, f, xs, *a, **k):
            r = self.map(f, xs)
            return Result(get=lambda *a: r, wait=lambda *a: None)

        def terminate(self): pass
        def close(self): pass
        def join(self): pass
        def __enter__(self): return self
        def __exit__(self, *a): pass
    mp = types.ModuleType('multiprocessing')
    mp.Pool, mp.cpu_count = Pool, lambda: 3
    import multiprocessing
    import multiprocessing.pool
    extra = {id(real['minimize']): minimize, id(multiprocessing): mp, id(multiprocessing.Pool): Pool,
             id(multiprocessing.cpu_count): mp.cpu_count}
    so = types.ModuleType('scipy.optimize')
    so.__dict__.update({k: v for k, v in scipy.optimize.__dict__.items() if not k.startswith('__')})
    so.minimize = minimize
    extra[id(scipy.optimize)] = so
    rnd = arr.Random(vp)
    if vp.sym:
        arr.install(vp)
        extra[id(real['solve'])] = arr.linsolve
        sl = types.ModuleType('scipy.linalg')
        sl.__dict__.update({k: v for k, v in scipy.linalg.__dict__.items() if not k.startswith('__')})
        sl.solve = arr.linsolve
        sl.inv = arr.proxy.linalg.inv
        extra[id(scipy.linalg)] = sl
        for m in (vp.mod, vp.samplers):
            arr.adopt(m, extra)
    else:
        for n in ('standard_normal', 'randn', 'normal', 'uniform', 'random', 'random_sample', 'rand', 'randint', 'random_integers', 'choice', 'seed'):
            setattr(np.random, n, getattr(rnd, n))
        for m in (vp.mod, vp.samplers):
            for n, v in list(m.__dict__.items()):
                if not n.startswith('__') and id(v) in extra:
                    setattr(m, n, extra[id(v)])
    vp.Result = Result


def harness_fn(path):
    g = {'__name__': 'harness', '__file__': path}
    sys.path.insert(0, os.path.dirname(path))
    with open(path) as f:
        exec(compile(f.read(), path, 'exec'), g)
    return g['harness']


def monitor():
    """names of the package's functions that run"""
    src = os.path.join(REPO, 'src') + '/'
    mon = sys.monitoring
    mon.use_tool_id(3, 'verif')

    def start(code, off):
        if code.co_filename.startswith(src):
            sym.rt.out.write('F %s\n' % (os.path.basename(code.co_filename)[:-3] + '.' + code.co_qualname).replace(' ', '_'))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def child(vp, fn, w, r, prefix):
    sym.rt.out = os.fdopen(w, 'w')
    sym.rt.inp = os.fdopen(r, 'r')
    sym.rt.prefix = prefix
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (600, 600))
    try:
        monitor()
        fn(vp)
    except Exception as e:
        if os.environ.get('VERIF_TRACE'):
            import traceback
            sys.stderr.write(traceback.format_exc())
        sym.rt.out.write('T %s %s\n' % (type(e).__name__, str(e).replace('\n', ' ')[:200]))
    sym.rt.out.write('Q\n')
    sym.die(0)


def zygote():
    fd, path = int(sys.argv[2]), sys.argv[3]
    s = socket.socket(fileno=fd)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    vp = VP(True)
    np.seterr(all='ignore')
    load(vp)
    fn = harness_fn(path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        msg, fds, _, _ = socket.recv_fds(s, 1 << 20, 2)
        if not msg:
            os._exit(0)
        n = struct.unpack('<I', msg[:4])[0]
        body = msg[4:]
        while len(body) < n:
            more = s.recv(n - len(body))
            if not more:
                os._exit(0)
            body += more
        pid = os.fork()
        if pid == 0:
            s.close()
            child(vp, fn, fds[0], fds[1], body.decode())
        for f in fds:
            os.close(f)
        s.sendall(struct.pack('<I', pid))


def native():
    path, cand = sys.argv[2], sys.argv[3]
    vp = VP(False)
    vp.wantobs = bool(os.environ.get('REPLAY_OBS'))
    vp.tol = float(os.environ.get('REPLAY_TOL', vp.tol))
    vp.only = os.environ.get('REPLAY_LABEL')
    vp.res = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    load(vp)
    fn = harness_fn(path)
    for n, line in enumerate(open(cand)):
        vp.env = {k: float(v) for k, v in (kv.split('=') for kv in line.split())}
        vp.res.write('case %d\n' % n)
        vp.res.flush()
        pid = os.fork()
        if pid == 0:
            signal.alarm(60)
            try:
                fn(vp)
            except Exception as e:
                vp.res.write('fail exception %s %s\n' % (type(e).__name__, str(e).replace('\n', ' ')[:200]))
                vp.res.flush()
                os._exit(1)
            vp.res.write('ok\n')
            vp.res.flush()
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            vp.res.write('crash %d\n' % os.WTERMSIG(st))
            vp.res.flush()


if __name__ == '__main__':
    zygote() if sys.argv[1] == 'zygote' else native()
