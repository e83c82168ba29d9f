"""Recording stand-in for the compiled library the Python package calls.

Constructors and calls are recorded with their arguments; returned numbers are inputs of the harness.  Argument
types are checked the way the real bindings check them.
"""
import types

import numpy as np

import sym


class ArgumentError(TypeError):
    pass


def isreal(x):
    return isinstance(x, (sym.S, float, int)) and not isinstance(x, bool)


def iscx(x):
    return isreal(x) or isinstance(x, (sym.SC, complex))


class vecD(list):
    ok = staticmethod(isreal)
    what = 'double'

    def append(self, x):
        if not self.ok(x):
            raise TypeError('Attempting to append an invalid type')
        list.append(self, x)

    def extend(self, xs):
        for x in list(xs):
            if not self.ok(x):
                raise TypeError('Incompatible Data Type')
            list.append(self, x)


class vecC(vecD):
    ok = staticmethod(iscx)
    what = 'complex'


class vecvecD(list):
    pass


class pairD:
    def __init__(self, a=0.0, b=0.0):
        self.first, self.second = a, b


class Recorder:
    """one per run of a harness"""
    def __init__(self):
        self.filters = []
        self.samplers = []
        self.optimizer = []
        self.pools = []


def need(cond, what):
    if not cond:
        raise ArgumentError('Python argument types did not match C++ signature: ' + what)


def make(vp):
    m = types.ModuleType('carmcmc._carmcmc')
    rec = Recorder()
    m.rec = rec
    m.vecD, m.vecC, m.vecvecD, m.pairD = vecD, vecC, vecvecD, pairD

    class KalmanFilter:
        def __init__(self, *args):
            need(len(args) >= 3 and all(type(a) is vecD for a in args[:3]), 'KalmanFilter')
            self.time, self.y, self.ysig = (list(a) for a in args[:3])
            self.calls = []
            self.k = len(rec.filters)
            rec.filters.append(self)
            self.filtered = False

        def Filter(self):
            self.filtered = True
            self.calls.append(('Filter',))

        def Predict(self, t):
            need(isreal(t), 'Predict')
            n = sum(1 for c in self.calls if c[0] == 'Predict')
            m_, v_ = vp.var('pm%d_%d' % (self.k, n)), vp.pos('pv%d_%d' % (self.k, n))
            self.calls.append(('Predict', t, m_, v_))
            return pairD(m_, v_)

        def Simulate(self, ts):
            need(type(ts) is vecD, 'Simulate')
            r = vecD()
            r.extend([vp.var('sim%d_%d_%d' % (self.k, len(self.calls), i)) for i in range(len(ts))])
            self.calls.append(('Simulate', list(ts), list(r)))
            return r

        def GetMean(self):
            r = vecD()
            r.extend([vp.var('km%d_%d' % (self.k, i)) for i in range(len(self.time))])
            self.calls.append(('GetMean', list(r)))
            return r

        def GetVar(self):
            r = vecD()
            r.extend([vp.pos('kv%d_%d' % (self.k, i)) for i in range(len(self.time))])
            self.calls.append(('GetVar', list(r)))
            return r

    class KalmanFilter1(KalmanFilter):
        def __init__(self, *args):
            KalmanFilter.__init__(self, *args)
            need(len(args) == 3 or len(args) == 5 and all(isreal(a) for a in args[3:]), 'KalmanFilter1')
            self.sigsqr, self.omega = args[3:] if len(args) == 5 else (None, None)

    class KalmanFilterp(KalmanFilter):
        def __init__(self, *args):
            KalmanFilter.__init__(self, *args)
            need(len(args) == 3 or len(args) == 6 and isreal(args[3]) and type(args[4]) is vecC and type(args[5]) is vecD, 'KalmanFilterp')
            if len(args) == 6:
                self.sigsqr, self.roots, self.ma = args[3], list(args[4]), list(args[5])
    m.KalmanFilter1, m.KalmanFilterp = KalmanFilter1, KalmanFilterp

    class Sampler:
        """what the samplers return: draws, their log densities, priors and densities as functions of the draw"""
        def __init__(self, draws, logpost, prior, like):
            self.draws, self.logpost, self.prior, self.like = draws, logpost, prior, like
            self.mle = False
            self.asked = []

        def getSamples(self):
            r = vecvecD()
            for d in self.draws:
                v = vecD()
                v.extend(d)
                r.append(v)
            return r

        def GetLogLikes(self):
            v = vecD()
            v.extend(self.logpost)
            return v

        def getLogPrior(self, theta):
            need(type(theta) is vecD, 'getLogPrior')
            return self.prior(list(theta))

        def getLogDensity(self, theta):
            need(type(theta) is vecD, 'getLogDensity')
            self.asked.append((list(theta), self.mle))
            return self.prior(list(theta)) + self.like(list(theta))

    class CarmaSampler(Sampler):
        def SetMLE(self, flag):
            need(isinstance(flag, bool), 'SetMLE')
            self.mle = flag
    m.Sampler, m.CarmaSampler = Sampler, CarmaSampler
    m.CAR1, m.CARp, m.CARMA = Sampler, CarmaSampler, CarmaSampler

    def run(kind, n, args):
        rec.samplers.append((kind, args))
        hook = getattr(vp, 'on_run', None)
        if hook is None:
            sym.unsupported('sampler run not expected')
        return hook(kind, args)

    def isint(x):
        return isinstance(x, int) and not isinstance(x, bool)

    def run_mcmc_car1(*a):
        need(5 <= len(a) <= 7 and isint(a[0]) and isint(a[1]) and all(type(x) is vecD for x in a[2:5]), 'run_mcmc_car1')
        need((len(a) < 6 or isint(a[5])) and (len(a) < 7 or type(a[6]) is vecD), 'run_mcmc_car1')
        return run('car1', 5, a)

    def run_mcmc_carma(*a):
        need(8 <= len(a) <= 11 and isint(a[0]) and isint(a[1]) and all(type(x) is vecD for x in a[2:5]) and all(isint(x) for x in a[5:8]), 'run_mcmc_carma')
        need((len(a) < 9 or isinstance(a[8], bool)) and (len(a) < 10 or isint(a[9])) and (len(a) < 11 or type(a[10]) is vecD), 'run_mcmc_carma')
        return run('carma', 8, a)
    m.run_mcmc_car1, m.run_mcmc_carma = run_mcmc_car1, run_mcmc_carma
    return m
