"""prediction and simulation from a posterior sample: which parameters, which data, which mean"""
import pyspec as sp

FITS = ['map', 'median', 'mean', 'random']


def harness(vp):
    p, q, n, m = vp.par('P'), vp.par('Q'), vp.par('N'), vp.par('M')
    fit = FITS[vp.par('FIT')]
    nd = 3
    t = [vp.const(1.0 * i) for i in range(nd)]
    y = [vp.var('y%d' % i) for i in range(nd)]
    e = [vp.pos('e%d' % i) for i in range(nd)]
    draws = sp.draws(vp, p, q, n)
    for d in draws:
        if p > 1 and vp.par('REAL') >= 0:
            a, b = vp.exp(d[3]), vp.exp(d[4])
            if vp.par('REAL'):
                vp.lt(4.0 * a, b * b)
            else:
                vp.lt(b * b, 4.0 * a)
    s = sp.sampler(vp, p, draws)
    at, ay, ae = vp.floats(list(t)), vp.floats(list(y)), vp.floats(list(e))
    sample = (vp.mod.Car1Sample(at, ay, ae, s) if p == 1 else vp.mod.CarmaSample(at, ay, ae, s, q=q))
    what = vp.par('WHAT')
    ts = [vp.var('x%d' % i) for i in range(m)]
    scalar = what in (1, 3)
    arg = ts[0] if scalar else vp.floats(list(ts))
    name = fit.upper() if vp.par('UP') else fit
    if what < 2:
        mean, var = sample.predict(arg, bestfit=name)
    else:
        sim = sample.simulate(arg, bestfit=name)
    fs = vp.lib.rec.filters
    vp.ok('one_filter', len(fs) == 1)
    f = fs[0]
    mu = chosen(vp, p, q, n, fit, sample, s, f)
    vp.ok('data_count', len(f.time) == len(f.y) == len(f.ysig) == nd)
    for i in range(nd):
        vp.eq('filter_times', f.time[i], t[i])
        vp.eq('filter_errors', f.ysig[i], e[i])
        vp.eq('mean_subtracted', f.y[i], y[i] - mu)
        vp.ok('data_not_modified', vp.same(ay[i], y[i]) and vp.same(at[i], t[i]) and vp.same(ae[i], e[i]))
    calls = [c for c in f.calls if c[0] in ('Predict', 'Simulate')]
    if what < 2:
        vp.ok('one_value_per_time', (len(mean) == m and len(var) == m) if not scalar else True)
        pred = {}
        for i in range(m):
            c = [c for c in calls if c[0] == 'Predict' and vp.same(c[1], ts[i])]
            vp.ok('asked_at_the_time', len(c) > 0)
            vp.eq('mean_added_back', mean[i] if not scalar else mean, c[0][2] + mu)
            vp.eq('variance', var[i] if not scalar else var, c[0][3])
            vp.obs('mean', mean[i] if not scalar else mean)
    else:
        vp.ok('one_simulation', len(calls) == 1 and calls[0][0] == 'Simulate' and len(calls[0][1]) == m and len(sim) == m)
        for i in range(m):
            j = [j for j in range(m) if vp.same(calls[0][1][j], ts[i])]
            vp.ok('asked_at_the_time', len(j) > 0)
            vp.eq('mean_added_back', sim[i], calls[0][2][j[0]] + mu)
            vp.obs('sim', sim[i])
    if not scalar:
        vp.ok('times_not_modified', all(vp.same(arg[i], ts[i]) for i in range(m)))
    vp.reach('done')


def chosen(vp, p, q, n, fit, sample, s, f):
    """checks the filter's parameters; returns the mean that goes with them"""
    g = {k: sample.get_samples(k) for k in (['sigma', 'mu', 'log_omega'] if p == 1 else ['sigma', 'mu', 'ar_roots', 'ma_coefs'])}
    if fit in ('map', 'random'):
        if fit == 'map':
            i = 0
            for k in range(1, n):
                if s.logpost[i] < s.logpost[k]:
                    i = k
            for k in range(n):
                if k != i:
                    vp.ne(s.logpost[i], s.logpost[k])
        else:
            vp.ok('drawn_over_all_draws', len(vp.ints) > 0 and all(tuple(x[:2]) == (0, n) for x in vp.ints))
            i = vp.ints[-1][2]
        pick = lambda name, k: g[name][i, k]
        sig2 = pick('sigma', 0) * pick('sigma', 0)
    elif fit == 'mean':
        pick = lambda name, k: avg([g[name][i, k] for i in range(n)])
        sig2 = avg([g['sigma'][i, 0] * g['sigma'][i, 0] for i in range(n)])
    else:
        pick = lambda name, k: median([g[name][i, k] for i in range(n)])
        sig2 = pick('sigma', 0) * pick('sigma', 0)
    vp.eq('noise', f.sigsqr, sig2)
    if p == 1:
        vp.eq('frequency', f.omega, vp.exp(pick('log_omega', 0)))
    else:
        vp.ok('orders', len(f.roots) == p and len(f.ma) == q + 1)
        for k in range(p):
            vp.eq('roots', f.roots[k], pick('ar_roots', k))
        for k in range(q + 1):
            vp.eq('coefficients', f.ma[k], pick('ma_coefs', k))
    return pick('mu', 0)


def avg(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t / float(len(xs))


def median(xs):
    """middle value (mean of the two middle ones); complex values ordered by real, then imaginary part"""
    def before(a, b):
        if hasattr(a, 'imag') and (type(a).__name__ == 'SC' or isinstance(a, complex)):
            if a.real == b.real:
                return a.imag < b.imag
            return a.real < b.real
        return a < b
    out = []
    for x in xs:
        i = 0
        while i < len(out) and not before(x, out[i]):
            i += 1
        out.insert(i, x)
    n = len(out)
    return out[n // 2] if n % 2 else (out[n // 2 - 1] + out[n // 2]) / 2.0
