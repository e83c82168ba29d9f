"""the pure-Python filter against the exact Gaussian conditionals"""
import pyspec as sp


def harness(vp):
    n, q, mode = vp.par('N'), vp.par('Q'), vp.par('MODE')
    rs = sp.roots(vp, sp.kind(vp))
    num = vp.par('NUM', 0)   # roots, coefficients and noise levels given, one symbolic unit of time
    ma = [1.0] + [vp.const(0.5 ** i) if num else vp.var('b%d' % i) for i in range(1, q + 1)]
    s2 = vp.const(3.0) if num else vp.pos('sigsqr')
    ints = vp.par('INT')
    if ints:
        import numpy as np
        t = [vp.const(2.0 * i) for i in range(n)]
        time = np.array([2 * i for i in range(n)])
    else:
        t = [vp.const(0.0)]
        for i in range(1, n):
            t.append(t[-1] + (vp.pos('d0') * vp.const([2.0, 4.0, 3.0][i % 3]) if num else vp.pos('d%d' % (i - 1))))
        time = vp.floats(list(t))
    y = [vp.var('y%d' % i) for i in range(n)]
    v = [vp.nonneg('v%d' % i) if i % 2 else vp.pos('v%d' % i) for i in range(n)]
    if num:
        v = [vp.const(0.25 * (i % 3)) for i in range(n)]
    form = vp.choose('form', 2)
    kf = vp.mod.KalmanFilterDeprecated(time, vp.floats(list(y)), vp.floats(list(v)), s2, vp.cxs(rs), list(ma) if form else vp.floats(list(ma)))
    cov = lambda a, b: sp.acov(vp, s2, rs, ma, a - b)
    C = [[(cov(t[max(a, b)], t[min(a, b)]) + (v[a] if a == b else 0.0)) for b in range(n)] for a in range(n)]
    if mode == 0:
        for rep in range(2):
            mean, var = kf.filter()
            em, ev = sp.gauss(vp, C, y)
            vp.ok('one_value_per_point', len(mean) == n and len(var) == n)
            for i in range(n):
                vp.eq('mean', mean[i], em[i])
                vp.eq('variance', var[i], ev[i])
                vp.obs('mean', mean[i])
                vp.obs('var', var[i])
        vp.reach('done')
        return
    # position of the requested times: after observation 'at', in order
    k = vp.par('M')
    ts = []
    at = vp.par('AT')
    for j in range(k):
        lo = ts[-1] if ts else t[at]
        x = lo + (vp.pos('d0') if num else vp.pos('e%d' % j))
        if at + 1 < n and not num:
            vp.lt(x, t[at + 1])
        ts.append(x)
    after = at + 1
    if mode == 1:
        if vp.par('SAME'):
            ts = [t[at + 1]]
        mean, var = kf.predict(ts[0])
        em, ec = cond(vp, t, y, C, cov, ts[:1], at, vp.par('SAME'))
        vp.eq('mean', mean, em[0])
        vp.eq('variance', var, ec[0][0])
        vp.obs('mean', mean)
        vp.obs('var', var)
        vp.reach('done')
        return
    scalar = vp.par('SC')

    def run(z):
        vp.feed, vp.ndraw = z, 0
        arg = ts[0] if scalar else vp.floats(list(ts))
        r = kf.simulate(arg)
        vp.ok('draws', vp.ndraw <= k)
        if scalar:
            return [r]
        vp.ok('one_value_per_time', len(r) == k)
        return list(r)
    em, ec = cond(vp, t, y, C, cov, ts, at, 0)
    base = run([0.0] * k)
    cols = [run([1.0 if i == j else 0.0 for i in range(k)]) for j in range(k)]
    for i in range(k):
        vp.eq('mean', base[i], em[i])
        vp.obs('sim', base[i])
        for j in range(i + 1):
            c = 0.0
            for l in range(k):
                c = c + (cols[l][i] - base[i]) * (cols[l][j] - base[j])
            vp.eq('covariance', c, ec[i][j])
    vp.ok('data_restored', len(kf.time) == n and all(vp.same(kf.time[i], t[i]) and vp.same(kf.y[i], y[i]) and vp.same(kf.yvar[i], v[i]) for i in range(n)))
    vp.reach('done')


def cond(vp, t, y, C, cov, ts, at, same):
    """mean and covariance of the process at ts (between observations at and at+1) given all the data"""
    n = len(t)
    cross = [[cov(x, t[i]) if i <= at else cov(t[i], x) for i in range(n)] for x in ts]
    w = [sp.solve(C, cr) for cr in cross]
    mean = [sum((w[j][i] * y[i] for i in range(n)), 0.0) for j in range(len(ts))]
    ec = []
    for j in range(len(ts)):
        row = []
        for l in range(len(ts)):
            a, b = max(j, l), min(j, l)
            c = cov(ts[a], ts[b])
            for i in range(n):
                c = c - w[j][i] * cross[l][i]
            row.append(c)
        ec.append(row)
    return mean, ec
