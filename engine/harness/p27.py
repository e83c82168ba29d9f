"""generated series: linear in independent normal draws, with the model's covariance"""
import pyspec as sp


def harness(vp):
    m = vp.mod
    n, q, mode = vp.par('N'), vp.par('Q'), vp.par('MODE')
    s2 = vp.pos('sigsqr')
    t = [vp.const(0.0)]
    if mode == 1:
        # integer times
        import numpy as np
        t = [vp.const(3.0 * i) for i in range(n)]
        times = lambda: np.array([3 * i for i in range(n)])
    elif mode == 2:
        # unordered times: two values, whose covariance does not depend on the pairing
        t = [vp.const(0.0), vp.pos('d0')]
        times = lambda: vp.floats([t[1], t[0]])
    else:
        for i in range(1, n):
            t.append(t[-1] + vp.pos('d%d' % (i - 1)))
        times = lambda: vp.floats(list(t))
    if vp.par('K') == 0:
        tau = vp.pos('tau')
        rs, ma = [-1.0 / tau], [1.0]
        call = lambda: m.car1_process(times(), s2, tau)
    else:
        rs = sp.roots(vp, sp.kind(vp))
        ma = [1.0] + [vp.var('b%d' % i) for i in range(1, q + 1)]
        form = vp.choose('form', 3)
        if form == 0 and q == 0:
            call = lambda: m.carma_process(times(), s2, vp.cxs(rs))
        elif form == 0:
            call = lambda: m.carma_process(times(), s2, vp.cxs(rs), list(ma))
        elif form == 1:
            call = lambda: m.carma_process(times(), s2, vp.cxs(rs), vp.floats(list(ma)))
        else:
            full = ma + [0.0] * (len(rs) - len(ma))
            call = lambda: m.carma_process(times(), s2, vp.cxs(rs), vp.floats(full))

    def run(z):
        vp.feed, vp.ndraw = z, 0
        y = call()
        vp.ok('one_value_per_time', len(y) == n)
        vp.ok('draws', vp.ndraw <= n)
        return list(y)
    zero = run([0.0] * n)
    for i in range(n):
        vp.eq('zero_mean', zero[i], 0.0)
    cols = [run([1.0 if j == k else 0.0 for j in range(n)]) for k in range(n)]
    for i in range(n):
        for j in range(i + 1):
            c = 0.0
            for k in range(n):
                c = c + cols[k][i] * cols[k][j]
            lag = t[i] - t[j]
            if mode == 2:
                lag = t[1] - t[0] if i != j else 0.0
            vp.eq('covariance', c, sp.acov(vp, s2, rs, ma, lag))
    z = [vp.var('z%d' % k) for k in range(n)]
    y = run(list(z))
    for i in range(n):
        want = 0.0
        for k in range(n):
            want = want + z[k] * cols[k][i]
        vp.eq('linear_in_draws', y[i], want)
        vp.obs('y', y[i])
    vp.reach('done')
