"""autocovariance, power spectrum and roots computed in Python"""
import math

import pyspec as sp


def harness(vp):
    m = vp.mod
    mode, q = vp.par('MODE'), vp.par('Q')
    if mode == 0:
        rs = sp.roots(vp, sp.kind(vp))
        s2 = vp.pos('sigsqr')
        ma = [1.0] + [vp.var('b%d' % i) for i in range(1, q + 1)]
        form = vp.choose('form', 3) if q else vp.choose('form', 4)
        a = ma if form == 0 else vp.floats(ma) if form == 1 else vp.floats(ma + [0.0] * (len(rs) - len(ma))) if form == 2 else None
        lag = vp.var('lag')
        vp.ne(lag, 0.0)
        args = (s2, vp.cxs(rs)) + (() if a is None else (a,))
        lagabs = -lag if lag < 0 else lag
        got = m.carma_variance(*args, lag=lag)
        vp.eq('autocovariance', got, sp.acov(vp, s2, rs, ma, lagabs))
        vp.eq('even_in_lag', m.carma_variance(*args, lag=-lag), got)
        vp.eq('variance', m.carma_variance(*args), sp.acov(vp, s2, rs, ma, 0.0))
        vp.obs('acov', got)
        vp.reach('done')
    elif mode == 1:
        p = vp.par('P')
        sigma = vp.pos('sigma')
        ar = [1.0] + [vp.pos('a%d' % i) for i in range(p)]
        ma = [vp.var('b%d' % i) for i in range(q + 1)]
        form = vp.choose('form', 4) if q else vp.choose('form', 5)
        if form == 4:
            ma = [1.0]
        f = vp.pos('f')
        one = lambda x: sp.psd(vp, x, sigma, ar, ma)
        if form == 0:
            got = m.power_spectrum(f, sigma, vp.floats(ar), vp.floats(ma))
        elif form == 1:
            got = m.power_spectrum(f, sigma, ar, ma)
        elif form == 4:
            got = m.power_spectrum(f, sigma, vp.floats(ar))
        else:
            g = vp.pos('g')
            r = m.power_spectrum(vp.floats([f, g]), sigma, vp.floats(ar), ma if form == 2 else vp.floats(ma))
            vp.ok('one_value_per_frequency', len(r) == 2)
            vp.eq('spectrum', r[1], one(g))
            got = r[0]
        vp.eq('spectrum', got, one(f))
        vp.obs('psd', got)
        vp.reach('done')
    else:
        n, odd = vp.par('N'), vp.par('ODD')
        w = [vp.pos('w%d' % i) for i in range(n + odd)]
        c = []
        for i in range(n):
            if vp.branch('zero%d' % i):
                c.append(0.0)
            else:
                x = vp.var('c%d' % i)
                vp.lt(1e-6, x)
                c.append(x)
        form = vp.choose('form', 2)
        got = m.get_ar_roots(*((vp.floats(w), vp.floats(c)) if form else (w, c)))
        twopi = vp.const(2 * math.pi)
        want = [1.0]
        for i in range(n + odd):
            if i < n and not (isinstance(c[i], float) and c[i] == 0):
                want = conv(want, [1.0, 2 * twopi * w[i], twopi * twopi * (w[i] * w[i] + c[i] * c[i])])
            else:
                want = conv(want, [1.0, twopi * w[i]])
        poly = sp.poly_of(list(got))
        vp.ok('number_of_roots', len(poly) == len(want))
        for k in range(len(want)):
            vp.eq('roots', poly[k], want[k])
            vp.obs('coef%d' % k, sp.re(poly[k]))
        vp.reach('done')


def conv(a, b):
    r = [0.0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r
