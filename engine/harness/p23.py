"""derived quantities of a posterior sample and of an added maximum-likelihood estimate"""
import math
import pyspec as sp


def harness(vp):
    p, q, n = vp.par('P'), vp.par('Q'), vp.par('N')
    time, y, ysig = vp.floats([0.0, 1.0, 2.5]), vp.floats([0.3, -0.2, 0.7]), vp.floats([0.1, 0.2, 0.1])
    draws = sp.draws(vp, p, q, n)
    s = sp.sampler(vp, p, draws)
    if p == 1:
        sample = vp.mod.Car1Sample(time, y, ysig, s)
    else:
        sample = vp.mod.CarmaSample(time, y, ysig, s, q=q)
    get = lambda name, i: row(sample.get_samples(name), i, n, vp, name)
    for i, d in enumerate(draws):
        check(vp, p, q, d, lambda name: get(name, i), 'psd_centroid')
        vp.eq('log_posterior', get('logpost', i)[0], s.logpost[i])
        vp.eq('log_likelihood_without_prior', get('loglik', i)[0], s.likes[i])
    vp.ok('named_parameters', {'var', 'measerr_scale', 'mu', 'sigma', 'loglik', 'logpost'} <= set(sample.parameters))
    vp.reach('sample')
    if not vp.par('MLE'):
        return
    x = sp.draws(vp, p, q, 1, 'm')[0]
    sample.add_mle(vp.Result(x=vp.floats(list(x)), fun=vp.var('fun'), message='done'))
    mle = sample.mle

    def one(name):
        v = mle[name]
        return list(v) if hasattr(v, '__len__') else [v]
    check(vp, p, q, x, one, 'psd_cent', True)
    vp.eq('mle_log_likelihood', mle['loglik'], -vp.var('fun'))
    vp.reach('estimate')


def row(a, i, n, vp, name):
    vp.ok('one_row_per_draw', a.ndim == 2 and a.shape[0] == n)
    return [a[i, j] for j in range(a.shape[1])]


def check(vp, p, q, d, get, cent, mle=False):
    pre = 'mle_' if mle else ''
    vp.eq(pre + 'variance', get('var')[0], d[0] * d[0])
    vp.eq(pre + 'error_scale', get('measerr_scale')[0], d[1])
    vp.eq(pre + 'mean', get('mu')[0], d[2])
    sigma = get('sigma')[0]
    vp.leq(pre + 'noise_sign', 0.0, sigma)
    vp.obs('sigma', sigma)
    if p == 1 and not mle:
        vp.eq('log_frequency', get('log_omega')[0], d[3])
        vp.eq('noise', sigma * sigma, 2.0 * d[0] * d[0] * vp.exp(d[3]))
        return
    quad = [vp.exp(x) for x in d[3:3 + p]]
    roots = get('ar_roots')
    vp.ok(pre + 'root_count', len(roots) == p)
    width, centroid = get('psd_width'), get(cent)
    vp.ok(pre + 'lorentzian_count', len(width) == p and len(centroid) == p)
    for k in range(p // 2):
        a, b = quad[2 * k], quad[2 * k + 1]
        for r in roots[2 * k:2 * k + 2]:
            vp.eq(pre + 'root_of_factor', r * r + b * r + a, 0.0 * r)
        vp.eq(pre + 'both_roots', roots[2 * k] + roots[2 * k + 1], -b + 0.0 * roots[2 * k])
    if p % 2:
        vp.eq(pre + 'root_of_linear_factor', roots[p - 1] + quad[p - 1], 0.0 * roots[p - 1])
    tau = vp.const(2.0 * math.pi)
    for k in range(p):
        vp.eq(pre + 'width', width[k] * tau, -roots[k].real)
        vp.eq(pre + 'centroid', centroid[k] * centroid[k] * tau * tau, roots[k].imag * roots[k].imag)
        vp.leq(pre + 'centroid_sign', 0.0, centroid[k])
    ar = factors(vp, quad)
    got = get('ar_coefs')
    vp.ok(pre + 'ar_count', len(got) == p + 1)
    for k in range(p + 1):
        vp.eq(pre + 'ar_coefficient', got[k], ar[p - k])
    mac = factors(vp, [vp.exp(x) for x in d[3 + p:]])
    ma = get('ma_coefs')
    vp.ok(pre + 'ma_count', len(ma) == q + 1)
    for k in range(q + 1):
        vp.eq(pre + 'ma_coefficient', ma[k] * mac[0], mac[k])
        vp.obs('ma', ma[k])
    vp.eq(pre + 'noise', sp.acov(vp, sigma * sigma, roots, [c / mac[0] for c in mac], 0.0), d[0] * d[0])


def factors(vp, quad):
    """coefficients, constant term first, of the product of (a + b s + s^2) and, for odd order, (c + s)"""
    c = [1.0]
    fs = [[quad[2 * k], quad[2 * k + 1], 1.0] for k in range(len(quad) // 2)]
    if len(quad) % 2:
        fs.append([quad[-1], 1.0])
    for f in fs:
        n = [0.0] * (len(c) + len(f) - 1)
        for i, a in enumerate(c):
            for j, b in enumerate(f):
                n[i + j] = n[i + j] + a * b
        c = n
    return c
