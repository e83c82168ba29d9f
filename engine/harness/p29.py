"""information criterion, and copies of the stored draws"""
import pyspec as sp


def harness(vp):
    p, q, n = vp.par('P'), vp.par('Q'), vp.par('N')
    time, y, ysig = vp.floats([0.0, 1.0, 2.5]), vp.floats([0.3, -0.2, 0.7]), vp.floats([0.1, 0.2, 0.1])
    # one parameter vector repeated except for the mean: the criterion depends on the log-likelihoods only
    if p == 1:
        ds = [[1.0, 1.0, vp.var('mu%d' % i), 0.0] for i in range(n)]
    else:
        ds = [[1.0, 1.0, vp.var('mu%d' % i)] + [0.25 * k for k in range(p + q)] for i in range(n)]
    s = sp.sampler(vp, p, ds)
    sample = vp.mod.Car1Sample(time, y, ysig, s) if p == 1 else vp.mod.CarmaSample(time, y, ysig, s, q=q)
    dev = [-2.0 * l for l in s.likes]
    mean = 0.0
    for d in dev:
        mean = mean + d
    mean = mean / float(n)
    var = 0.0
    for d in dev:
        var = var + (d - mean) * (d - mean)
    var = var / float(n)
    for rep in range(2):
        dic = sample.DIC()
        vp.eq('criterion', dic, mean + 0.5 * var)
        vp.obs('dic', dic)
        if rep:
            break
        for name in list(sample.parameters):
            a = sample.get_samples(name)
            keep = [x for x in a.ravel()]
            vp.ok('draws_per_name', a.ndim == 2 and a.shape[0] == n)
            a[...] = 7.5
            b = sample.get_samples(name)
            vp.ok('stored_draws_unchanged', b.shape == a.shape and all(vp.same(u, v) for u, v in zip(keep, b.ravel())))
    vp.reach('done')
