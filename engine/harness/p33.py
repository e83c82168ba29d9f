"""a run asks the compiled sampler for what was requested and wraps what it returned"""


def harness(vp):
    n = 3
    t = [vp.const(0.5 * i) for i in range(n)]
    y = [vp.var('y%d' % i) for i in range(n)]
    e = [vp.pos('e%d' % i) for i in range(n)]
    p = vp.par('P')
    q = vp.choose('q', p)
    model = vp.mod.CarmaModel(vp.floats(list(t)), vp.floats(list(y)), vp.floats(list(e)), p=p, q=q)
    few = vp.par('FEW', 0)   # high orders with the options left out or all given
    pick = (lambda name, vals: vals[few_all]) if few else lambda name, vals: vals[vp.choose(name, 3)]
    few_all = 2 * vp.choose('given', 2) if few else 0
    ns = 2 if few else pick('ns', [1, 2, 5])
    kw, seen = {}, []
    burn = pick('burn', [None, 0, 7])
    if burn is not None:
        kw['nburnin'] = burn
    thin = pick('thin', [None, 1, 4])
    if thin is not None:
        kw['nthin'] = thin
    temps = pick('temps', [None, 1, 6])
    if temps is not None:
        kw['ntemperatures'] = temps
    start = vp.choose('start', 2)
    if start:
        init = vp.lib.vecD()
        init.extend([vp.var('i%d' % k) for k in range(3 + p + q)])
        kw['init'] = init
    draws = [[vp.pos('sd%d' % i), 1.0, vp.var('mu%d' % i)] + [0.25 * k for k in range(p + q)] for i in range(ns)]
    lp = [vp.var('lp%d' % i) for i in range(ns)]

    def on_run(kind, args):
        seen.append((kind, args))
        return (vp.lib.CAR1 if kind == 'car1' else vp.lib.CARMA)(draws, lp, lambda th: vp.const(0.0), lambda th: vp.const(0.0))
    vp.on_run = on_run
    sample = model.run_mcmc(ns, **kw)
    vp.ok('one_run', len(seen) == 1)
    kind, a = seen[0]
    vp.ok('sampler_for_the_order', kind == ('car1' if p == 1 else 'carma'))
    vp.ok('draws_requested', a[0] == ns)
    vp.ok('burn_in', a[1] == (ns // 2 if burn is None else burn))
    vp.ok('data', all(len(v) == n for v in a[2:5]) and all(
        vp.same(a[2][i], t[i]) and vp.same(a[3][i], y[i]) and vp.same(a[4][i], e[i]) for i in range(n)))
    if p == 1:
        vp.ok('thinning', (a[5] if len(a) > 5 else 1) == (thin or 1))
        got = a[6] if len(a) > 6 else []
    else:
        vp.ok('orders', (a[5], a[6]) == (p, q))
        vp.ok('temperatures', a[7] == (max(10, p + q) if temps is None else temps))
        vp.ok('not_the_z_transformed_model', len(a) < 9 or a[8] is False)
        vp.ok('thinning', (a[9] if len(a) > 9 else 1) == (thin or 1))
        got = a[10] if len(a) > 10 else []
    vp.ok('start', len(got) == (len(kw['init']) if start else 0) and all(vp.same(u, v) for u, v in zip(got, kw.get('init', []))))
    vp.ok('sample_kept', model.mcmc_sample is sample)
    vp.ok('sample_type', type(sample).__name__ == ('Car1Sample' if p == 1 else 'CarmaSample'))
    vp.ok('sample_orders', (sample.p, sample.q) == (p, q))
    mu, post = sample.get_samples('mu'), sample.get_samples('logpost')
    vp.ok('sample_size', len(mu) == ns and len(post) == ns)
    for i in range(ns):
        vp.eq('draws_in_order', mu[i, 0], draws[i][2])
        vp.eq('densities_in_order', post[i, 0], lp[i])
        vp.obs('mu', mu[i, 0])
    vp.ok('sample_data', all(vp.same(sample.time[i], t[i]) and vp.same(sample.y[i], y[i]) and vp.same(sample.ysig[i], e[i]) for i in range(n)))
    vp.reach('done')
