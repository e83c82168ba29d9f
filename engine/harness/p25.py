"""likelihood search and order selection"""


def harness(vp):
    n = vp.par('N')
    t, y, s = [], [], []
    for i in range(n):
        t.append(vp.const(1.5 * i + 0.25 * (i % 3)))
        y.append(vp.const(((i * 7) % 5) * 0.5))
        s.append(vp.pos('s%d' % i))
    model = vp.mod.CarmaModel(vp.floats(list(t)), vp.floats(list(y)), vp.floats(list(s)), p=1, q=0)
    runs, trials = [], []

    def on_run(kind, args):
        pq = (1, 0) if kind == 'car1' else (args[5], args[6])
        k = len(runs)
        if vp.par('START'):
            d = [vp.pos('r%d_sd' % k), vp.inr('r%d_sc' % k, 0.5, 2.0)] + [vp.var('r%d_%d' % (k, j)) for j in range(1 + sum(pq))]
        else:
            d = [0.75, 1.0, vp.var('r%d_mu' % k)] + [-1.0 - 0.125 * j for j in range(sum(pq))]
        sm = (vp.lib.CAR1 if kind == 'car1' else vp.lib.CARMA)([d], [vp.var('lp%d' % k)], lambda th: vp.var('prior'), lambda th: vp.var('like'))
        vp.ok('search_on_the_data', all(len(v) == n for v in args[2:5]) and all(
            vp.same(args[2][i], t[i]) and vp.same(args[3][i], y[i]) and vp.same(args[4][i], s[i]) for i in range(n)))
        runs.append((pq, sm))
        return sm

    def on_minimize(fun, x0, args, bounds):
        k = len(trials)
        pq, sm = runs[-1]
        vp.ok('start_has_every_parameter', len(x0) == 3 + sum(pq) and len(bounds) == len(x0))
        for j in range(len(x0)):
            lo, hi = bounds[j]
            if lo is not None:
                vp.leq('start_above_lower_bound', lo, x0[j])
            if hi is not None:
                vp.leq('start_below_upper_bound', x0[j], hi)
        asked = len(sm.asked)
        got = fun(x0, *args)
        vp.eq('objective_is_minus_log_density', got, -(vp.var('prior') + vp.var('like')))
        th, mle = sm.asked[-1]
        vp.ok('objective_at_the_point', len(sm.asked) == asked + 1 and len(th) == len(x0) and all(vp.same(a, b) for a, b in zip(th, x0)))
        vp.ok('prior_limits_ignored', mle or pq[0] == 1)
        f = vp.inr('f%d' % k, -1e100, 1e100)
        r = vp.Result(fun=f, x=x0, message='done', success=True)
        trials.append((pq, r))
        return r
    vp.on_run, vp.on_minimize = on_run, on_minimize
    jobs = [1, 2, -1][vp.choose('jobs', 3)] if vp.par('JOBS') else 1
    nt = vp.par('T')
    if vp.par('MODE') == 0:
        p, q = vp.par('P'), vp.par('Q')
        best = model.get_mle(p, q, ntrials=nt, njobs=jobs)
        vp.ok('one_search_per_trial', len(trials) == nt and all(pq == (p, q) for pq, _ in trials))
        vp.ok('best_is_a_trial', any(best is r for _, r in trials))
        for _, r in trials:
            vp.leq('best_likelihood', best.fun, r.fun)
        vp.obs('fun', best.fun)
        vp.reach('searched')
        return
    pmax = vp.par('PMAX')
    kw = {}
    if vp.par('LIST'):
        want = [(2, 1), (1, 0), (3, 0)][:vp.par('LIST')]
        kw['pqlist'] = list(want)
    else:
        qm = vp.par('QMAX')
        if qm >= 0:
            kw['qmax'] = qm
        want = [(p, q) for p in range(1, pmax + 1) for q in range(p) if qm < 0 or q <= qm]
    best, pqs, aicc = model.choose_order(pmax, njobs=jobs, ntrials=nt, **kw)
    pqs = [tuple(x) for x in pqs]
    vp.ok('orders_requested', sorted(pqs) == sorted(want))
    vp.ok('one_criterion_per_order', len(aicc) == len(pqs))
    vp.ok('every_order_searched', [pq for pq, _ in trials] == [pq for pq in pqs for _ in range(nt)])
    vp.ok('best_is_a_trial', any(best is r for _, r in trials))
    crit = []
    for i, pq in enumerate(pqs):
        k = 2.0 + sum(pq)
        fs = [r.fun for q2, r in trials[i * nt:(i + 1) * nt]]
        low = fs[0]
        for f in fs[1:]:
            if f < low:
                low = f
        crit.append(2.0 * k + 2.0 * low + 2.0 * k * (k + 1.0) / (n - k - 1.0))
        vp.eq('criterion', aicc[i], crit[i])
        vp.obs('aicc', aicc[i])
    vp.ok('stored_order_was_tried', (model.p, model.q) in pqs)
    j = pqs.index((model.p, model.q))
    for c in crit:
        vp.leq('stored_order_minimises', crit[j], c)
    own = [r for pq, r in trials if pq == pqs[j]]
    vp.ok('estimate_of_the_stored_order', any(best is r for r in own))
    for r in own:
        vp.leq('best_likelihood', best.fun, r.fun)
    vp.reach('chosen')
