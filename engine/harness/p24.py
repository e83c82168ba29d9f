"""model construction from rows in any order, with ties"""


def harness(vp):
    n = vp.par('N')
    t = [vp.var('t%d' % i) for i in range(n)]
    y = [vp.var('y%d' % i) for i in range(n)]
    s = [vp.pos('s%d' % i) for i in range(n)]
    at, ay, as_ = vp.floats(list(t)), vp.floats(list(y)), vp.floats(list(s))
    order = vp.choose('order', 2)
    mod = vp.mod.CarmaModel(at, ay, as_, p=1 if order else 3, q=0 if order else 1)
    vp.ok('orders_kept', (mod.p, mod.q) == ((1, 0) if order else (3, 1)))
    distinct = []
    for x in t:
        if not any(x == o for o in distinct):
            distinct.append(x)
    vp.ok('row_count', len(mod.time) == len(mod.y) == len(mod.ysig) == len(distinct))
    for i in range(len(mod.time)):
        if i:
            vp.less('increasing', mod.time[i - 1], mod.time[i])
        rows = [k for k in range(n) if same(vp, mod.time[i], t[k])]
        vp.ok('time_is_a_row', len(rows) > 0)
        vp.ok('value_and_error_of_the_same_row', any(vp.same(mod.y[i], y[k]) and vp.same(mod.ysig[i], s[k]) for k in rows))
        vp.obs('time', mod.time[i])
        if len(rows) == 1:  # numpy's argsort does not say which of tied rows comes first
            vp.obs('y', mod.y[i])
    for i in range(n):
        vp.ok('inputs_not_modified', vp.same(at[i], t[i]) and vp.same(ay[i], y[i]) and vp.same(as_[i], s[i]))
    # what the samplers are given
    seen = []

    def on_run(kind, args):
        seen.append(args)
        raise Stop()
    vp.on_run = on_run
    try:
        mod.run_mcmc(10)
    except Stop:
        pass
    vp.ok('sampler_called', len(seen) == 1)
    vt, vy, vs = seen[0][2:5]
    vp.ok('vector_count', len(vt) == len(vy) == len(vs) == len(mod.time))
    for i in range(len(vt)):
        vp.ok('vectors_equal_arrays', vp.same(vt[i], mod.time[i]) and vp.same(vy[i], mod.y[i]) and vp.same(vs[i], mod.ysig[i]))
    vp.reach('tie' if len(distinct) < n else 'distinct')


def same(vp, a, b):
    return vp.same(a, b) or a == b


class Stop(Exception):
    pass
