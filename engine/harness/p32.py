"""credibility band of the power spectrum"""
import math
import pyspec as sp


def harness(vp):
    p, q, n, use = vp.par('P'), vp.par('Q'), vp.par('N'), vp.par('USE')
    shared = vp.par('SHARED')
    if vp.par('SYMT'):
        t = [vp.var('t0')]
        for i in range(1, 3):
            t.append(t[-1] + vp.pos('dt%d' % i))
    else:
        t = [vp.const(x) for x in (0.5, 1.5, 4.0)]
    time, y, ysig = vp.floats(list(t)), vp.floats([0.3, -0.2, 0.7]), vp.floats([0.1, 0.2, 0.1])
    if shared:
        # draws that differ in the deviation only: their spectra are in the same order at every frequency
        ds = [[vp.pos('sd%d' % i), 1.0, 0.0] + [0.25 * k for k in range(p + q)] for i in range(n)]
    else:
        ds = sp.draws(vp, p, q, n)
    s = sp.sampler(vp, p, ds)
    sample = vp.mod.Car1Sample(time, y, ysig, s) if p == 1 else vp.mod.CarmaSample(time, y, ysig, s, q=q)
    kw = {'nsamples': use} if use else {}
    pct = 68.0
    if vp.par('PCT'):
        pct = 50.0
        kw['percentile'] = pct
    r = sample.plot_power_spectrum(doShow=False, plot_log=bool(vp.choose('log', 2)) if vp.par('LOG') else True, **kw)
    low, high, mid, freq = r[:4]
    nf = len(freq)
    vp.ok('sizes', nf > 1 and len(low) == len(high) == len(mid) == nf)
    # frequencies from one over the length of the series to half the inverse of the smallest spacing
    vp.eq('lowest_frequency', freq[0] * (t[2] - t[0]), 1.0)
    d1, d2 = t[1] - t[0], t[2] - t[1]
    dmin = d1 if d1 < d2 else d2
    vp.eq('highest_frequency', freq[nf - 1] * dmin * 2.0, 1.0)
    k = use or n
    picked = [(i * n) // k for i in range(k)]
    sg = sample.get_samples('sigma')
    if p == 1:
        om = [vp.exp(sample.get_samples('log_omega')[i, 0]) for i in range(n)]
    else:
        ar, ma = sample.get_samples('ar_coefs'), sample.get_samples('ma_coefs')
    for j in sorted({0, 1, nf // 2, nf - 1}):
        f = freq[j]
        vals = []
        for i in picked:
            if p == 1:
                v = sp.psd(vp, f, sg[i, 0], [1.0, om[i]], [1.0])
            else:
                v = sp.psd(vp, f, sg[i, 0], [ar[i, m] for m in range(p + 1)], [ma[i, m] for m in range(q + 1)])
            vals.append(v)
        vals = order(vals)
        vp.eq('lower', low[j], quantile(vp, vals, (100.0 - pct) / 2.0))
        vp.eq('upper', high[j], quantile(vp, vals, 100.0 - (100.0 - pct) / 2.0))
        vp.eq('median', mid[j], quantile(vp, vals, 50.0))
        if j in (0, nf - 1):
            vp.obs('median', mid[j])
    vp.reach('done')


def order(xs):
    out = []
    for x in xs:
        i = 0
        while i < len(out) and not x < out[i]:
            i += 1
        out.insert(i, x)
    return out


def quantile(vp, xs, pct):
    """linear interpolation between the ordered values"""
    from fractions import Fraction
    pos = Fraction(pct) * (len(xs) - 1) / 100
    i = int(pos)
    if i == pos:
        return xs[i]
    g = vp.const(float(pos - i))
    return xs[i] + (xs[i + 1] - xs[i]) * g
