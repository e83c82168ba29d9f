"""Which harness configurations decide which property."""
ASSUME = [
    'double arithmetic is modelled as exact real arithmetic (rounding, overflow and underflow are outside; see P31)',
    'exp/log/sin/cos are uninterpreted apart from the algebraic laws used by the normal form and the sign axioms given to z3',
    'LAPACK routines are replaced by exact stand-ins in the symbolic run; native replay uses the real library',
    'random draws are unconstrained values in the support of their distribution',
]


def C(cpp, bounds, tier='quick', reach=(), **kw):
    defs = kw.pop('defs', {})
    return dict(cpp=cpp, bounds=bounds, tier=tier, defs=defs, reach=list(reach), **kw)


CHECKS = {
    'P01': dict(
        what='CAR(1) filter means/variances equal exact Gaussian conditioning, all inputs symbolic, for every way of making the filter object',
        configs=[C('p01.cpp', '%d observations, construction %d' % (n, h), defs=dict(N=n, HOW=h), tier=t)
                 for n, h, t in ((2, 0, 'quick'), (3, 0, 'quick'), (3, 1, 'quick'), (3, 2, 'quick'), (3, 3, 'quick'), (4, 0, 'quick'), (4, 1, 'quick'), (5, 0, 'thorough'), (6, 0, 'thorough'))],
        outside='series longer than the stated lengths'),
    'P02': dict(
        what='CARMA(p,q) filter means/variances equal exact Gaussian conditioning with the CARMA autocovariance, for every way of making the filter object',
        configs=[C('p02.cpp', 'p=%d q=%d, %d complex pairs, %d observations, construction %d, padded MA %d' % (p, q, c, n, h, pad), defs=dict(P=p, Q=q, C=c, N=n, HOW=h, PAD=pad), tier=t)
                 for p, q, c, n, h, pad, t in ((3, 2, 1, 3, 0, 1, 'quick'), (4, 3, 1, 2, 0, 1, 'quick'), (3, 2, 0, 3, 0, 1, 'quick'), (4, 3, 2, 2, 0, 1, 'quick'), (2, 1, 1, 4, 0, 1, 'quick'),
                                       (2, 0, 0, 3, 1, 0, 'quick'), (2, 0, 1, 3, 0, 0, 'quick'), (2, 1, 0, 3, 1, 1, 'quick'), (3, 0, 1, 2, 1, 0, 'quick'), (3, 1, 0, 2, 0, 0, 'quick'),
                                       (2, 1, 1, 2, 2, 1, 'quick'), (3, 1, 1, 2, 3, 1, 'quick'), (2, 0, 0, 2, 3, 0, 'quick'),
                                       (4, 0, 2, 3, 1, 1, 'thorough'), (5, 0, 2, 2, 0, 1, 'thorough'), (4, 2, 0, 2, 1, 0, 'thorough'))] +
                [C('p02.cpp', 'p=%d q=%d, %d complex pairs, given roots (whole numbers), %s, %d observations, construction %d, padded MA %d' % (p, q, c, 'times in given multiples of a symbolic unit' if u else 'symbolic times', n, h, pad),
                   defs=dict(P=p, Q=q, C=c, N=n, HOW=h, PAD=pad, NUM=1, UNIT=u), tier=t)
                 for p, q, c, n, h, pad, u, t in ((5, 4, 2, 2, 0, 1, 0, 'quick'), (6, 5, 2, 2, 0, 1, 0, 'quick'), (7, 3, 3, 2, 1, 0, 0, 'quick'), (5, 4, 0, 3, 0, 1, 1, 'quick'),
                                          (4, 2, 0, 4, 1, 0, 1, 'quick'), (2, 1, 0, 6, 0, 1, 1, 'thorough'))],
        outside='series longer and orders higher than stated; orders above 4 and series above 4 observations other than for the given roots; coinciding roots'),
    'P03': dict(
        what='prediction mean/variance at a requested time equal the exact Gaussian conditional given every observation, for fresh filters and after earlier calls',
        configs=[C('p03.cpp', 'p=%d q=%d, %d complex pairs, %d observations, position %d, history %d, construction %d' % (p, q, c, n, pos, h, how),
                   defs=dict(P=p, Q=q, C=c, N=n, POS=pos, H=h, HOW=how, PAD=1 - how), tier=t)
                 for p, q, c, n, pos, h, how, t in ([(3, 2, 1, 2, 2, 0, 0, 'quick'), (3, 0, 1, 2, 0, 0, 1, 'quick'), (3, 0, 1, 2, 1, 0, 0, 'quick')] +
                                               [(2, 1, 1, 3, x, 0, x % 2, 'quick') for x in (0, 1, 2, 3)] +
                                               [(2, 1, 1, 2, x, 0, 0, 'quick') for x in (0, 1, 2, 100, 101, 200, 201)] +
                                               [(2, 1, 0, 2, x, h, 1, 'quick') for h, x in ((0, 0), (0, 1), (2, 0), (2, 1), (3, 2), (4, 0), (5, 1))] +
                                               [(3, 1, 0, 2, x, 0, 1, 'thorough') for x in (0, 1, 2, 101)] +
                                               [(1, 0, 0, 3, x, 0, 0, 'quick') for x in (0, 1, 2, 3, 100, 101, 102, 200, 201, 202)] +
                                               [(1, 0, 0, 3, x, h, 1, 'quick') for h, x in ((1, 1), (2, 0), (2, 2), (3, 3), (4, 2), (4, 0), (5, 1), (5, 102))] +
                                               [(1, 0, 0, 4, x, 0, 1, 'quick') for x in (0, 2, 4)] + [(1, 0, 0, 5, x, 0, 0, 'thorough') for x in (0, 2, 3, 5)])] +
                [C('p03.cpp', 'p=%d q=%d, %d complex pairs, given roots (whole numbers), times in given multiples of a symbolic unit, %d observations, position %d, construction %d' % (p, q, c, n, pos, how),
                   defs=dict(P=p, Q=q, C=c, N=n, POS=pos, H=0, HOW=how, PAD=1 - how, NUM=1, UNIT=1), tier=t)
                 for p, q, c, n, pos, how, t in ((5, 2, 1, 2, 0, 0, 'quick'), (4, 3, 2, 2, 1, 0, 'quick'), (2, 1, 0, 4, 2, 0, 'quick'), (2, 0, 0, 4, 0, 1, 'quick'), (3, 2, 0, 3, 3, 0, 'quick'),
                                         (6, 3, 2, 2, 2, 0, 'quick'), (5, 4, 2, 2, 2, 1, 'thorough'), (4, 1, 2, 2, 2, 0, 'quick'), (4, 1, 2, 2, 1, 1, 'quick'))],
        outside='longer series, higher orders, longer call histories; orders above 3 other than for the given roots'),
    'P04': dict(
        what='simulated values are affine in independent normal draws with the exact joint conditional mean and covariance, in requested order; the filter is unchanged afterwards',
        configs=[C('p04.cpp', 'p=2 q=%d, %d complex pairs, layout %s, request order %d' % (q, c, l, o), defs=dict(P=2, Q=q, C=c, LAY=l, ORD=o, HOW=0, PAD=1), tier=t)
                 for q, c, l, o, t in ((1, 1, 'osos', 0, 'quick'), (1, 0, 'oso', 0, 'quick'), (1, 1, 'oos', 0, 'quick'), (1, 1, 'soo', 0, 'quick'), (0, 0, 'z=sso', 1, 'quick'), (0, 0, 'oo=s', 0, 'quick'),
                                       (0, 0, 'osos', 1, 'quick'), (0, 0, 'os=so', 0, 'quick'), (0, 1, 'soos', 1, 'thorough'))] +
                [C('p04.cpp', 'order 1, layout %s, request order %d' % (l, o), defs=dict(P=1, Q=0, C=0, LAY=l, ORD=o, HOW=1), tier=t)
                 for l, o, t in ([(l, 0, 'quick') for l in ('oos', 'soo', 'osos', 'oo=s', 'o=so', 'zo=s', 'z=sso', 'os=so', 'os=sso', 'soos', 'sos=soz', 'oz=sos')] +
                                 [(l, 1, 'quick') for l in ('osos', 'soos', 'ossos', 'os=ss=soo=ss', 'z=sso')] + [('ossos', 2, 'quick'), ('sosos', 2, 'quick'), ('sosoosos', 1, 'thorough')])],
        outside='other layouts and longer series; the generator itself (draws are symbolic)'),
}

def G(src, rows, reach=(), **common):
    """configurations from rows 'K=V K=V ... [thorough]'"""
    out = []
    for r in rows.strip().split('\n'):
        r = r.strip()
        tier = 'quick'
        if r.endswith(' thorough'):
            tier, r = 'thorough', r[:-9]
        defs = dict(common)
        for kv in r.split():
            k, v = kv.split('=')
            defs[k] = int(v) if v.lstrip('-').isdigit() else v
        c = C(src, r, tier=tier, reach=defs.pop('reach', ','.join(reach)).split(',') if reach or 'reach' in defs else (), defs=defs)
        if src.endswith('.py'):
            c['py'] = c.pop('cpp')
        out.append(c)
    return out


CHECKS.update({
    'P05': dict(
        what='filters and models built from permuted/duplicated rows give the same filter output, prediction, limits and log-density as built from the sorted series (ROWS lists the rows by time letter; KIND 0/1 filters, 2..4 model classes)',
        configs=G('p05.cpp', """
            KIND=0 ROWS=cab HOW=0 C=0 reach=filter
            KIND=0 ROWS=ba HOW=1 C=0 reach=filter
            KIND=0 ROWS=acba HOW=2 C=0 reach=filter
            KIND=0 ROWS=dcab HOW=1 C=0 reach=filter
            KIND=1 ROWS=ba HOW=0 C=1 reach=filter
            KIND=1 ROWS=cab HOW=1 C=0 reach=filter
            KIND=1 ROWS=bcab HOW=2 C=1 reach=filter
            KIND=2 ROWS=cab HOW=1 C=0 reach=inside,outside,filter
            KIND=2 ROWS=bcba HOW=1 C=0 reach=inside,outside,filter
            KIND=2 ROWS=cba HOW=1 C=0 reach=inside,outside,filter
            KIND=3 ROWS=cab HOW=1 C=0 reach=inside,outside,filter
            KIND=3 ROWS=bcba HOW=1 C=1 reach=inside,outside,filter
            KIND=4 ROWS=cab HOW=1 C=1 reach=inside,outside,filter
            KIND=4 ROWS=cbab HOW=1 C=0 reach=inside,outside,filter
            KIND=2 ROWS=dbcacb HOW=1 C=0 thorough
            KIND=3 ROWS=dbac HOW=1 C=1 thorough"""),
        outside='longer series and other permutations; orders above 2 for the model classes'),
    'P06': dict(
        what='the roots returned for a symbolic parameter vector are substituted into the product of its quadratic/linear factors, compared as a multiset, and their real parts and conjugates checked (KIND 0 CAR, 1 CARMA, 2/3 z-transformed)',
        configs=G('p06.cpp', '\n'.join('KIND=%d P=%d' % (k, p) for p in range(2, 8) for k in ((0, 1, 2, 3) if p < 5 else (0, p % 3)))),
        outside='orders above 7; order 1, whose root is the parameter itself'),
    'P07': dict(
        what='moving-average coefficients from a symbolic parameter vector equal the normalised product of the factors, zero padded; binomial for the z-transformed classes; polynomial expansion of a conjugate-closed root set is monic with those zeros',
        configs=G('p07.cpp', """
            KIND=0 P=2 Q=1 C=0 REV=0 SET=0
            KIND=0 P=3 Q=2 C=0 REV=0 SET=0
            KIND=0 P=4 Q=2 C=0 REV=0 SET=0
            KIND=0 P=5 Q=3 C=0 REV=0 SET=0
            KIND=0 P=5 Q=4 C=0 REV=0 SET=0
            KIND=1 P=2 Q=0 C=0 REV=0 SET=1
            KIND=1 P=3 Q=0 C=0 REV=0 SET=0
            KIND=1 P=5 Q=0 C=0 REV=0 SET=1
            KIND=2 P=0 Q=3 C=1 REV=0 SET=0
            KIND=2 P=0 Q=4 C=1 REV=1 SET=0
            KIND=2 P=0 Q=6 C=2 REV=1 SET=0
            KIND=2 P=0 Q=2 C=0 REV=0 SET=0"""),
        outside='orders above those listed'),
    'P08': dict(
        what='variance and autocovariance from roots, MA coefficients and noise equal those of an independent state-space solution; the noise derived from a parameter vector gives stationary deviation equal to its first element, seen at the first prediction variance (KIND 0 the variance function, 1 CAR(1), 2 CAR(p), 3 CARMA, 4 free-kappa model)',
        configs=G('p08.cpp', """
            KIND=0 P=2 Q=0 C=0 PAD=0
            KIND=0 P=2 Q=1 C=1 PAD=1
            KIND=0 P=3 Q=2 C=0 PAD=1
            KIND=0 P=3 Q=1 C=1 PAD=1
            KIND=0 P=4 Q=3 C=2 PAD=1
            KIND=0 P=4 Q=3 C=1 PAD=1
            KIND=1 P=1 Q=0 C=0 N=3 MC=0
            KIND=2 P=2 Q=0 C=0 N=2 MC=0
            KIND=2 P=3 Q=0 C=1 N=2 MC=0
            KIND=2 P=4 Q=0 C=2 N=2 MC=0
            KIND=3 P=2 Q=1 C=1 N=2 MC=0
            KIND=3 P=3 Q=2 C=1 N=2 MC=1
            KIND=3 P=3 Q=1 C=0 N=2 MC=0
            KIND=4 P=2 Q=0 C=1 N=2 MC=0
            KIND=4 P=3 Q=0 C=0 N=2 MC=0
            KIND=0 P=5 Q=4 C=2 PAD=1 thorough"""),
        outside='orders above those listed; coinciding roots'),
    'P09': dict(
        what='log-density of each model class on symbolic data equals an independent Gaussian log-likelihood plus the stated prior, on every path with a finite result (KIND 1 CAR(1), 2 CAR(p), 3 CARMA, 4 free-kappa model; MLE 1 without prior limits)',
        configs=G('p09.cpp', """
            KIND=1 P=1 Q=0 C=0 MC=0 N=3 MLE=0 SV=0
            KIND=1 P=1 Q=0 C=0 MC=0 N=3 MLE=1 SV=1
            KIND=1 P=1 Q=0 C=0 MC=0 N=4 MLE=0 SV=1
            KIND=2 P=2 Q=0 C=0 MC=0 N=3 MLE=0 SV=0
            KIND=2 P=2 Q=0 C=1 MC=0 N=3 MLE=0 SV=1
            KIND=2 P=2 Q=0 C=1 MC=0 N=3 MLE=1 SV=0
            KIND=2 P=3 Q=0 C=1 MC=0 N=2 MLE=1 SV=0
            KIND=3 P=2 Q=1 C=1 MC=0 N=3 MLE=0 SV=0
            KIND=3 P=2 Q=1 C=0 MC=0 N=2 MLE=1 SV=1
            KIND=3 P=3 Q=2 C=1 MC=1 N=2 MLE=1 SV=0
            KIND=4 P=2 Q=0 C=0 MC=0 N=2 MLE=1 SV=1
            KIND=4 P=2 Q=0 C=1 MC=0 N=2 MLE=1 SV=0
            KIND=4 P=3 Q=0 C=1 MC=0 N=2 MLE=1 SV=0 thorough
            KIND=2 P=3 Q=0 C=1 MC=0 N=3 MLE=0 SV=0 thorough"""),
        outside='longer series, higher orders; for the free-kappa model, series of 3 or more'),
    'P10': dict(
        what='log-density at a symbolic vector after a history of operations (d/g density elsewhere, x density here, o density outside the limits, s saved, u/v given/drawn start, p/q prediction inside/before the data, i conditional simulation, c copy) equals that of a fresh object, as does that of a copy (KIND 1..5 the model classes; draws past LIM are cut)',
        configs=G('p10.cpp', """
            KIND=1 P=1 Q=0 C=0 N=3 ONE=1 H=d LIM=9
            KIND=1 P=1 Q=0 C=0 N=3 ONE=1 H=o LIM=9
            KIND=1 P=1 Q=0 C=0 N=2 ONE=1 H=s LIM=9
            KIND=1 P=1 Q=0 C=0 N=3 ONE=1 H=dp LIM=9
            KIND=1 P=1 Q=0 C=0 N=3 ONE=1 H=di LIM=9
            KIND=1 P=1 Q=0 C=0 N=3 ONE=1 H=u LIM=1
            KIND=1 P=1 Q=0 C=0 N=3 ONE=1 H=v LIM=4
            KIND=2 P=2 Q=0 C=0 N=2 ONE=0 H=dsgo LIM=60
            KIND=2 P=3 Q=0 C=1 N=2 ONE=0 H=vxpuc LIM=60
            KIND=3 P=2 Q=1 C=1 N=2 ONE=0 H=uvdc LIM=60
            KIND=3 P=2 Q=1 C=0 N=2 ONE=0 H=dp LIM=60
            KIND=4 P=2 Q=0 C=1 N=2 ONE=0 H=uvc LIM=60
            KIND=4 P=2 Q=0 C=0 N=2 ONE=0 H=dq LIM=60
            KIND=5 P=2 Q=0 C=0 N=2 ONE=0 H=uvc LIM=60
            KIND=5 P=2 Q=0 C=1 N=2 ONE=0 H=dq LIM=60
            KIND=1 P=1 Q=0 C=0 N=2 ONE=1 H=u LIM=4 thorough
            KIND=3 P=2 Q=1 C=0 N=2 ONE=0 H=di LIM=60 thorough
            KIND=2 P=2 Q=0 C=0 N=3 ONE=1 H=do LIM=60 thorough"""),
        outside='longer histories; histories with prior limits active for orders above 1 (thorough only)'),
    'P11': dict(
        what='log-density finite exactly when an independently stated support condition holds, both directions, on symbolic parameters and limits (KIND 1..5 the model classes; FIX 1 fixes the sampling times, FIX 2 also puts deviation and scale inside their limits)',
        configs=G('p11.cpp', """
            KIND=1 P=1 Q=0 C=0 N=3 SET=0 MLE=0 FIX=0
            KIND=1 P=1 Q=0 C=0 N=4 SET=1 MLE=0 FIX=0
            KIND=2 P=2 Q=0 C=0 N=3 SET=0 MLE=0 FIX=0
            KIND=2 P=2 Q=0 C=1 N=3 SET=1 MLE=0 FIX=1
            KIND=2 P=3 Q=0 C=0 N=3 SET=1 MLE=0 FIX=2
            KIND=3 P=2 Q=1 C=1 N=3 SET=1 MLE=0 FIX=1
            KIND=3 P=2 Q=1 C=0 N=3 SET=0 MLE=0 FIX=1
            KIND=4 P=2 Q=0 C=1 N=3 SET=1 MLE=0 FIX=1
            KIND=5 P=2 Q=0 C=0 N=3 SET=1 MLE=0 FIX=1
            KIND=2 P=2 Q=0 C=1 N=3 SET=0 MLE=1 FIX=0
            KIND=3 P=3 Q=2 C=1 N=3 SET=0 MLE=1 FIX=0
            KIND=4 P=2 Q=0 C=0 N=3 SET=1 MLE=1 FIX=0
            KIND=5 P=2 Q=0 C=1 N=3 SET=0 MLE=1 FIX=0
            KIND=2 P=3 Q=0 C=1 N=3 SET=1 MLE=0 FIX=2 thorough
            KIND=3 P=3 Q=1 C=0 N=3 SET=1 MLE=0 FIX=2 thorough"""),
        outside='orders above 3; for order 3 the sampling times, deviation and error scale are fixed'),
})

CHECKS.update({
    'P12': dict(
        what='after each real Metropolis step, value and density against the Metropolis-Hastings decision for the uniform draw made, on symbolic proposals, densities, temperature (KIND 0 generic step with asymmetric proposal, 1 adaptive step, 2 library proposals; BAD 1/2/3 density -inf/NaN/+inf past a symbolic threshold)',
        configs=G('p12.cpp', """
            KIND=0 D=2 K=1 BAD=0 REP=-1 reach=accept,reject
            KIND=0 D=1 K=2 BAD=1 REP=1
            KIND=0 D=1 K=2 BAD=2 REP=-1
            KIND=0 D=1 K=1 BAD=3 REP=-1
            KIND=1 D=2 K=1 BAD=0 ADAPT=0 reach=accept,reject
            KIND=1 D=2 K=1 BAD=1 ADAPT=5
            KIND=1 D=1 K=2 BAD=2 ADAPT=5
            KIND=1 D=2 K=1 BAD=3 ADAPT=5
            KIND=1 D=3 K=1 BAD=1 ADAPT=1
            KIND=2 D=1 K=2 BAD=1 PROP=0 REP=-1
            KIND=2 D=1 K=2 BAD=0 PROP=1 REP=1 reach=accept,reject
            KIND=2 D=1 K=2 BAD=1 PROP=2 REP=-1
            KIND=0 D=1 K=3 BAD=1 REP=1
            KIND=2 D=1 K=3 BAD=1 PROP=2 REP=-1 thorough""", reach=('accept', 'reject', 'infinite')),
        outside='more steps than stated; densities other than quadratics with a not-finite half space; adaptive steps after the first in dimension above 1'),
    'P13': dict(
        what='stored and sampled log-densities of two tempered chains against the log-density of their values after every step of a sequence (m/M Metropolis cold/hot, a/A adaptive, x exchange, s/S new start; KIND 0 symbolic quadratic density, 1 CAR(1), 2 CAR(p), 3 CARMA, 5 z-transformed model)',
        configs=G('p13.cpp', """
            KIND=0 D=1 BAD=0 ADAPT=0 SEQ=mxMs
            KIND=0 D=2 BAD=1 ADAPT=0 SEQ=mxa
            KIND=0 D=1 BAD=1 ADAPT=0 SEQ=xMxm
            KIND=0 D=1 BAD=2 ADAPT=1 SEQ=aAx
            KIND=1 D=4 BAD=0 ADAPT=0 SEQ=mx
            KIND=2 D=5 BAD=0 ADAPT=0 SEQ=mx
            KIND=3 D=6 BAD=0 ADAPT=0 SEQ=xm
            KIND=5 D=5 BAD=0 ADAPT=0 SEQ=sxS
            KIND=0 D=1 BAD=2 ADAPT=1 SEQ=aAxS thorough
            KIND=0 D=1 BAD=1 ADAPT=0 SEQ=mxMxsm thorough
            KIND=2 D=5 BAD=0 ADAPT=0 SEQ=mxM thorough
            KIND=3 D=6 BAD=0 ADAPT=0 SEQ=xmx thorough""", reach=('end',)),
        outside='longer sequences, more than two chains; for the real models sampling times, error bars and shape parameters are fixed and only deviation, mean, data and proposals are symbolic'),
    'P14': dict(
        what='values, densities, temperatures and tracking of every chain after real exchange steps against the exchange rule for the uniform draw made (W chains, step at chain I, K exchanges, D dimensions)',
        configs=G('p14.cpp', """
            W=2 I=1 K=1 D=2 REP=-1
            W=2 I=1 K=3 D=1 REP=1
            W=3 I=1 K=2 D=1 REP=1
            W=3 I=2 K=2 D=1 REP=-1
            W=4 I=2 K=2 D=2 REP=-1
            W=4 I=3 K=4 D=1 REP=-1 thorough""", reach=('swap', 'stay')),
        outside='more chains, more exchanges; not-finite densities (a stored density is always finite, P13)'),
    'P15': dict(
        what='covariance of the adaptive proposals before and after each real step against the robust adaptive Metropolis update, frozen after the adaptation period; spread of actual proposals against the covariance (SPREAD 1 before, 2 after); positive definite after a step (D dimension, K steps, M adaptation length, G decay in hundredths, FIX steps with fixed unit draws)',
        configs=G('p15.cpp', """
            D=1 K=2 M=2 BAD=0 G=0 SPREAD=1 FIX=0 reach=adapting
            D=1 K=3 M=2 BAD=0 G=60 SPREAD=0 FIX=0 reach=adapting,frozen
            D=2 K=1 M=5 BAD=0 G=0 SPREAD=1 FIX=0 reach=adapting
            D=2 K=1 M=5 BAD=1 G=0 SPREAD=2 FIX=0 reach=adapting
            D=2 K=1 M=0 BAD=2 G=0 SPREAD=0 FIX=0 reach=frozen
            D=3 K=1 M=5 BAD=0 G=0 SPREAD=2 FIX=1 reach=adapting
            D=3 K=1 M=1 BAD=0 G=0 SPREAD=0 FIX=0 reach=adapting
            D=2 K=2 M=5 BAD=0 G=0 SPREAD=0 FIX=1 reach=adapting thorough"""),
        outside='more than three steps, dimension above 3; rounding of the rank-one update'),
    'P16': dict(
        what='the real sampler driver run with recording steps; sample size, burn-in, thinning, number of steps, tracked step and given/drawn start are solver choices up to the bounds; event order, counts and kept values checked',
        configs=G('p16.cpp', """
            MODE=0 SMAX=2 BMAX=2 TMAX=2 WMAX=2
            MODE=1 SMAX=3 BMAX=1 TMAX=3 WMAX=1
            MODE=0 SMAX=4 BMAX=3 TMAX=3 WMAX=3
            MODE=0 SMAX=6 BMAX=4 TMAX=4 WMAX=4 thorough""", reach=('given', 'drawn')),
        outside='larger counts than the stated maxima'),
})

CHECKS.update({
    'P17': dict(
        what='the real top-level samplers run for short chains with symbolic data-independent draws; the ladder, the returned chain, its data and limits, the kept values and the pairs exchanged are read off the real objects and the recorded draws',
        configs=G('p17.cpp', """
            W=1 P=2 Q=0 Z=0 S=0 Y=1 TH=1
            W=2 P=2 Q=1 Z=0 S=0 Y=1 TH=1
            W=3 P=2 Q=0 Z=1 S=0 Y=1 TH=1
            W=4 P=3 Q=2 Z=0 S=0 Y=1 TH=1
            W=10 P=3 Q=1 Z=0 S=0 Y=1 TH=1
            W=2 P=2 Q=0 Z=0 S=1 Y=0 TH=1
            W=3 P=2 Q=1 Z=0 S=1 Y=0 TH=1
            W=2 P=3 Q=0 Z=1 S=2 Y=0 TH=1
            W=2 P=2 Q=0 Z=0 S=1 Y=0 TH=2
            W=1 P=3 Q=2 Z=0 S=2 Y=0 TH=1
            W=3 P=2 Q=0 Z=1 S=1 Y=0 TH=1
            W=3 P=2 Q=0 Z=0 S=2 Y=0 TH=1 thorough""", reach=('end',)),
        outside='more sweeps than stated; other data sets (the ladder, tracking and exchange order do not read the data); proposals that move more than the mean'),
    'P18': dict(
        what='starting values of every model class: drawn starts have finite log-density for every draw followed; given starts are kept exactly when their length and log-density allow',
        configs=G('p18.cpp', """
            MODE=0 KIND=1 P=1 Q=0 C=0 N=3 FIX=0 LIM=4 reach=drawn
            MODE=0 KIND=1 P=1 Q=0 C=0 N=3 FIX=1 LIM=8 reach=drawn
            MODE=0 KIND=2 P=2 Q=0 C=0 N=3 FIX=1 LIM=7 reach=drawn
            MODE=0 KIND=3 P=2 Q=1 C=0 N=3 FIX=1 LIM=8 reach=drawn
            MODE=0 KIND=4 P=2 Q=0 C=0 N=3 FIX=1 LIM=8 reach=drawn
            MODE=0 KIND=5 P=2 Q=0 C=0 N=3 FIX=1 LIM=7 reach=drawn
            MODE=1 KIND=1 P=1 Q=0 C=0 N=3 FIX=0 LIM=4 reach=kept
            MODE=1 KIND=2 P=2 Q=0 C=1 N=3 FIX=1 LIM=7 reach=kept
            MODE=1 KIND=3 P=2 Q=1 C=0 N=3 FIX=1 LIM=8 reach=kept
            MODE=1 KIND=4 P=2 Q=0 C=0 N=3 FIX=1 LIM=8 reach=kept
            MODE=1 KIND=5 P=2 Q=0 C=1 N=3 FIX=1 LIM=7 reach=kept
            MODE=1 KIND=3 P=3 Q=1 C=1 N=3 FIX=2 LIM=7 reach=kept thorough
            MODE=4 KIND=1 P=1 Q=0 C=0 N=3 FIX=1 LIM=4 reach=outside,drawn
            MODE=4 KIND=2 P=2 Q=0 C=0 N=3 FIX=1 LIM=7 reach=outside,drawn
            MODE=4 KIND=3 P=2 Q=1 C=0 N=3 FIX=1 LIM=8 reach=outside,drawn
            MODE=4 KIND=4 P=2 Q=0 C=0 N=3 FIX=1 LIM=8 reach=outside,drawn
            MODE=4 KIND=5 P=2 Q=0 C=0 N=3 FIX=1 LIM=7 reach=outside,drawn
            MODE=2 LEN=1 KIND=1 P=1 Q=0 C=0 N=3 FIX=0 LIM=4 reach=drawn
            MODE=2 LEN=-1 KIND=3 P=2 Q=1 C=0 N=3 FIX=1 LIM=8 reach=drawn
            MODE=2 LEN=1 KIND=4 P=2 Q=0 C=0 N=3 FIX=2 LIM=8 reach=drawn
            MODE=2 LEN=1 KIND=5 P=2 Q=0 C=0 N=3 FIX=2 LIM=7 reach=drawn
            MODE=3 W=3 P=2 reach=kept,drawn"""),
        outside='drawn starts of order above 2; retries past the stated number of draws'),
    'P19': dict(
        what='every variate of the generator, drawn repeatedly with different symbolic parameters, equals the transform of its recorded base draw that has the stated distribution; covariance and linearity of multivariate normal draws',
        configs=G('p19.cpp', """
            WHAT=nleutcsgh K=2 D=1 reach=normal,lognormal,exponential,uniform,student,chisquare,scaledinverse,gamma,inversegamma
            WHAT=pqr K=2 D=1 reach=powerlaw
            WHAT=i K=2 D=1 reach=integer
            WHAT=nm K=2 D=2 reach=normal,covariance
            WHAT=mnmu K=1 D=3 reach=covariance,uniform
            WHAT=hsgcteulnpnq K=3 D=1 reach=normal
            WHAT=mi K=1 D=4 reach=covariance thorough"""),
        outside='covariances larger than stated; the base draws themselves (boost); the unimplemented variates; a variate made from base draws of a kind not recognised is not judged'),
    'P20': dict(
        what='draws and log-densities of every proposal: scale, symmetry and Hastings correction; stretch move in real ensembles: partner, line, range of the stretch and correction',
        configs=G('p20.cpp', """
            KIND=0 D=2 reach=normal,student,lognormal,multinormal
            KIND=0 D=3 reach=multinormal
            KIND=1 W=2 D=2 I=0 SET=0 K=1 reach=stretch
            KIND=1 W=3 D=1 I=1 SET=1 K=1 reach=stretch
            KIND=1 W=3 D=2 I=0 SET=0 K=1 reach=stretch
            KIND=1 W=4 D=1 I=3 SET=2 K=1 reach=stretch
            KIND=1 W=2 D=1 I=1 SET=0 K=2 reach=stretch
            KIND=1 W=3 D=3 I=2 SET=2 K=1 reach=stretch thorough"""),
        outside='larger ensembles and dimensions; more than two redraws of the partner; proposals closer than 1e-9 to the old value'),
    'P21': dict(
        what='z-transformed models: prediction means and variances, normalisation and log-density are those of the binomial moving-average polynomial, from the log-density and after given and drawn starts',
        configs=G('p21.cpp', """
            KIND=5 MODE=0 P=2 C=1 N=2 KB=0 DEN=1 reach=inside
            KIND=5 MODE=0 P=2 C=0 N=3 KB=0 DEN=0 reach=inside
            KIND=5 MODE=0 P=2 C=1 N=3 KB=0 DEN=0 reach=inside
            KIND=5 MODE=0 P=3 C=1 N=2 KB=0 DEN=1 reach=inside
            KIND=5 MODE=0 P=3 C=0 N=2 KB=0 DEN=1 reach=inside
            KIND=4 MODE=0 P=2 C=1 N=2 KB=1 DEN=1 reach=inside
            KIND=4 MODE=0 P=2 C=0 N=2 KB=0 DEN=1 reach=inside
            KIND=4 MODE=0 P=3 C=1 N=2 KB=0 DEN=1 reach=inside
            KIND=4 MODE=0 P=3 C=1 N=2 KB=1 DEN=0 reach=inside
            KIND=4 MODE=1 P=2 C=0 N=3 KB=0 DEN=0 reach=inside
            KIND=5 MODE=1 P=2 C=1 N=3 KB=0 DEN=0 reach=inside
            KIND=5 MODE=1 P=2 C=0 N=3 KB=0 DEN=0 reach=inside
            KIND=4 MODE=2 P=2 C=0 N=3 KB=0 LIM=8 reach=drawn
            KIND=5 MODE=2 P=2 C=0 N=3 KB=0 LIM=7 reach=drawn
            KIND=4 MODE=1 P=2 C=1 N=3 KB=1 DEN=0 reach=inside
            KIND=4 MODE=0 P=2 C=1 N=3 KB=0 DEN=0 reach=inside thorough
            KIND=5 MODE=0 P=4 C=1 N=2 KB=0 DEN=0 reach=inside thorough
            KIND=4 MODE=0 P=3 C=1 N=2 KB=1 DEN=1 reach=inside thorough"""),
        outside='orders and series longer than stated; coinciding roots'),
})

PY = [
    'numpy arrays of doubles are modelled as arrays of exact reals with numpy\'s shape, type and storage rules; array routines used by the package are replaced by exact stand-ins in the symbolic run and are the real ones in the native replay',
    'the compiled library is replaced by a recording stand-in that checks argument types as the bindings do; what it returns is symbolic',
    'plotting calls are ignored; worker pools run their tasks one after another',
]

CHECKS.update({
    'P22': dict(
        what='Python autocovariance, power spectrum and root construction on symbolic roots, coefficients, lags and frequencies against the residue sum, |beta|^2/|alpha|^2 and the Lorentzian definition (K kinds of root sets: 1 r, 2 c, 3 rr, 4 cr, 5 rrr, 6 cc)',
        configs=G('p22.py', """
            MODE=0 K=1 Q=0
            MODE=0 K=2 Q=0
            MODE=0 K=2 Q=1
            MODE=0 K=3 Q=1
            MODE=0 K=4 Q=1
            MODE=0 K=4 Q=2
            MODE=0 K=5 Q=2
            MODE=0 K=6 Q=1
            MODE=1 P=1 Q=0
            MODE=1 P=2 Q=1
            MODE=1 P=3 Q=2
            MODE=1 P=4 Q=1
            MODE=1 P=5 Q=3
            MODE=2 N=1 ODD=1 Q=0
            MODE=2 N=2 ODD=0 Q=0
            MODE=2 N=3 ODD=1 Q=0
            MODE=0 K=6 Q=3 thorough
            MODE=1 P=7 Q=6 thorough"""),
        assume=PY, outside='orders above the stated ones; coinciding roots'),
    'P23': dict(
        what='a sample object built by the real constructor from symbolic draws: every stored quantity of every draw, and of an added estimate, against the factor products, the residue sum for the variance and the likelihood part of the density (ARNUM autoregressive part given, moving-average part symbolic)',
        configs=G('p23.py', """
            P=4 Q=1 N=1 MLE=0 reach=sample
            P=3 Q=2 N=1 MLE=1 reach=sample,estimate
            P=4 Q=0 N=1 MLE=1 reach=sample,estimate
            P=1 Q=0 N=1 MLE=1 reach=sample,estimate
            P=1 Q=0 N=3 MLE=0 reach=sample
            P=2 Q=0 N=1 MLE=1 reach=sample,estimate
            P=2 Q=1 N=2 MLE=0 reach=sample
            P=2 Q=1 N=1 MLE=1 reach=sample,estimate
            P=3 Q=0 N=1 MLE=1 reach=sample,estimate
            P=3 Q=1 N=1 MLE=0 reach=sample
            P=4 Q=2 N=1 MLE=1 ARNUM=1 reach=sample,estimate
            P=4 Q=3 N=1 MLE=1 ARNUM=1 reach=sample,estimate
            P=5 Q=2 N=2 MLE=0 ARNUM=1 reach=sample
            P=4 Q=1 N=1 MLE=1 reach=sample,estimate thorough
            P=4 Q=2 N=1 MLE=0 reach=sample thorough
            P=2 Q=1 N=3 MLE=0 reach=sample thorough"""),
        assume=PY + ['the draws have distinct autoregressive roots and lie inside the prior limits, as stored draws do'], outside='orders above the stated ones; coinciding autoregressive roots; samples read from a file'),
    'P24': dict(
        what='model construction on symbolic rows (every order and tie pattern is a path): times, values, errors, the vectors handed to the sampler, the inputs',
        configs=G('p24.py', """
            N=1 reach=distinct
            N=2 reach=distinct,tie
            N=3 reach=distinct,tie
            N=4 reach=distinct,tie
            N=5 reach=distinct,tie thorough"""),
        assume=PY, outside='more rows than stated'),
    'P25': dict(
        what='likelihood search and order selection with symbolic results of the optimiser trials (START symbolic first draws; MODE 0 search, 1 order selection; QMAX -1 not given; LIST length of a given list of orders; T trials)',
        configs=G('p25.py', """
            START=1 N=3 MODE=0 P=1 Q=0 T=1 JOBS=0 reach=searched
            START=1 N=3 MODE=0 P=2 Q=0 T=1 JOBS=0 reach=searched
            START=1 N=3 MODE=0 P=3 Q=1 T=1 JOBS=0 reach=searched
            START=0 N=4 MODE=0 P=1 Q=0 T=3 JOBS=1 reach=searched
            START=0 N=4 MODE=0 P=2 Q=1 T=2 JOBS=1 reach=searched
            START=0 N=4 MODE=0 P=3 Q=1 T=4 JOBS=0 reach=searched
            START=0 N=4 MODE=0 P=4 Q=3 T=1 JOBS=1 reach=searched
            START=0 N=10 MODE=1 PMAX=1 QMAX=-1 LIST=0 T=1 JOBS=0 reach=chosen
            START=0 N=10 MODE=1 PMAX=2 QMAX=-1 LIST=0 T=1 JOBS=1 reach=chosen
            START=0 N=10 MODE=1 PMAX=3 QMAX=-1 LIST=0 T=1 JOBS=0 reach=chosen
            START=0 N=10 MODE=1 PMAX=3 QMAX=1 LIST=0 T=1 JOBS=0 reach=chosen
            START=0 N=10 MODE=1 PMAX=3 QMAX=0 LIST=0 T=1 JOBS=0 reach=chosen
            START=0 N=10 MODE=1 PMAX=2 QMAX=-1 LIST=0 T=2 JOBS=0 reach=chosen
            START=0 N=10 MODE=1 PMAX=1 QMAX=-1 LIST=3 T=1 JOBS=0 reach=chosen
            START=0 N=10 MODE=1 PMAX=1 QMAX=-1 LIST=2 T=2 JOBS=0 reach=chosen
            START=0 N=12 MODE=1 PMAX=4 QMAX=1 LIST=0 T=1 JOBS=0 reach=chosen thorough"""),
        assume=PY + ['the optimiser is replaced by a stand-in that checks its arguments and returns a symbolic objective value between -1e100 and 1e100',
                     'observation times and values are fixed numbers (they enter through the search limits only)'],
        outside='whether the optimiser converges; more trials and orders than stated'),
    'P26': dict(
        what='prediction and simulation from a sample object: parameters, data and mean handed to the recorded filter, and what is returned, for symbolic draws, data and times (FIT 0 MAP, 1 median, 2 mean, 3 random; WHAT 0/1 predict array/scalar, 2/3 simulate; REAL 1 real root pair, 0 complex, -1 not constrained)',
        configs=G('p26.py', """
            P=2 Q=1 N=2 M=2 FIT=1 WHAT=0 UP=0 REAL=0
            P=1 Q=0 N=3 M=1 FIT=1 WHAT=3 UP=1 REAL=0
            P=2 Q=1 N=2 M=2 FIT=1 WHAT=2 UP=0 REAL=0
            P=1 Q=0 N=2 M=2 FIT=0 WHAT=0 UP=0 REAL=-1
            P=1 Q=0 N=2 M=2 FIT=1 WHAT=0 UP=0 REAL=-1
            P=1 Q=0 N=2 M=2 FIT=2 WHAT=0 UP=0 REAL=-1
            P=1 Q=0 N=2 M=2 FIT=3 WHAT=0 UP=0 REAL=-1
            P=1 Q=0 N=3 M=1 FIT=0 WHAT=3 UP=1 REAL=-1
            P=1 Q=0 N=2 M=3 FIT=2 WHAT=2 UP=0 REAL=-1
            P=1 Q=0 N=3 M=2 FIT=3 WHAT=2 UP=0 REAL=-1
            P=2 Q=1 N=2 M=2 FIT=0 WHAT=0 UP=0 REAL=-1
            P=2 Q=1 N=2 M=2 FIT=2 WHAT=0 UP=0 REAL=0
            P=2 Q=1 N=2 M=2 FIT=3 WHAT=0 UP=0 REAL=0
            P=2 Q=0 N=3 M=1 FIT=0 WHAT=1 UP=1 REAL=1
            P=2 Q=0 N=3 M=1 FIT=2 WHAT=1 UP=1 REAL=1
            P=2 Q=0 N=3 M=1 FIT=3 WHAT=1 UP=1 REAL=1
            P=2 Q=1 N=2 M=3 FIT=0 WHAT=2 UP=0 REAL=0
            P=2 Q=1 N=2 M=2 FIT=2 WHAT=2 UP=0 REAL=0
            P=2 Q=1 N=2 M=1 FIT=3 WHAT=3 UP=0 REAL=0
            P=3 Q=2 N=2 M=1 FIT=0 WHAT=0 UP=0 REAL=0 thorough
            P=1 Q=0 N=4 M=4 FIT=0 WHAT=0 UP=0 REAL=-1 thorough""", reach=('done',)),
        assume=PY, outside='more draws, times and orders than stated; what the compiled filter computes (P03, P04); draws tied for the highest density'),
    'P27': dict(
        what='generated series on symbolic times, roots and coefficients: linear in the recorded normal draws with the model covariance (K=0 first-order generator, others the root sets of P22; MODE 0 increasing times, 1 integer times, 2 two times in any order)',
        configs=G('p27.py', """
            K=6 Q=1 N=2 MODE=0
            K=4 Q=1 N=3 MODE=0
            K=5 Q=1 N=2 MODE=0
            K=0 Q=0 N=2 MODE=0
            K=0 Q=0 N=3 MODE=0
            K=0 Q=0 N=4 MODE=0
            K=0 Q=0 N=2 MODE=2
            K=1 Q=0 N=2 MODE=2
            K=0 Q=0 N=3 MODE=1
            K=1 Q=0 N=3 MODE=0
            K=2 Q=0 N=2 MODE=2
            K=2 Q=0 N=4 MODE=0
            K=2 Q=1 N=3 MODE=0
            K=2 Q=1 N=3 MODE=1
            K=3 Q=0 N=3 MODE=0
            K=3 Q=1 N=3 MODE=0
            K=4 Q=2 N=2 MODE=0
            K=0 Q=0 N=6 MODE=0
            K=1 Q=0 N=5 MODE=0
            K=2 Q=1 N=4 MODE=0
            K=2 Q=0 N=5 MODE=0 thorough
            K=3 Q=1 N=4 MODE=0 thorough"""),
        assume=PY, outside='longer series and higher orders than stated; coinciding roots'),
    'P28': dict(
        what='pure-Python filter on symbolic data, roots and coefficients: one-step means and variances, prediction between, at and after observations, simulation affine in normal draws with the exact conditional mean and covariance (MODE 0 filter, 1 predict, 2 simulate; AT index of the observation before the requested times; NUM roots, coefficients and noise levels given)',
        configs=G('p28.py', """
            MODE=2 K=3 Q=1 N=2 M=2 AT=0 SC=0 INT=0
            MODE=2 K=2 Q=1 N=2 M=2 AT=1 SC=0 INT=0
            MODE=2 K=3 Q=1 N=2 M=2 AT=1 SC=0 INT=0
            MODE=2 K=2 Q=1 N=2 M=1 AT=1 SC=1 INT=0
            MODE=2 K=2 Q=1 N=2 M=1 AT=0 SC=1 INT=0
            MODE=2 K=1 Q=0 N=2 M=2 AT=0 SC=0 INT=0
            MODE=2 K=1 Q=0 N=2 M=2 AT=1 SC=0 INT=0
            MODE=2 K=1 Q=0 N=3 M=1 AT=1 SC=1 INT=0
            MODE=0 K=1 Q=0 N=4 INT=0
            MODE=0 K=1 Q=0 N=2 INT=1
            MODE=0 K=2 Q=0 N=2 INT=0
            MODE=0 K=2 Q=1 N=3 INT=0
            MODE=0 K=2 Q=1 N=2 INT=1
            MODE=0 K=3 Q=1 N=3 INT=0
            MODE=0 K=4 Q=2 N=2 INT=0
            MODE=0 K=5 Q=1 N=2 INT=0
            MODE=1 K=1 Q=0 N=3 M=1 AT=1 SAME=0 INT=0
            MODE=1 K=1 Q=0 N=2 M=1 AT=0 SAME=1 INT=0
            MODE=1 K=2 Q=1 N=2 M=1 AT=0 SAME=0 INT=0
            MODE=1 K=2 Q=1 N=2 M=1 AT=1 SAME=0 INT=0
            MODE=1 K=2 Q=1 N=2 M=1 AT=0 SAME=1 INT=0
            MODE=1 K=3 Q=1 N=2 M=1 AT=0 SAME=0 INT=0
            MODE=1 K=4 Q=1 N=2 M=1 AT=1 SAME=0 INT=0
            MODE=1 K=1 Q=0 N=4 M=1 AT=0 SAME=0 INT=0
            MODE=1 K=1 Q=0 N=5 M=1 AT=1 SAME=0 INT=0
            MODE=1 K=1 Q=0 N=4 M=1 AT=1 SAME=1 INT=0
            MODE=1 K=2 Q=1 N=3 M=1 AT=0 SAME=0 INT=0
            MODE=1 K=2 Q=1 N=3 M=1 AT=1 SAME=0 INT=0
            MODE=1 K=3 Q=1 N=3 M=1 AT=0 SAME=0 INT=0
            MODE=1 K=3 Q=1 N=3 M=1 AT=0 SAME=1 INT=0
            MODE=2 K=1 Q=0 N=3 M=2 AT=0 SC=0 INT=0
            MODE=2 K=1 Q=0 N=2 M=3 AT=0 SC=0 INT=0
            MODE=2 K=2 Q=0 N=2 M=2 AT=0 SC=0 INT=0
            MODE=2 K=2 Q=1 N=3 M=2 AT=0 SC=0 INT=0 NUM=1
            MODE=0 K=1 Q=0 N=6 INT=0
            MODE=0 K=4 Q=1 N=3 INT=0
            MODE=0 K=7 Q=2 N=2 INT=0
            MODE=0 K=6 Q=1 N=2 INT=0 thorough
            MODE=0 K=2 Q=1 N=4 INT=0 thorough
            MODE=0 K=3 Q=1 N=5 INT=0 thorough
            MODE=0 K=5 Q=0 N=4 INT=0 thorough""", reach=('done',)),
        assume=PY, outside='longer series and higher orders; requested times before the first observation (not supported by this class) or not increasing'),
    'P29': dict(
        what='deviance information criterion from symbolic log-likelihoods, and overwriting every array handed out',
        configs=G('p29.py', """
            P=1 Q=0 N=1
            P=1 Q=0 N=3
            P=2 Q=1 N=2
            P=3 Q=0 N=4
            P=2 Q=0 N=8""", reach=('done',)),
        assume=PY, outside='more draws than stated'),
    'P32': dict(
        what='band returned by the spectrum plot: frequency limits, and lower, upper and median values against the ordered spectra of the draws used (USE number of draws asked for; SHARED draws that differ in the deviation only)',
        configs=G('p32.py', """
            P=4 Q=3 N=1 USE=0 SHARED=0 SYMT=0 PCT=0
            P=1 Q=0 N=1 USE=0 SHARED=0 SYMT=1 PCT=0
            P=2 Q=1 N=1 USE=0 SHARED=0 SYMT=1 PCT=0
            P=2 Q=0 N=1 USE=0 SHARED=0 SYMT=0 PCT=1
            P=3 Q=2 N=1 USE=0 SHARED=0 SYMT=0 PCT=0
            P=1 Q=0 N=2 USE=0 SHARED=0 SYMT=0 PCT=0
            P=1 Q=0 N=3 USE=0 SHARED=1 SYMT=0 PCT=1
            P=1 Q=0 N=3 USE=2 SHARED=0 SYMT=0 PCT=0
            P=1 Q=0 N=5 USE=2 SHARED=0 SYMT=0 PCT=0
            P=2 Q=1 N=2 USE=0 SHARED=1 SYMT=0 PCT=0
            P=2 Q=1 N=3 USE=2 SHARED=1 SYMT=0 PCT=0
            P=2 Q=1 N=4 USE=3 SHARED=1 SYMT=0 PCT=1
            P=1 Q=0 N=3 USE=0 SHARED=0 SYMT=0 PCT=1 thorough""", reach=('done',), GRID=3, LOG=0),
        assume=PY + ['the thousand-point frequency grid is reduced to three points in the symbolic run (integer constant 1000 replaced); the native replay uses the full grid'],
        outside='more draws than stated; the drawing itself'),
    'P33': dict(
        what='arguments the compiled sampler is called with, for every combination of given and omitted options, and the sample object built from symbolic returned draws',
        configs=G('p33.py', """
            P=1
            P=2
            P=3
            P=5 FEW=1
            P=7 FEW=1
            P=4 thorough
            P=12 FEW=1 thorough""", reach=('done',)),
        assume=PY, outside='numbers of draws, burn-in sweeps, thinning and temperatures other than the three values tried for each (they are passed through as integers)'),
})

_LATER = 'no solver-based check has been built for this property in this version'
NOT_APPLICABLE = {
    'P30': 'generator state is a 624-word integer array passed through file streams; the engine encodes double arithmetic only and replaces the generator by symbolic draws, so the state round trip is not in any encoding',
    'P31': 'the encoding abstracts doubles by exact reals; bounding accumulated rounding error through exponentials and a recursion is out of reach of the installed solvers for any useful size',
}
for _i in range(1, 34):
    _p = 'P%02d' % _i
    if _p not in CHECKS:
        NOT_APPLICABLE.setdefault(_p, _LATER)
NOTES = ('Encodings are regenerated from /repo on every run (content-hashed build cache under /verif/build). '
         'Exit 0 means held within the stated bounds; unresolved obligations, if any, are listed in the evidence.')
