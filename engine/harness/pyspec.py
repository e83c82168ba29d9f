"""Specifications shared by the Python harnesses (written from the definitions, not from the package)."""


def roots(vp, kind, names='r'):
    """AR roots with negative real parts, closed under conjugation; kind: string of c (conjugate pair) and r (real)"""
    rs = []
    reals = []
    num = vp.par('NUM', 0)
    for i, k in enumerate(kind):
        a = vp.const(i + 1.0) if num else vp.pos('%sa%d' % (names, i))
        if k == 'c':
            b = vp.const(1.0) if num else vp.pos('%sb%d' % (names, i))
            rs += [vp.cx(-a, b), vp.cx(-a, -b)]
        else:
            for o in reals:
                if not num:
                    vp.ne(a, o)
            reals.append(a)
            rs.append(vp.cx(-a, 0.0))
    return rs


KINDS = {1: 'r', 2: 'c', 3: 'rr', 4: 'cr', 5: 'rrr', 6: 'cc', 7: 'rc'}


def kind(vp):
    return KINDS[vp.par('K')]


def peval(cs, z):
    """sum of cs[k] z^k"""
    s = 0.0
    w = None
    for c in cs:
        s = s + c * (w if w is not None else 1.0)
        w = z if w is None else w * z
    return s


def acov(vp, sigsqr, rs, ma, lag):
    """autocovariance at a lag >= 0: residues of |beta|^2/|alpha|^2, alpha(s) = prod (s - r)"""
    tot = 0.0
    for k, r in enumerate(rs):
        d = 1.0
        for l, o in enumerate(rs):
            if l != k:
                d = d * (r - o)
            d = d * (-r - o)
        tot = tot + peval(ma, r) * peval(ma, -r) * vp.exp(r * lag) / d
    return sigsqr * re(tot)


def re(x):
    return x.real


def psd(vp, f, sigma, ar, ma):
    """sigma^2 |beta(2 pi i f)|^2 / |alpha(2 pi i f)|^2; ar from the highest power down, ma from the constant up"""
    import math
    w = vp.const(2 * math.pi) * f

    def sq(cs):
        a = b = 0.0
        p = None
        for k, c in enumerate(cs):
            t = c if p is None else c * p
            if k % 4 == 0:
                a = a + t
            elif k % 4 == 1:
                b = b + t
            elif k % 4 == 2:
                a = a - t
            else:
                b = b - t
            p = w if p is None else p * w
        return a * a + b * b
    return sigma * sigma * sq(ma) / sq(list(ar)[::-1])


def poly_of(rs):
    """monic polynomial from the highest power down"""
    c = [1.0]
    for r in rs:
        n = c + [0.0]
        for i in range(len(c)):
            n[i + 1] = n[i + 1] - r * c[i]
        c = n
    return c


def gauss(vp, C, y):
    """one-step means and variances of a zero-mean Gaussian vector with covariance C, by elimination"""
    n = len(y)
    means, var = [], []
    for i in range(n):
        w = solve([[C[a][b] for b in range(i)] for a in range(i)], [C[a][i] for a in range(i)])
        means.append(sum((w[a] * y[a] for a in range(i)), 0.0))
        var.append(C[i][i] - sum((w[a] * C[a][i] for a in range(i)), 0.0))
    return means, var


def solve(A, b):
    n = len(b)
    M = [list(A[i]) + [b[i]] for i in range(n)]
    for c in range(n):
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            for j in range(c, n + 1):
                M[r][j] = M[r][j] - f * M[c][j]
    x = [0.0] * n
    for i in reversed(range(n)):
        s = M[i][n]
        for j in range(i + 1, n):
            s = s - M[i][j] * x[j]
        x[i] = s / M[i][i]
    return x


def draws(vp, p, q, n, name='d'):
    """parameter vectors a chain can hold, with distinct roots"""
    out = []
    for i in range(n):
        t = '%s%d_' % (name, i)
        d = [vp.pos(t + 'sd'), vp.inr(t + 'scale', 0.5, 2.0), vp.var(t + 'mu')]
        quad = []
        given = vp.par('ARNUM', 0)   # autoregressive part given, moving-average part symbolic
        for k in range(p + q):
            d.append(vp.const([0.0, 1.0, 1.0, 0.5, -1.0, 2.0, 0.25][k] + i) if given and k < p else vp.var(t + 'q%d' % k))
            quad.append(vp.exp(d[-1]))
        for k in range(0 if given else p // 2):
            a, b = quad[2 * k], quad[2 * k + 1]
            vp.ne(b * b, 4.0 * a)
            if p % 2:
                c = quad[p - 1]
                vp.ne(c * c - b * c + a, 0.0)
            for l in range(k):
                e, f = quad[2 * l], quad[2 * l + 1]
                vp.ne((a - e) * (a - e) + (b - f) * (b * e - a * f), 0.0)
        out.append(d)
    return out


def sampler(vp, p, ds, lp=None):
    """what a run returned: the draws with their log densities, which are prior plus likelihood"""
    n = len(ds)
    priors = [vp.var('prior%d' % i) for i in range(n)]
    likes = [vp.var('like%d' % i) for i in range(n)]

    def of(vals, what):
        def f(theta):
            for i, d in enumerate(ds):
                if len(theta) == len(d) and all(vp.same(a, b) for a, b in zip(theta, d)):
                    return vals[i]
            return vp.var('other_' + what)
        return f
    s = (vp.lib.CAR1 if p == 1 else vp.lib.CARMA)(ds, [a + b for a, b in zip(priors, likes)], of(priors, 'prior'), of(likes, 'like'))
    s.likes, s.priors = likes, priors
    return s
