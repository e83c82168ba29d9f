"""Exact algebra over the reals: rational functions in atoms.

An atom is an input variable or an application of exp/log/sqrt/... to a canonical
argument.  Monomials are packed integers (one field of W bits per atom), polynomials are
dicts monomial -> int, rational functions keep their denominator factored.
"""
import heapq
import math
import random
from fractions import Fraction

W = 16
FM = (1 << W) - 1
P = (1 << 61) - 1


class Unsupported(Exception):
    pass


class DivZero(Unsupported):
    pass


class Budget(Exception):
    pass


LIMIT_TERMS = 400000


# ---------------------------------------------------------------- polynomials
def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def pneg(a):
    return {m: -c for m, c in a.items()}


def pmul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 40 * LIMIT_TERMS:
        raise Budget("polynomial product too large")
    r = {}
    get = r.get
    bi = list(b.items())
    for m, c in a.items():
        for n, d in bi:
            k = m + n
            r[k] = get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def content(a):
    g = 0
    for c in a.values():
        g = math.gcd(g, c)
        if g == 1:
            break
    return g


def atoms_of_mono(m):
    i = 0
    out = []
    while m:
        e = m & FM
        if e:
            out.append((i, e))
        m >>= W
        i += 1
    return out


ONE = {0: 1}


class Alg:
    """Tables of atoms and denominator factors, shared by all paths of a check."""

    def __init__(self):
        self.atoms = []          # (kind, payload)
        self.atom_ix = {}
        self.relmask = 0         # field bits >= 2 of atoms with a square relation
        self.rel = {}            # atom -> Rat equal to atom**2
        self.factors = []        # fid -> poly (primitive, positive lead)
        self.factor_ix = {}
        self.fdata = []
        self.pt = []
        self.rng = random.Random(12345)
        self.mval = {0: 1}
        self.ebasis = []         # exponential basis: (aterms, bterms, C_atom, S_atom or None)
        self.guard = 0
        self.numeric = {}        # constant atom -> float
        self.size_peak = 0

    # ---- atoms
    def atom(self, kind, payload, key=None):
        k = (kind, key if key is not None else payload)
        i = self.atom_ix.get(k)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((kind, payload))
            self.atom_ix[k] = i
            self.pt.append(self.rng.randrange(2, P))
            self.guard |= 1 << (W * i + W - 1)
        return i

    def var(self, name):
        return self.mono_rat(1 << (W * self.atom('var', name)))

    def mono_rat(self, m):
        return Rat(self, {m: 1}, 1, ())

    def const(self, q):
        q = Fraction(q)
        if q == 0:
            return Rat(self, {}, 1, ())
        return Rat(self, {0: q.numerator}, q.denominator, ())

    # ---- modular evaluation
    def meval(self, m):
        v = self.mval.get(m)
        if v is None:
            v = 1
            for i, e in atoms_of_mono(m):
                v = v * pow(self.pt[i], e, P) % P
            self.mval[m] = v
        return v

    def univ(self, a, v):
        sh = W * v
        fm = FM << sh
        out = {}
        for m, c in a.items():
            e = (m & fm) >> sh
            r = m & ~fm
            out[e] = (out.get(e, 0) + c * self.meval(r)) % P
        if not out:
            return []
        d = max(out)
        return [out.get(i, 0) for i in range(d + 1)]

    # ---- factors
    def fid(self, poly):
        k = frozenset(poly.items())
        i = self.factor_ix.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(poly)
            self.factor_ix[k] = i
            # main variable: prefer degree 1
            degs = {}
            for m in poly:
                for at, e in atoms_of_mono(m):
                    degs[at] = max(degs.get(at, 0), e)
            v = min(degs, key=lambda a: (degs[a], -a))
            self.fdata.append((v, self.univ(poly, v), sorted(poly.items(), reverse=True), degs))
        return i

    def maybe_divides(self, fid, a):
        v, fu, _, degs = self.fdata[fid]
        au = self.univ(a, v)
        d = len(fu) - 1
        while au and au[-1] == 0:
            au.pop()
        if len(au) <= d:
            return not au
        inv = pow(fu[-1], P - 2, P)
        au = list(au)
        for i in range(len(au) - 1, d - 1, -1):
            q = au[i] * inv % P
            if q:
                for j in range(d + 1):
                    au[i - d + j] = (au[i - d + j] - q * fu[j]) % P
        return not any(au[:d])

    def exact_div(self, a, fid):
        """a / factor if exact over Z (factor primitive), else None"""
        f = self.fdata[fid][2]
        lf, cf = f[0]
        if len(f) == 1:  # monomial
            G = self.guard
            for m in a:
                if ((m | G) - lf) & G != G:
                    return None
            return {m - lf: c for m, c in a.items()}
        r = dict(a)
        heap = [-m for m in r]
        heapq.heapify(heap)
        q = {}
        G = self.guard
        rest = f[1:]
        while heap:
            m = -heapq.heappop(heap)
            c = r.get(m)
            if not c:
                continue
            if ((m | G) - lf) & G != G:
                return None
            if c % cf:
                return None
            k = c // cf
            d = m - lf
            q[d] = k
            r[m] = 0
            for n, e in rest:
                t = n + d
                old = r.get(t)
                if old is None:
                    r[t] = -k * e
                    heapq.heappush(heap, -t)
                else:
                    if old == 0:
                        heapq.heappush(heap, -t)
                    r[t] = old - k * e
            if len(q) > LIMIT_TERMS:
                raise Budget("division too large")
        return q

    def split(self, poly):
        """poly -> (integer content with sign, {fid: exp})"""
        fs = {}
        if not poly:
            return 0, fs
        c = content(poly)
        lead = poly[max(poly)]
        if lead < 0:
            c = -c
        if c != 1:
            poly = {m: v // c for m, v in poly.items()}
        # monomial part
        it = iter(poly)
        common = dict(atoms_of_mono(next(it)))
        for m in it:
            if not common:
                break
            nc = {}
            for at, e in common.items():
                x = (m >> (W * at)) & FM
                if x:
                    nc[at] = min(e, x)
            common = nc
        if common:
            mm = 0
            for at, e in common.items():
                mm += e << (W * at)
                f = self.fid({1 << (W * at): 1})
                fs[f] = fs.get(f, 0) + e
            poly = {m - mm: v for m, v in poly.items()}
        if len(poly) > 1:
            n = len(self.factors)
            for f in range(n):
                ft = self.factors[f]
                if len(ft) == 1 or len(poly) < 2:
                    continue
                while len(poly) > 1 and self.maybe_divides(f, poly):
                    q = self.exact_div(poly, f)
                    if q is None:
                        break
                    fs[f] = fs.get(f, 0) + 1
                    poly = q
            if len(poly) > 1:
                lead = poly[max(poly)]
                if lead < 0:
                    poly = pneg(poly)
                    c = -c
                f = self.fid(poly)
                fs[f] = fs.get(f, 0) + 1
            else:
                (m, v), = poly.items()
                c *= v
                assert m == 0
        else:
            (m, v), = poly.items()
            c *= v
        return c, fs

    # ---- square relations (sqrt, sin)
    def add_square_rel(self, at, rat):
        self.rel[at] = rat
        self.relmask |= (FM ^ 1) << (W * at)

    def reduce(self, num):
        """apply atom**2 -> rat; returns Rat (den 1 if the relations are polynomial)"""
        bad = None
        rm = self.relmask
        for m in num:
            if m & rm:
                bad = m & rm
                break
        if bad is None:
            return None
        at = 0
        b = bad
        while not (b & FM):
            b >>= W
            at += 1
        sh = W * at
        groups = {}
        for m, c in num.items():
            e = (m >> sh) & FM
            rest = m - (e << sh)
            h, l = divmod(e, 2)
            groups.setdefault(h, {})
            k = rest + (l << sh)
            g = groups[h]
            g[k] = g.get(k, 0) + c
        tot = None
        r = self.rel[at]
        for h, g in groups.items():
            g = {m: c for m, c in g.items() if c}
            t = Rat(self, g, 1, ()) * r.powi(h) if h else Rat(self, g, 1, ())
            red = self.reduce(t.num)
            if red is not None:
                t = red * Rat(self, ONE, t.c, t.den)
            tot = t if tot is None else tot + t
        return tot


class Rat:
    __slots__ = ('A', 'num', 'c', 'den')

    def __init__(self, A, num, c, den):
        self.A = A
        self.num = num
        self.c = c
        self.den = den

    def is_zero(self):
        return not self.num

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and 0 in self.num))

    def const_value(self):
        return Fraction(self.num.get(0, 0), self.c)

    def key(self):
        return (frozenset(self.num.items()), self.c, self.den)

    def __neg__(self):
        return Rat(self.A, pneg(self.num), self.c, self.den)

    def _norm(self):
        if not self.num:
            return Rat(self.A, {}, 1, ())
        if self.c != 1:
            g = math.gcd(content(self.num), self.c)
            if g > 1:
                return Rat(self.A, {m: v // g for m, v in self.num.items()}, self.c // g, self.den)
        return self

    def __add__(self, o):
        A = self.A
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            den = self.den
            n1, n2 = self.num, o.num
            cand = den
        else:
            d1, d2 = dict(self.den), dict(o.den)
            allf = dict(d1)
            for f, e in d2.items():
                allf[f] = max(allf.get(f, 0), e)
            n1, n2 = self.num, o.num
            for f, e in allf.items():
                for _ in range(e - d1.get(f, 0)):
                    n1 = pmul_raw(n1, A.factors[f])
                for _ in range(e - d2.get(f, 0)):
                    n2 = pmul_raw(n2, A.factors[f])
            den = tuple(sorted(allf.items()))
            cand = tuple((f, e) for f, e in den if d1.get(f, 0) == d2.get(f, 0))
        g = math.gcd(self.c, o.c)
        c = self.c // g * o.c
        n = padd(pscale(n1, o.c // g), pscale(n2, self.c // g))
        if len(n) > A.size_peak:
            A.size_peak = len(n)
            if len(n) > LIMIT_TERMS:
                raise Budget("polynomial too large")
        r = Rat(A, n, c, den)
        if A.relmask:
            red = A.reduce(n)
            if red is not None:
                r = red * Rat(A, ONE, c, den)
        return r._cancel([f for f, e in cand])._norm()

    def __sub__(self, o):
        return self + (-o)

    def _cancel(self, fids):
        if not fids or not self.den:
            return self
        if not self.num:
            return Rat(self.A, {}, 1, ())
        A = self.A
        den = dict(self.den)
        num = self.num
        ch = False
        for f in fids:
            while den.get(f, 0) and A.maybe_divides(f, num):
                q = A.exact_div(num, f)
                if q is None:
                    break
                num = q
                ch = True
                den[f] -= 1
                if not den[f]:
                    del den[f]
        if not ch:
            return self
        return Rat(A, num, self.c, tuple(sorted(den.items())))

    def __mul__(self, o):
        A = self.A
        if not self.num or not o.num:
            return Rat(A, {}, 1, ())
        if self.is_const():
            q = self.const_value()
            return Rat(A, pscale(o.num, q.numerator), o.c * q.denominator, o.den)._norm()
        if o.is_const():
            return o * self
        a, b = self, o
        n1, n2 = a.num, b.num
        d1, d2 = dict(a.den), dict(b.den)
        for f in list(d2):
            while d2.get(f, 0) and A.maybe_divides(f, n1):
                q = A.exact_div(n1, f)
                if q is None:
                    break
                n1 = q
                d2[f] -= 1
                if not d2[f]:
                    del d2[f]
        for f in list(d1):
            while d1.get(f, 0) and A.maybe_divides(f, n2):
                q = A.exact_div(n2, f)
                if q is None:
                    break
                n2 = q
                d1[f] -= 1
                if not d1[f]:
                    del d1[f]
        for f, e in d2.items():
            d1[f] = d1.get(f, 0) + e
        n = pmul_raw(n1, n2)
        if len(n) > A.size_peak:
            A.size_peak = len(n)
            if len(n) > LIMIT_TERMS:
                raise Budget("polynomial too large")
        den = tuple(sorted(d1.items()))
        c = a.c * b.c
        if A.relmask:
            red = A.reduce(n)
            if red is not None:
                r = red * Rat(A, ONE, c, den) if (den or c != 1) else red
                return r._cancel([f for f, _ in r.den])._norm()
        return Rat(A, n, c, den)._norm()

    def inv(self):
        A = self.A
        if not self.num:
            raise ZeroDivisionError
        c, fs = A.split(self.num)
        num = {0: self.c if c > 0 else -self.c}
        for f, e in self.den:
            k = min(e, fs.get(f, 0))
            if k:
                fs[f] -= k
                if not fs[f]:
                    del fs[f]
                e -= k
            for _ in range(e):
                num = pmul_raw(num, A.factors[f])
        r = Rat(A, num, abs(c), tuple(sorted(fs.items())))
        if A.relmask:
            red = A.reduce(num)
            if red is not None:
                r = red * Rat(A, ONE, r.c, r.den)
        return r._norm()

    def __truediv__(self, o):
        if o.is_const():
            q = o.const_value()
            if q == 0:
                raise ZeroDivisionError
            return self * self.A.const(1 / q)
        return self * o.inv()

    def powi(self, n):
        if n < 0:
            return self.inv().powi(-n)
        r = self.A.const(1)
        for _ in range(n):
            r = r * self
        return r

    # linear decomposition: {(monomial, den): Fraction}
    def terms(self):
        return {(m, self.den): Fraction(v, self.c) for m, v in self.num.items()}

    def size(self):
        return len(self.num)

    def sqrt_exact(self):
        """q with q*q == self, or None"""
        A = self.A
        if not self.num:
            return self
        for _, e in self.den:
            if e % 2:
                return None
        n = self.num
        c = content(n)
        if self.num[max(n)] < 0:
            return None
        n = {m: v // c for m, v in n.items()}
        q = Fraction(c, self.c)
        rn, rd = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if rn * rn != q.numerator or rd * rd != q.denominator:
            return None
        s = poly_sqrt(n, A.guard)
        if s is None:
            return None
        return Rat(A, pscale(s, rn), rd, tuple((f, e // 2) for f, e in self.den))


def poly_sqrt(n, G):
    """integer polynomial square root (leading coefficient > 0) or None"""
    lead = max(n)
    for i, e in atoms_of_mono(lead):
        if e % 2:
            return None
    lc = math.isqrt(n[lead])
    if lc * lc != n[lead]:
        return None
    lm = sum((e // 2) << (W * i) for i, e in atoms_of_mono(lead))
    s = {lm: lc}
    r = dict(n)
    del r[lead]
    steps = 0
    while r:
        steps += 1
        if steps > 200:
            return None
        m = max(r)
        if ((m | G) - lm) & G != G:
            return None
        k = m - lm
        c = r[m]
        if c % (2 * lc):
            return None
        t = c // (2 * lc)
        if k in s or k > lm:
            return None
        # r -= 2*t*k*s + t^2 k^2
        upd = {k + mm: 2 * t * cc for mm, cc in s.items()}
        upd[2 * k] = upd.get(2 * k, 0) + t * t
        for mm, cc in upd.items():
            v = r.get(mm, 0) - cc
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
        s[k] = t
    return s
