"""Symbolic numbers for the Python side: reals (S) and complex pairs (SC) whose operations are streamed as terms.

Plain floats whose result is exact stay plain floats; everything else becomes a term.  Comparisons are branches
decided by the driver.
"""
import math
import os
from fractions import Fraction

import numpy as np


class Unsupported(BaseException):
    pass


class Cut(BaseException):
    pass


class RT:
    """connection to the driver"""
    out = None
    inp = None
    prefix = ''
    nbranch = 0
    nid = 0
    cons = {}
    decided = {}
    fresh = 0


rt = RT()


def die(code):
    rt.out.flush()
    os._exit(code)


def unsupported(what):
    rt.out.write('U %s\n' % what)
    die(98)


def node(key, const, sh):
    got = rt.cons.get(key)
    if got is not None:
        return got
    rt.out.write(key + '\n')
    s = S.__new__(S)
    s.id, s.const, s.sh = rt.nid, const, sh
    rt.nid += 1
    if rt.nid > 3000000:
        unsupported('too many terms')
    rt.cons[key] = s
    return s


def isnum(x):
    return isinstance(x, (float, int, np.floating, np.integer, np.bool_)) and not isinstance(x, S)


def num(x):
    """operand -> S or float, None when not a real scalar"""
    if isinstance(x, S):
        return x
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    if isinstance(x, (int, np.integer)):
        f = float(x)
        if int(f) != int(x):
            unsupported('large integer')
        return f
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return num(x.item())
    return None


def box(x):
    if isinstance(x, S):
        return x
    if x == 0:
        x = 0.0
    return node('K %s' % float(x).hex(), True, x)


def special(x):
    return not isinstance(x, S) and not math.isfinite(x)


def sh(x):
    return x.sh if isinstance(x, S) else x


def cl(x):
    return x.const if isinstance(x, S) else True


def mk1(op, a, f):
    a = box(a)
    v = 0.0
    if a.const:
        try:
            v = f(a.sh)
        except (ValueError, OverflowError):
            v = float('nan')
    return node('%s %d' % (op, a.id), a.const, v)


def mk2(op, a, b, f):
    a, b = box(a), box(b)
    c = a.const and b.const
    v = 0.0
    if c:
        try:
            v = f(a.sh, b.sh)
        except (ValueError, OverflowError, ZeroDivisionError):
            v = float('nan')
    return node('%s %d %d' % (op, a.id, b.id), c, v)


def readreply():
    rt.out.flush()
    c = rt.inp.read(1)
    while c == '\n':
        c = rt.inp.read(1)
    if c == '':
        os._exit(96)
    if c == 'X':
        os._exit(0)
    return c == '1'


def branch(pred, a, b):
    """pred: 0 '<', 1 '<=', 2 '=='"""
    if not isinstance(a, S) and not isinstance(b, S):
        return a < b if pred == 0 else a <= b if pred == 1 else a == b
    if cl(a) and cl(b):
        x, y = sh(a), sh(b)
        if abs(x - y) > 1e-9 * max(abs(x), abs(y)):
            return x < y if pred == 0 else x <= y if pred == 1 else False
    a, b = box(a), box(b)
    if a.id == b.id:
        return pred != 0
    k = '%d %d %d' % (pred, a.id, b.id)
    got = rt.decided.get(k)
    if got is not None:
        return got
    if rt.nbranch < len(rt.prefix):
        r = rt.prefix[rt.nbranch] == '1'
        rt.nbranch += 1
        rt.out.write('B %s %d\n' % (k, r))
    else:
        rt.nbranch += 1
        rt.out.write('B %s ?\n' % k)
        r = readreply()
    rt.decided[k] = r
    return r


def sgn(x):
    if not isinstance(x, S):
        return (x > 0) - (x < 0)
    if branch(0, x, 0.0):
        return -1
    if branch(2, x, 0.0):
        return 0
    return 1


# ------------------------------------------------------------------ real arithmetic
def exact(r, v):
    return math.isfinite(r) and Fraction(r) == v


def radd(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        r = a + b
        if not math.isfinite(r) or exact(r, Fraction(a) + Fraction(b)):
            return r
        return mk2('+', a, b, lambda x, y: x + y)
    if special(a):
        return a
    if special(b):
        return b
    if not isinstance(a, S) and a == 0:
        return b
    if not isinstance(b, S) and b == 0:
        return a
    return mk2('+', a, b, lambda x, y: x + y)


def rneg(a):
    if not isinstance(a, S):
        return -a
    return mk1('n', a, lambda x: -x)


def rsub(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        r = a - b
        if not math.isfinite(r) or exact(r, Fraction(a) - Fraction(b)):
            return r
        return mk2('-', a, b, lambda x, y: x - y)
    if special(a):
        return a
    if special(b):
        return -b
    if isinstance(a, S) and isinstance(b, S) and a.id == b.id:
        return 0.0
    if not isinstance(a, S) and a == 0:
        return rneg(b)
    if not isinstance(b, S) and b == 0:
        return a
    return mk2('-', a, b, lambda x, y: x - y)


def rmul(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        r = a * b
        if not math.isfinite(r) or exact(r, Fraction(a) * Fraction(b)):
            return r
        return mk2('*', a, b, lambda x, y: x * y)
    if special(a) or special(b):
        s, x = (a, b) if special(a) else (b, a)
        if math.isnan(s):
            return s
        g = sgn(x)
        return float('nan') if g == 0 else g * s
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, S):
            if x == 0:
                return 0.0
            if x == 1:
                return y
            if x == -1:
                return rneg(y)
    return mk2('*', a, b, lambda x, y: x * y)


def rdiv(a, b, numpyish=True):
    if not isinstance(a, S) and not isinstance(b, S):
        if b == 0:
            if not numpyish:
                raise ZeroDivisionError('float division by zero')
            return float('nan') if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1, b)
        r = a / b
        if not math.isfinite(r) or not math.isfinite(b) or exact(r, Fraction(a) / Fraction(b)):
            return r
        return mk2('/', a, b, lambda x, y: x / y)
    if special(b):
        return float('nan') if math.isnan(b) or special(a) else 0.0
    if special(a):
        if math.isnan(a):
            return a
        g = sgn(b)
        return a if g == 0 else g * a
    if not isinstance(b, S):
        if b == 0:
            g = sgn(a)
            return float('nan') if g == 0 else g * math.inf
        if b == 1:
            return a
        if b == -1:
            return rneg(a)
    return mk2('/', a, b, lambda x, y: x / y)


def rexp(x):
    if not isinstance(x, S):
        if x == 0:
            return 1.0
        if not math.isfinite(x):
            return math.exp(x) if x < 0 else x
    return mk1('exp', x, math.exp)


def rlog(x):
    if not isinstance(x, S):
        if x == 1:
            return 0.0
        if x == 0:
            return -math.inf
        if not x > 0:
            return float('nan')
        if not math.isfinite(x):
            return x
    return mk1('log', x, math.log)


def rsqrt(x):
    if not isinstance(x, S):
        if not x >= 0:
            return float('nan')
        r = math.sqrt(x)
        if not math.isfinite(r) or Fraction(r) ** 2 == Fraction(x):
            return r
    else:
        z = rt.cons.get('K 0x0.0p+0')
        if z is not None and rt.decided.get('0 %d %d' % (z.id, x.id)) is False or \
                z is not None and rt.decided.get('0 %d %d' % (x.id, z.id)) is True:
            # already known not to be positive on this path
            return float('nan') if branch(0, x, 0.0) else 0.0
    return mk1('sqrt', x, math.sqrt)


def rabs(x):
    if not isinstance(x, S):
        return abs(x)
    return rneg(x) if branch(0, x, 0.0) else x


def rsin(x):
    if not isinstance(x, S) and (x == 0 or not math.isfinite(x)):
        return 0.0 if x == 0 else float('nan')
    return mk1('sin', x, math.sin)


def rcos(x):
    if not isinstance(x, S) and (x == 0 or not math.isfinite(x)):
        return 1.0 if x == 0 else float('nan')
    return mk1('cos', x, math.cos)


def ratan2(y, x):
    if cl(x) and cl(y) and math.atan2(sh(y), sh(x)) == 0:
        return 0.0
    return mk2('atan2', y, x, math.atan2)


def rlt(a, b):
    if special(a) or special(b):
        if (special(a) and math.isnan(a)) or (special(b) and math.isnan(b)):
            return False
        return (a if special(a) else 0.0) < (b if special(b) else 0.0)
    return branch(0, a, b)


def rle(a, b):
    if (special(a) and math.isnan(a)) or (special(b) and math.isnan(b)):
        return False
    return not rlt(b, a)


def req(a, b):
    if special(a) or special(b):
        return special(a) and special(b) and a == b
    return branch(2, a, b)


def rpowi(x, n):
    if n < 0:
        return rdiv(1.0, rpowi(x, -n))
    r = 1.0
    for _ in range(n):
        r = rmul(r, x)
    return r


def rpow(x, y):
    if special(x) or special(y):
        if not isinstance(x, S) and not isinstance(y, S):
            return float(np.power(x, y))
        unsupported('power with a non-finite argument')
    if not isinstance(y, S):
        if y == 0:
            return 1.0
        if y == math.floor(y) and abs(y) <= 64:
            return rpowi(x, int(y))
        if 2 * y == math.floor(2 * y) and abs(y) <= 16:
            return rmul(rsqrt(x), rpowi(x, math.floor(y)))
    if not isinstance(x, S):
        if x == 0:
            return float(np.power(0.0, sh(y)))
        if x == 1:
            return 1.0
    return rexp(rmul(y, rlog(x)))


# ------------------------------------------------------------------ complex arithmetic on pairs
def pair(x):
    """operand -> (re, im) or None"""
    if isinstance(x, SC):
        return x.re, x.im
    if isinstance(x, (complex, np.complexfloating)):
        return float(x.real), float(x.imag)
    r = num(x)
    return None if r is None else (r, 0.0)


def iscx(x):
    return isinstance(x, (SC, complex, np.complexfloating))


def cadd(a, b):
    return SC(radd(a[0], b[0]), radd(a[1], b[1]))


def csub(a, b):
    return SC(rsub(a[0], b[0]), rsub(a[1], b[1]))


def cmul(a, b):
    return SC(rsub(rmul(a[0], b[0]), rmul(a[1], b[1])), radd(rmul(a[0], b[1]), rmul(a[1], b[0])))


def cdiv(a, b):
    if not isinstance(b[1], S) and b[1] == 0:
        return SC(rdiv(a[0], b[0]), rdiv(a[1], b[0]))
    den = radd(rmul(b[0], b[0]), rmul(b[1], b[1]))
    re = radd(rmul(a[0], b[0]), rmul(a[1], b[1]))
    im = rsub(rmul(a[1], b[0]), rmul(a[0], b[1]))
    return SC(rdiv(re, den), rdiv(im, den))


def cpowi(a, n):
    r = (1.0, 0.0)
    for _ in range(abs(n)):
        c = cmul(r, a)
        r = (c.re, c.im)
    if n < 0:
        return cdiv((1.0, 0.0), r)
    return SC(*r)


def cexp(a):
    if not isinstance(a[1], S) and a[1] == 0:
        return SC(rexp(a[0]), 0.0)
    import cmath
    return SC(mk2('cexpr', a[0], a[1], lambda x, y: cmath.exp(complex(x, y)).real),
              mk2('cexpi', a[0], a[1], lambda x, y: cmath.exp(complex(x, y)).imag))


def cabs(a):
    if not isinstance(a[1], S) and a[1] == 0:
        return rabs(a[0])
    if not isinstance(a[0], S) and a[0] == 0:
        return rabs(a[1])
    return rsqrt(radd(rmul(a[0], a[0]), rmul(a[1], a[1])))


def csqrt(a):
    if not isinstance(a[1], S) and a[1] == 0:
        if rlt(a[0], 0.0):
            return SC(0.0, rsqrt(rneg(a[0])))
        return SC(rsqrt(a[0]), 0.0)
    m = cabs(a)
    re = rsqrt(rmul(0.5, radd(m, a[0])))
    im = rsqrt(rmul(0.5, rsub(m, a[0])))
    return SC(re, rneg(im) if rlt(a[1], 0.0) else im)


def clog(a):
    if not isinstance(a[1], S) and a[1] == 0 and rlt(0.0, a[0]):
        return SC(rlog(a[0]), 0.0)
    return SC(rmul(0.5, rlog(radd(rmul(a[0], a[0]), rmul(a[1], a[1])))), ratan2(a[1], a[0]))


# ------------------------------------------------------------------ generic scalar operations
def _bin(rf, cf):
    def f(a, b):
        if iscx(a) or iscx(b):
            pa, pb = pair(a), pair(b)
            if pa is None or pb is None:
                return NotImplemented
            return cf(pa, pb)
        x, y = num(a), num(b)
        if x is None or y is None:
            return NotImplemented
        return rf(x, y)
    return f


add, sub, mul, div = _bin(radd, cadd), _bin(rsub, csub), _bin(rmul, cmul), _bin(rdiv, cdiv)


def neg(a):
    if iscx(a):
        p = pair(a)
        return SC(rneg(p[0]), rneg(p[1]))
    return rneg(num(a))


def power(a, b):
    if iscx(b):
        p = pair(b)
        if not isinstance(p[1], S) and p[1] == 0:
            b = p[0]
        else:
            unsupported('complex exponent')
    y = num(b)
    if y is None:
        return NotImplemented
    if iscx(a):
        if isinstance(y, S) or y != math.floor(y) or abs(y) > 64:
            if not isinstance(y, S) and y == 0.5:
                return csqrt(pair(a))
            l = clog(pair(a))
            return cexp((rmul(y, l.re), rmul(y, l.im)))
        return cpowi(pair(a), int(y))
    x = num(a)
    if x is None:
        return NotImplemented
    return rpow(x, y)


def floordiv(a, b):
    unsupported('floor division of a symbolic value')


def sabs(a):
    return cabs(pair(a)) if iscx(a) else rabs(num(a))


def sexp(a):
    return cexp(pair(a)) if iscx(a) else rexp(num(a))


def slog(a):
    return clog(pair(a)) if iscx(a) else rlog(num(a))


def ssqrt(a):
    return csqrt(pair(a)) if iscx(a) else rsqrt(num(a))


def sreal(a):
    return pair(a)[0]


def simag(a):
    return pair(a)[1]


def sconj(a):
    if iscx(a):
        p = pair(a)
        return SC(p[0], rneg(p[1]))
    return a


def ssquare(a):
    return mul(a, a)


def _cmp(rf, name):
    def f(a, b):
        if iscx(a) or iscx(b):
            # the order numpy gives complex numbers: real part, then imaginary part
            pa, pb = pair(a), pair(b)
            if pa is None or pb is None:
                return NotImplemented
            if name == 'eq':
                return req(pa[0], pb[0]) and req(pa[1], pb[1])
            if req(pa[0], pb[0]):
                return rf(pa[1], pb[1])
            return rlt(pa[0], pb[0])
        x, y = num(a), num(b)
        if x is None or y is None:
            return NotImplemented
        return rf(x, y)
    return f


lt, le, eq = _cmp(rlt, 'lt'), _cmp(rle, 'le'), _cmp(req, 'eq')


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def ne(a, b):
    r = eq(a, b)
    return r if r is NotImplemented else not r


def isnan(a):
    p = pair(a)
    return any(special(x) and math.isnan(x) for x in p)


def isinf(a):
    p = pair(a)
    return any(special(x) and math.isinf(x) for x in p)


def isfinite(a):
    return not any(special(x) for x in pair(a))


def smin(a, b):
    if isnan(a):
        return a
    if isnan(b):
        return b
    return b if lt(b, a) else a


def smax(a, b):
    if isnan(a):
        return a
    if isnan(b):
        return b
    return b if lt(a, b) else a


def ssign(a):
    return float(sgn(num(a)))


def sfresh(name):
    rt.fresh += 1
    return node('V %s%d' % (name, rt.fresh), False, 0.0)


class Base:
    __slots__ = ()
    ndim = 0
    shape = ()
    size = 1

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        from arr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, args, kw)

    def __add__(self, o): return add(self, o) if plain(o) else NotImplemented
    def __radd__(self, o): return add(o, self) if plain(o) else NotImplemented
    def __sub__(self, o): return sub(self, o) if plain(o) else NotImplemented
    def __rsub__(self, o): return sub(o, self) if plain(o) else NotImplemented
    def __mul__(self, o): return mul(self, o) if plain(o) else NotImplemented
    def __rmul__(self, o): return mul(o, self) if plain(o) else NotImplemented
    def __truediv__(self, o): return div(self, o) if plain(o) else NotImplemented
    def __rtruediv__(self, o): return div(o, self) if plain(o) else NotImplemented
    def __pow__(self, o): return power(self, o) if plain(o) else NotImplemented
    def __rpow__(self, o): return power(o, self) if plain(o) else NotImplemented
    def __floordiv__(self, o): return floordiv(self, o)
    def __rfloordiv__(self, o): return floordiv(o, self)
    def __mod__(self, o): return floordiv(self, o)
    def __rmod__(self, o): return floordiv(o, self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return sabs(self)
    def __lt__(self, o): return lt(self, o) if plain(o) else NotImplemented
    def __le__(self, o): return le(self, o) if plain(o) else NotImplemented
    def __gt__(self, o): return gt(self, o) if plain(o) else NotImplemented
    def __ge__(self, o): return ge(self, o) if plain(o) else NotImplemented

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return eq(self, o) if plain(o) else NotImplemented

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return ne(self, o) if plain(o) else NotImplemented

    def __bool__(self):
        return not eq(self, 0.0)

    def conjugate(self): return sconj(self)
    conj = conjugate
    def exp(self): return sexp(self)
    def log(self): return slog(self)
    def sqrt(self): return ssqrt(self)
    def item(self, *a): return self
    def copy(self): return self
    def squeeze(self, *a): return self
    def tolist(self): return self

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __float__(self):
        unsupported('symbolic value converted to a float')

    def __int__(self):
        unsupported('symbolic value converted to an integer')

    def __index__(self):
        raise TypeError('only integers can be used as an index')

    def __complex__(self):
        unsupported('symbolic value converted to a complex number')

    def __round__(self, *a):
        unsupported('symbolic value rounded')
    __floor__ = __ceil__ = __trunc__ = __round__

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return '<sym>'

    def __iter__(self):
        raise TypeError("'float' object is not iterable")


class S(Base):
    """real symbolic value"""
    __slots__ = ('id', 'const', 'sh')

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def __hash__(self):
        return hash(('S', self.id))


class SC(Base):
    """complex symbolic value"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __hash__(self):
        return hash((self.re, self.im))


def plain(o):
    return isinstance(o, (Base, float, int, complex, np.number, np.bool_))
