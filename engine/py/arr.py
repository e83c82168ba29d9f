"""Arrays of symbolic numbers and the stand-ins for the numpy entry points that create arrays.

An SArr is a real numpy object array, so shapes, views, aliasing, indexing, sorting and broadcasting are numpy's
own; only element arithmetic and floating-point storage rules are replaced.
"""
import types

import numpy as np

import sym
from sym import S, SC, Base


def nd(x):
    """plain object array (or other ndarray) view of an operand"""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, Base):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def elem_kind(a):
    for x in a.view(np.ndarray).ravel():
        if sym.iscx(x):
            return 'c'
    return 'f'


class SArr(np.ndarray):
    """object array of symbolic numbers; kind f/c/i records the dtype numpy would have (None: by content)"""
    kind = None

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, 'kind', None)

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        return ufunc_dispatch(ufunc, method, args, kw)

    def __array_function__(self, func, types_, args, kwargs):
        if func in FUNCS:
            return FUNCS[func](*args, **kwargs)
        return super().__array_function__(func, types_, args, kwargs)

    # ------------------------------------------------------------ storage
    def __setitem__(self, key, val):
        if self.kind in ('f', 'i'):
            val = coerce(val, self.kind)
        if isinstance(val, np.ndarray) and val.size == 1 and not isinstance(np.ndarray.__getitem__(self.view(np.ndarray), key), np.ndarray):
            val = val.item()
        if isinstance(val, Base):
            super().__setitem__(key, val)
        else:
            super().__setitem__(key, nd(val) if isinstance(val, np.ndarray) else val)

    def __getitem__(self, key):
        r = super().__getitem__(key)
        return r

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def fill(self, v):
        self[...] = v

    @property
    def real(self):
        return rewrap(MAP1[sym.sreal](nd(self)), self, 'f')

    @property
    def imag(self):
        return rewrap(MAP1[sym.simag](nd(self)), self, 'f')

    def conjugate(self, *a, **k):
        return rewrap(MAP1[sym.sconj](nd(self)), self, self.kind)
    conj = conjugate

    @property
    def H(self):
        return self.T.conjugate()

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt.kind in 'fcO':
            r = self.copy()
            r.kind = {'f': 'f', 'c': 'c', 'O': None}[dt.kind]
            if dt.kind == 'f':
                r[...] = self
            return r
        if dt.kind == 'b':
            return np.array([bool(x) for x in nd(self).ravel()]).reshape(self.shape)
        vals = nd(self).ravel()
        if all(not isinstance(x, Base) for x in vals):
            return np.array([int(x) for x in vals]).reshape(self.shape).astype(dt)
        sym.unsupported('symbolic array converted to integers')

    def sum(self, axis=None, **k):
        return ufunc_dispatch(np.add, 'reduce', (self,), dict(axis=axis, **k))

    def prod(self, axis=None, **k):
        return ufunc_dispatch(np.multiply, 'reduce', (self,), dict(axis=axis, **k))

    def min(self, axis=None, **k):
        return ufunc_dispatch(np.minimum, 'reduce', (self,), dict(axis=axis, **k))

    def max(self, axis=None, **k):
        return ufunc_dispatch(np.maximum, 'reduce', (self,), dict(axis=axis, **k))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else count(self, axis)
        r = self.sum(axis=axis, keepdims=keepdims)
        return r / float(n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        n = self.size if axis is None else count(self, axis)
        m = ufunc_dispatch(np.add, 'reduce', (self,), dict(axis=axis, keepdims=True)) / float(n)
        d = self - m
        d2 = rewrap(np.frompyfunc(lambda x: sym.sreal(sym.mul(x, sym.sconj(x))), 1, 1)(nd(d)), d, 'f')
        return ufunc_dispatch(np.add, 'reduce', (d2,), dict(axis=axis, keepdims=keepdims)) / float(n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np.sqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def round(self, *a, **k):
        sym.unsupported('symbolic array rounded')

    def __float__(self):
        if self.size == 1:
            return float(self.item())
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __complex__(self):
        if self.size == 1:
            return complex(self.item())
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __repr__(self):
        return '<sym array>'
    __str__ = __repr__

    def __format__(self, spec):
        return '<sym array>'


def count(a, axis):
    ax = axis if isinstance(axis, tuple) else (axis,)
    n = 1
    for x in ax:
        n *= a.shape[x]
    return n


class SMat(SArr):
    """numpy.matrix of symbolic numbers"""
    __array_priority__ = 10.0

    def __new__(cls, data, dtype=None, copy=True):
        a = wrap(np.array(aslist(data), dtype=object) if not isinstance(data, np.ndarray) else np.array(nd(data), dtype=object))
        if a.ndim < 2:
            a = a.reshape(1, -1)
        k = getattr(data, 'kind', None)
        r = a.view(cls)
        r.kind = k
        return r

    def __array_finalize__(self, obj):
        SArr.__array_finalize__(self, obj)
        if self.ndim == 0:
            self.shape = (1, 1)
        elif self.ndim == 1:
            self.shape = (1, self.shape[0])

    def __getitem__(self, key):
        out = np.ndarray.__getitem__(self.view(SArr), key)
        if not isinstance(out, np.ndarray):
            return out
        if out.ndim == 0:
            return out.item()
        if out.ndim == 1:
            n = out.shape[0]
            r = out.view(SMat)
            col = isinstance(key, tuple) and len(key) > 1 and np.isscalar(key[1])
            r = r.reshape((n, 1)) if col else r.reshape((1, n))
            return r
        return out.view(SMat)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) or isinstance(o, (list, tuple)):
            return matdot(self, SMat(o) if not isinstance(o, np.ndarray) else o).view(SMat)
        return ufunc_dispatch(np.multiply, '__call__', (self, o), {})

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) or isinstance(o, (list, tuple)):
            return matdot(SMat(o) if not isinstance(o, np.ndarray) else o, self).view(SMat)
        return ufunc_dispatch(np.multiply, '__call__', (o, self), {})

    def __imul__(self, o):
        self[:] = self * o
        return self

    def __pow__(self, n):
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    @property
    def H(self):
        return self.T.conjugate()

    @property
    def A(self):
        return self.view(SArr)

    @property
    def A1(self):
        return self.view(SArr).ravel()

    @property
    def T(self):
        return np.ndarray.transpose(self)

    @property
    def I(self):
        return linsolve(self.A, eye(self.shape[0])).view(SMat)

    getA, getH, getT = (lambda s: s.A), (lambda s: s.H), (lambda s: s.T)


def aslist(x):
    return x


def matdot(a, b):
    x, y = asobj(a), asobj(b)
    if x.ndim == 1 and y.ndim == 1:
        if x.shape != y.shape:
            raise ValueError('shapes %s and %s not aligned' % (x.shape, y.shape))
        return dot1(x, y)
    x2 = x.reshape(1, -1) if x.ndim == 1 else x
    y2 = y.reshape(-1, 1) if y.ndim == 1 else y
    if x2.ndim != 2 or y2.ndim != 2:
        sym.unsupported('product of arrays with more than two dimensions')
    if x2.shape[1] != y2.shape[0]:
        raise ValueError('shapes %s and %s not aligned' % (x.shape, y.shape))
    r = np.empty((x2.shape[0], y2.shape[1]), dtype=object)
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            r[i, j] = dot1(x2[i, :], y2[:, j])
    if x.ndim == 1:
        r = r[0]
    elif y.ndim == 1:
        r = r[:, 0]
    return wrap(r)


def dot1(x, y):
    s = 0.0
    for a, b in zip(x, y):
        s = sym.add(s, sym.mul(a, b))
    return s


def coerce(val, kind):
    """storing into a float (or integer) array"""
    def one(x):
        if sym.iscx(x):
            x = sym.pair(x)[0]
        if kind == 'i':
            if isinstance(x, Base):
                return sym.sfresh('truncated')
            return int(x)
        return x
    if isinstance(val, Base) or np.isscalar(val):
        return one(val)
    if isinstance(val, np.ndarray):
        if val.dtype == object or val.dtype.kind == 'c' or kind == 'i':
            return np.frompyfunc(one, 1, 1)(nd(val))
        return val
    if isinstance(val, (list, tuple)):
        return coerce(np.array(val, dtype=object), kind)
    return val


def wrap(r, kind=None):
    if isinstance(r, np.ndarray):
        if r.ndim == 0 and r.dtype == object:
            return r.item()
        if r.dtype == object or r.dtype.kind in 'fc':
            k = kind or {'f': 'f', 'c': 'c'}.get(r.dtype.kind)
            r = (r if r.dtype == object else r.astype(object)).view(SArr)
            r.kind = k
    return r


def rewrap(r, like, kind):
    if not isinstance(r, np.ndarray):
        return r
    if r.ndim == 0:
        return r.item()
    r = r.view(SMat if isinstance(like, SMat) else SArr)
    r.kind = kind
    return r


class _Map1(dict):
    def __missing__(self, f):
        self[f] = np.frompyfunc(f, 1, 1)
        return self[f]


MAP1 = _Map1()

U1 = {np.negative: sym.neg, np.absolute: sym.sabs, np.fabs: sym.sabs, np.exp: sym.sexp, np.log: sym.slog, np.sqrt: sym.ssqrt,
      np.conjugate: sym.sconj, np.square: sym.ssquare, np.positive: lambda x: x,
      np.log10: lambda x: sym.div(sym.slog(x), sym.rlog(10.0)), np.log2: lambda x: sym.div(sym.slog(x), sym.rlog(2.0)),
      np.log1p: lambda x: sym.slog(sym.add(1.0, x)), np.expm1: lambda x: sym.sub(sym.sexp(x), 1.0),
      np.reciprocal: lambda x: sym.div(1.0, x), np.sin: lambda x: sym.rsin(sym.num(x)), np.cos: lambda x: sym.rcos(sym.num(x)),
      np.sign: sym.ssign}
U1B = {np.isnan: sym.isnan, np.isinf: sym.isinf, np.isfinite: sym.isfinite, np.logical_not: lambda x: not x,
       np.signbit: lambda x: sym.rlt(sym.num(x), 0.0)}
U2 = {np.add: sym.add, np.subtract: sym.sub, np.multiply: sym.mul, np.true_divide: sym.div, np.divide: sym.div, np.power: sym.power,
      np.float_power: sym.power, np.maximum: sym.smax, np.minimum: sym.smin, np.fmax: sym.smax, np.fmin: sym.smin,
      np.hypot: lambda a, b: sym.cabs((sym.num(a), sym.num(b))), np.arctan2: lambda a, b: sym.ratan2(sym.num(a), sym.num(b))}
U2B = {np.less: sym.lt, np.less_equal: sym.le, np.greater: sym.gt, np.greater_equal: sym.ge, np.equal: sym.eq, np.not_equal: sym.ne,
       np.logical_and: lambda a, b: bool(a) and bool(b), np.logical_or: lambda a, b: bool(a) or bool(b)}


def checked(f):
    def g(*a):
        r = f(*a)
        if r is NotImplemented:
            raise TypeError('unsupported operand types: %s' % ', '.join(type(x).__name__ for x in a))
        return r
    return g


FP = {u: np.frompyfunc(checked(f), 1, 1) for d in (U1, U1B) for u, f in d.items()}
FP.update({u: np.frompyfunc(checked(f), 2, 1) for d in (U2, U2B) for u, f in d.items()})
BOOL = set(U1B) | set(U2B)


def ufunc_dispatch(ufunc, method, args, kw):
    out = kw.get('out')
    if out is not None and not isinstance(out, tuple):
        out = (out,)
    mat = any(isinstance(a, SMat) for a in args)
    if ufunc is np.matmul and method == '__call__':
        return finish(matdot(*[asobj(a) for a in args[:2]]), mat, out, ufunc)
    if ufunc not in FP:
        sym.unsupported('numpy function %s of a symbolic value' % ufunc.__name__)
    ins = [asobj(a) for a in args]
    if method == '__call__':
        where = kw.get('where', True)
        r = FP[ufunc](*ins)
        if ufunc in BOOL:
            r = np.asarray(r, dtype=bool) if isinstance(r, np.ndarray) else bool(r)
        if where is not True and out is not None and out[0] is not None:
            o = out[0]
            base = o.view(np.ndarray)
            rr = np.broadcast_to(np.asarray(r, dtype=object), o.shape)
            base[where] = rr[where]
            return o
        return finish(r, mat, out, ufunc)
    if method == 'reduce':
        a = ins[0]
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        if keep is np._NoValue:
            keep = False
        axis = tuple(range(a.ndim)) if axis is None else axis if isinstance(axis, tuple) else (axis,)
        axis = tuple(x % a.ndim for x in axis) if a.ndim else ()
        rest = [i for i in range(a.ndim) if i not in axis]
        t = a.transpose(rest + list(axis)).reshape([a.shape[i] for i in rest] + [-1])
        f = {**U2, **U2B}[ufunc]
        ident = {np.add: 0.0, np.multiply: 1.0, np.logical_and: True, np.logical_or: False}.get(ufunc)
        r = np.empty(t.shape[:-1], dtype=object)
        for idx in np.ndindex(*t.shape[:-1]):
            row = t[idx]
            if len(row) == 0:
                if ident is None:
                    raise ValueError('zero-size array to reduction operation')
                acc = ident
            else:
                acc = row[0]
                for x in row[1:]:
                    acc = f(acc, x)
            r[idx] = acc
        if ufunc in BOOL:
            r = r.astype(bool)
        if keep:
            r = r.reshape([1 if i in axis else a.shape[i] for i in range(a.ndim)])
        elif mat and r.ndim < 2 and r.ndim > 0:
            r = r.reshape((1, -1) if axis == (0,) else (-1, 1))
        return finish(r, mat and r.ndim > 0, out, ufunc)
    if method == 'accumulate':
        a = ins[0]
        ax = kw.get('axis', 0)
        r = np.array(a, dtype=object, copy=True)
        f = U2[ufunc]
        m = np.moveaxis(r, ax, 0)
        for i in range(1, m.shape[0]):
            for idx in np.ndindex(*m.shape[1:]):
                m[(i,) + idx] = f(m[(i - 1,) + idx], m[(i,) + idx])
        return finish(r, mat, out, ufunc)
    if method == 'outer':
        a, b = ins
        return finish(FP[ufunc](a.reshape(a.shape + (1,) * b.ndim), b), False, out, ufunc)
    sym.unsupported('numpy %s.%s of a symbolic value' % (ufunc.__name__, method))


def asobj(a):
    if isinstance(a, np.ndarray):
        r = nd(a)
        return r if r.dtype == object else r.astype(object)
    if isinstance(a, Base):
        return nd(a)
    if isinstance(a, (list, tuple)):
        return np.array(a, dtype=object)
    r = np.empty((), dtype=object)
    r[()] = a
    return r


def finish(r, mat, out, ufunc):
    if out is not None and out[0] is not None:
        o = out[0]
        if isinstance(o, SArr):
            if o.kind == 'f' and isinstance(r, np.ndarray) and elem_kind(r) == 'c':
                raise TypeError("Cannot cast ufunc '%s' output from complex to float" % ufunc.__name__)
            if o.kind == 'i':
                raise TypeError("Cannot cast ufunc '%s' output from float to int" % ufunc.__name__)
            np.ndarray.__setitem__(o, Ellipsis, r if isinstance(r, np.ndarray) else nd(r) if isinstance(r, Base) else r)
            return o
        if o.dtype.kind == 'i' or o.dtype.kind == 'u':
            raise TypeError("Cannot cast ufunc '%s' output from float to int" % ufunc.__name__)
        if o.dtype == object or o.dtype == bool:
            o[...] = r
            return o
        sym.unsupported('symbolic result stored in a plain float array')
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return r.item()
        if r.dtype == object:
            k = None
            r = r.view(SMat if mat else SArr)
            r.kind = k
    return r


# ------------------------------------------------------------------ functions of arrays numpy cannot do on objects
def linsolve(a, b, *args, **kw):
    """exact elimination; pivots are the first entry that is not constantly zero (the caller's matrix is regular)"""
    A = nd(np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a)
    B = nd(np.asarray(b, dtype=object) if not isinstance(b, np.ndarray) else b)
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n or B.shape[0] != n:
        raise ValueError('incompatible dimensions')
    M = [[A[i, j] for j in range(n)] + (list(B[i]) if B.ndim == 2 else [B[i]]) for i in range(n)]
    w = len(M[0])

    def zero(x):
        p = sym.pair(x)
        return all(not isinstance(v, S) and v == 0 for v in p)
    for c in range(n):
        p = next((r for r in range(c, n) if not zero(M[r][c])), None)
        if p is None:
            raise np.linalg.LinAlgError('singular matrix')
        M[c], M[p] = M[p], M[c]
        for r in range(n):
            if r != c and not zero(M[r][c]):
                f = sym.div(M[r][c], M[c][c])
                M[r] = M[r][:c] + [0.0] + [sym.sub(M[r][j], sym.mul(f, M[c][j])) for j in range(c + 1, w)]
    R = np.empty((n, w - n), dtype=object)
    for i in range(n):
        for j in range(n, w):
            R[i, j - n] = sym.div(M[i][j], M[i][i])
    return wrap(R if B.ndim == 2 else R[:, 0])


def eye(n, *a, **k):
    r = wrap(np.zeros((n, n)))
    for i in range(n):
        r[i, i] = 1.0
    return r


def poly(roots):
    """coefficients of the monic polynomial with these roots"""
    r = np.atleast_1d(nd(roots) if isinstance(roots, np.ndarray) else np.array(roots, dtype=object))
    if r.ndim != 1:
        sym.unsupported('characteristic polynomial of a matrix')
    c = [1.0]
    for z in r:
        c = [sym.sub(x, sym.mul(z, y)) if y is not None else x
             for x, y in zip(c + [0.0], [None] + c)]
    return wrap(np.array(c + [None], dtype=object)[:-1])


def polyval(p, x):
    cs = list(nd(p)) if isinstance(p, np.ndarray) else list(p)
    xs = x if isinstance(x, np.ndarray) else x

    def one(z):
        y = 0.0
        for c in cs:
            y = sym.add(sym.mul(y, z), c)
        return y
    if isinstance(xs, np.ndarray):
        return rewrap(np.frompyfunc(one, 1, 1)(asobj(xs)), xs, None)
    return one(xs)


def percentile(a, q, axis=None, *args, **kw):
    if args or kw:
        sym.unsupported('percentile with options')
    x = nd(a) if isinstance(a, np.ndarray) else np.array(a, dtype=object)
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    qs = [sym.num(v) for v in np.atleast_1d(np.array(q, dtype=object))]
    x = np.moveaxis(x, axis, -1)
    n = x.shape[-1]
    outs = []
    for v in qs:
        if isinstance(v, S) and not v.const:
            sym.unsupported('percentile of a symbolic fraction')
        pos = (v.sh if isinstance(v, S) else v) / 100.0 * (n - 1)
        lo = int(np.floor(pos))
        fr = pos - lo
        r = np.empty(x.shape[:-1], dtype=object)
        for idx in np.ndindex(*x.shape[:-1]):
            s = sorted(x[idx])
            r[idx] = s[lo] if fr == 0 else sym.add(s[lo], sym.mul(fr, sym.sub(s[lo + 1], s[lo])))
        outs.append(wrap(r) if r.ndim else r.item())
    return outs[0] if np.ndim(q) == 0 else wrap(np.array(outs, dtype=object))


def median(a, axis=None, *args, **kw):
    x = nd(a) if isinstance(a, np.ndarray) else np.array(a, dtype=object)
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    x = np.moveaxis(x, axis, -1)
    n = x.shape[-1]
    r = np.empty(x.shape[:-1], dtype=object)
    for idx in np.ndindex(*x.shape[:-1]):
        s = sorted(x[idx])
        r[idx] = s[n // 2] if n % 2 else sym.mul(0.5, sym.add(s[n // 2 - 1], s[n // 2]))
    return wrap(r) if r.ndim else r.item()


def clip(a, lo, hi, *args, **kw):
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r


def diff(a, n=1, axis=-1):
    x = nd(a)
    if x.ndim != 1 or n != 1:
        sym.unsupported('diff of this shape')
    return wrap(np.array([sym.sub(x[i + 1], x[i]) for i in range(len(x) - 1)] + [None], dtype=object)[:-1])


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return np.absolute(np.subtract(a, b)) <= np.add(atol, np.multiply(rtol, np.absolute(b)))


def real(x):
    if isinstance(x, (Base, SArr)):
        return x.real
    return np.real(x)


def imag(x):
    if isinstance(x, (Base, SArr)):
        return x.imag
    return np.imag(x)


FUNCS = {np.poly: poly, np.polyval: polyval, np.percentile: percentile, np.median: median, np.dot: matdot,
         np.clip: clip, np.diff: diff, np.isclose: isclose, np.allclose: lambda a, b, *x, **k: bool(np.all(isclose(a, b, *x, **k))),
         np.real: lambda x: x.real if isinstance(x, (Base, SArr)) else np.asarray(x).real,
         np.imag: lambda x: x.imag if isinstance(x, (Base, SArr)) else np.asarray(x).imag,
         np.mean: lambda a, axis=None, *x, **k: wrap(np.asarray(nd(a), dtype=object)).mean(axis=axis, **k),
         np.var: lambda a, axis=None, *x, **k: wrap(np.asarray(nd(a), dtype=object)).var(axis=axis, **k),
         np.std: lambda a, axis=None, *x, **k: wrap(np.asarray(nd(a), dtype=object)).std(axis=axis, **k)}
FUNCS[np.nanmean], FUNCS[np.nanvar], FUNCS[np.nanstd], FUNCS[np.nanmedian] = FUNCS[np.mean], FUNCS[np.var], FUNCS[np.std], median
FUNCS[np.quantile] = lambda a, q, axis=None, *x, **k: percentile(a, np.multiply(100.0, q), axis, *x, **k)
FUNCS[np.linalg.solve] = linsolve
FUNCS[np.linalg.inv] = lambda a: linsolve(a, eye(a.shape[0]))


# ------------------------------------------------------------------ creation functions
def kindof(dtype, default='f'):
    if dtype is None:
        return default
    return {'f': 'f', 'c': 'c', 'O': None}.get(np.dtype(dtype).kind, 'x')


def creator(real_f, value):
    def f(shape, dtype=None, *a, **k):
        kd = kindof(dtype)
        if kd == 'x':
            return real_f(shape, dtype, *a, **k)
        r = np.empty(shape, dtype=object)
        for idx in np.ndindex(*r.shape):
            r[idx] = value()
        r = r.view(SArr)
        r.kind = kd
        return r
    return f


def creator_like(real_f, value):
    def f(a, dtype=None, *x, **k):
        if dtype is None:
            if isinstance(a, SArr):
                kd = a.kind or (elem_kind(a) if a.size else 'f')
            elif isinstance(a, np.ndarray) and a.dtype.kind in 'iu':
                kd = 'i'
            elif isinstance(a, np.ndarray) and a.dtype.kind in 'fcO':
                kd = kindof(a.dtype)
            elif isinstance(a, np.ndarray):
                return real_f(a, *x, **k)
            else:
                return creator_like(real_f, value)(proxy.array(a), None, *x, **k)
        else:
            kd = kindof(dtype)
            if kd == 'x':
                return real_f(a, dtype, *x, **k)
        sh = np.shape(a)
        r = np.empty(sh, dtype=object)
        for idx in np.ndindex(*sh):
            v = value()
            r[idx] = v
        r = r.view(SMat if isinstance(a, SMat) else SArr)
        r.kind = kd
        return r
    return f


def conv(f):
    """array-making function: float and complex results become symbolic arrays"""
    def g(a, dtype=None, *x, **k):
        if isinstance(a, Base):
            r = np.empty((), dtype=object)
            r[()] = a
            return r.view(SArr)
        if isinstance(a, SArr):
            kd = kindof(dtype, a.kind)
            if kd == 'x':
                return a.astype(dtype)
            copy = f is np.array and k.get('copy', True)
            r = a.copy() if copy else a
            if isinstance(r, SMat) and f is not np.asanyarray:
                r = r.view(SArr)
            if dtype is not None and kd != r.kind:
                r = r.astype(dtype)
            return r
        if dtype is not None and kindof(dtype) == 'x':
            return f(a, dtype, *x, **k)
        r = f(a, *x, **k) if not isinstance(a, (list, tuple)) else tolist_array(a, f, x, k)
        if r.ndim == 0 and r.dtype.kind in 'fc':
            return r
        if r.dtype.kind in 'iu' and dtype is not None:
            r = r.astype(float)
        r = wrap(r, kindof(dtype, None))
        return r
    return g


def tolist_array(a, f, x, k):
    r = f(a, *x, **k)
    return r


def full(shape, v, dtype=None, *a, **k):
    if dtype is None and not isinstance(v, (Base, float, complex)) or kindof(dtype) == 'x':
        return np.full(shape, v, dtype, *a, **k)
    r = proxy.empty(shape, dtype or (complex if sym.iscx(v) else float))
    r[...] = v
    return r


def linspace(a, b, num=50, endpoint=True, **k):
    if k:
        sym.unsupported('linspace with options')
    a, b = sym.num(a), sym.num(b)
    div = (num - 1) if endpoint else num
    step = sym.div(sym.sub(b, a), float(div)) if div > 0 else 0.0
    r = np.empty(num, dtype=object)
    for i in range(num):
        r[i] = sym.add(a, sym.mul(float(i), step))
    if endpoint and num > 1:
        r[-1] = b
    return wrap(r, 'f')


def logspace(a, b, num=50, endpoint=True, base=10.0, **k):
    e = linspace(a, b, num, endpoint)
    lb = sym.rlog(sym.num(base))
    return wrap(np.frompyfunc(lambda x: sym.rexp(sym.mul(lb, x)), 1, 1)(nd(e)), 'f')


class UFn:
    """a unary numpy function that keeps plain floats exact"""
    def __init__(self, u):
        self.u = u

    def __call__(self, x, *a, **k):
        if isinstance(x, (float, int, complex)) and not a and not k:
            return ufunc_dispatch(self.u, '__call__', (x,), {})
        if isinstance(x, (list, tuple)):
            x = proxy.array(x)
        return self.u(x, *a, **k)

    def __getattr__(self, n):
        return getattr(self.u, n)


class Random:
    """draws come from the harness"""
    def __init__(self, vp):
        self.vp = vp

    def _many(self, one, size):
        if size is None:
            return one()
        r = np.empty(size, dtype=object)
        for idx in np.ndindex(*r.shape):
            r[idx] = one()
        return self.vp.floats(r)

    def _normal(self, mu, sd):
        z = self.vp.draw()
        return mu + sd * z

    def standard_normal(self, size=None):
        return self._many(lambda: self.vp.draw(), size)

    def randn(self, *shape):
        return self.standard_normal(shape or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if isinstance(loc, np.ndarray) or isinstance(scale, np.ndarray):
            sh = np.broadcast(np.asarray(loc), np.asarray(scale)).shape if size is None else size
            return loc + scale * self.standard_normal(sh) if sh != () else self._normal(np.asarray(loc).item(), np.asarray(scale).item())
        return self._many(lambda: self._normal(loc, scale), size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many(lambda: low + (high - low) * self.vp.draw01(), size)

    def random(self, size=None):
        return self.uniform(size=size)
    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.uniform(size=shape or None)

    def randint(self, low, high=None, size=None, dtype=int):
        if size is not None:
            sym.unsupported('array of random integers')
        if high is None:
            low, high = 0, low
        return self.vp.drawint(low, high)

    def random_integers(self, low, high=None, size=None):
        if size is not None:
            sym.unsupported('array of random integers')
        if high is None:
            low, high = 1, low
        return self.vp.drawint(low, high + 1)

    def choice(self, a, *x, **k):
        if x or k:
            sym.unsupported('choice with options')
        if isinstance(a, (int, np.integer)):
            return self.vp.drawint(0, int(a))
        return a[self.vp.drawint(0, len(a))]

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        sym.unsupported('random.%s' % n)


class Proxy(types.ModuleType):
    def __getattr__(self, n):
        return getattr(np, n)


proxy = Proxy('numpy')


def isscalar(x):
    return isinstance(x, Base) or np.isscalar(x)


def install(vp):
    """fill the proxy module"""
    p = proxy
    p.array, p.asarray, p.asanyarray, p.ascontiguousarray = conv(np.array), conv(np.asarray), conv(np.asanyarray), conv(np.asarray)
    p.zeros, p.zeros_like = creator(np.zeros, lambda: 0.0), creator_like(np.zeros_like, lambda: 0.0)
    p.ones, p.ones_like = creator(np.ones, lambda: 1.0), creator_like(np.ones_like, lambda: 1.0)
    p.empty = creator(np.empty, lambda: sym.sfresh('uninitialised'))
    p.empty_like = creator_like(np.empty_like, lambda: sym.sfresh('uninitialised'))
    p.full, p.linspace, p.logspace = full, linspace, logspace
    p.full_like = lambda a, v, dtype=None: full(np.shape(a), v, dtype)
    p.eye = p.identity = eye
    p.matrix = SMat
    p.asmatrix = p.mat = lambda a, dtype=None: a if isinstance(a, SMat) else SMat(a)
    p.isscalar = isscalar
    p.real, p.imag = real, imag
    p.poly, p.polyval = poly, polyval
    p.percentile, p.median = percentile, median
    p.arange = lambda *a, **k: wrap(np.arange(*a, **k)) if all(isinstance(x, (int, float, np.number)) for x in a) else sym.unsupported('arange of symbolic values')
    for u in (np.exp, np.log, np.sqrt, np.log10, np.log2, np.log1p, np.expm1, np.sin, np.cos):
        setattr(p, u.__name__, UFn(u))
    p.random = Random(vp)
    lin = Proxy('numpy.linalg')
    lin.__dict__['__getattr__'] = None
    lin = types.ModuleType('numpy.linalg')
    lin.__dict__.update({k: v for k, v in np.linalg.__dict__.items() if not k.startswith('__')})
    lin.solve = linsolve
    lin.inv = lambda a: linsolve(a, eye(a.shape[0]))
    p.linalg = lin
    return p


def adopt(mod, extra):
    """in a module of the code under test, numpy and the functions it imported by name become the stand-ins"""
    byid = {id(getattr(np, n)): getattr(proxy, n) for n in list(proxy.__dict__) if hasattr(np, n) and not n.startswith('__')}
    for n, v in list(mod.__dict__.items()):
        if v is np:
            setattr(mod, n, proxy)
        elif n.startswith('__'):
            continue
        elif id(v) in byid:
            setattr(mod, n, byid[id(v)])
        elif id(v) in extra:
            setattr(mod, n, extra[id(v)])
