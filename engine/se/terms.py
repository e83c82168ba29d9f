"""Hash-consed term DAG and its translation to rational functions of atoms."""
import math
import sys
from fractions import Fraction

import mpmath

from .alg import (Alg, Rat, Budget, Unsupported, DivZero, W, FM, ONE, atoms_of_mono, content, padd, pscale,
                  poly_sqrt)

sys.setrecursionlimit(100000)
sys.set_int_max_str_digits(0)

# node ops: K V R + - * / n exp log sin cos atan2 cexpr cexpi  (sqrt becomes R)


def small_primes(n):
    fs = {}
    d = 2
    while d * d <= n and d < 2000:
        while n % d == 0:
            fs[d] = fs.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        fs[n] = fs.get(n, 0) + 1
    return fs


class TermDB:
    def __init__(self):
        self.A = Alg()
        self.nodes = []
        self.cons = {}
        self.ratc = {}
        self.condc = {}
        self.groundc = {}
        self.varnames = []
        self.zero = self.mk('K', Fraction(0))
        self.one = self.mk('K', Fraction(1))

    def mk(self, op, *args):
        k = (op,) + args
        g = self.cons.get(k)
        if g is None:
            g = len(self.nodes)
            self.nodes.append(k)
            self.cons[k] = g
            if op == 'V':
                self.varnames.append(args[0])
        return g

    def const(self, q):
        return self.mk('K', Fraction(q))

    def kids(self, g):
        n = self.nodes[g]
        if n[0] in ('K', 'V'):
            return ()
        if n[0] == 'R':
            return (n[2],)
        return n[1:]

    def ground(self, g):
        """no input occurs in the term"""
        c = self.groundc
        stack = [g]
        while stack:
            x = stack[-1]
            if x in c:
                stack.pop()
                continue
            ks = self.kids(x)
            todo = [k for k in ks if k not in c]
            if todo:
                stack.extend(todo)
                continue
            c[x] = self.nodes[x][0] != 'V' and all(c[k] for k in ks)
            stack.pop()
        return c[g]

    # ---- definedness conditions of a term: set of (kind, gid)
    def conds(self, g):
        c = self.condc.get(g)
        if c is not None:
            return c
        stack = [g]
        while stack:
            x = stack[-1]
            if x in self.condc:
                stack.pop()
                continue
            ks = self.kids(x)
            todo = [k for k in ks if k not in self.condc]
            if todo:
                stack.extend(todo)
                continue
            s = frozenset()
            for k in ks:
                ck = self.condc[k]
                if ck:
                    s = s | ck if s else ck
            n = self.nodes[x]
            if n[0] == '/' and self.nodes[n[2]][0] != 'K':
                s = s | {('nz', n[2])}
            elif n[0] == 'R':
                s = s | {('ge0', n[2])}
            elif n[0] == 'log' and self.nodes[n[1]][0] != 'K':
                s = s | {('gt0', n[1])}
            self.condc[x] = s
            stack.pop()
        return self.condc[g]

    # ---- rational function of a term
    def rat(self, g):
        r = self.ratc.get(g)
        if r is not None:
            return r
        stack = [g]
        while stack:
            x = stack[-1]
            if x in self.ratc:
                stack.pop()
                continue
            n = self.nodes[x]
            op = n[0]
            if op == 'R':
                raise AssertionError('R node without rational value')
            todo = [k for k in self.kids(x) if k not in self.ratc]
            if todo:
                stack.extend(todo)
                continue
            self.ratc[x] = self._conv(n)
            stack.pop()
        return self.ratc[g]

    def _conv(self, n):
        A = self.A
        op = n[0]
        if op == 'K':
            return A.const(n[1])
        if op == 'V':
            return A.var(n[1])
        a = self.ratc[n[1]]
        if op == 'n':
            return -a
        if op in '+-*/':
            b = self.ratc[n[2]]
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if b.is_zero():
                raise DivZero('division by a term that is identically zero')
            return a / b
        z = A.const(0)
        if op == 'exp':
            return self.cexp(a, z)[0]
        if op == 'cos':
            return self.cexp(z, a)[0]
        if op == 'sin':
            return self.cexp(z, a)[1]
        if op == 'cexpr':
            return self.cexp(a, self.ratc[n[2]])[0]
        if op == 'cexpi':
            return self.cexp(a, self.ratc[n[2]])[1]
        if op == 'log':
            return self.log(a)
        if op == 'atan2':
            b = self.ratc[n[2]]
            return A.mono_rat(1 << (W * A.atom('atan2', (a, b), (a.key(), b.key()))))
        raise Unsupported('op ' + op)

    # ---- exponentials
    def atom_rat(self, i):
        return self.A.mono_rat(1 << (W * i))

    def cexp(self, a, b):
        A = self.A
        re, im = A.const(1), A.const(0)
        at, bt = a.terms(), b.terms()

        def cmul(x, y):
            nonlocal re, im
            if y.is_zero():
                re, im = re * x, im * x
            elif im.is_zero():
                re, im = re * x, re * y
            else:
                re, im = re * x - im * y, re * y + im * x

        # logarithm atoms in the exponent
        for k in list(at):
            m, den = k
            if den:
                continue
            ms = atoms_of_mono(m)
            if len(ms) == 1 and ms[0][1] == 1 and A.atoms[ms[0][0]][0] == 'log':
                c = at[k]
                kind, base = A.atoms[ms[0][0]][1]
                f = A.const(base) if kind == 'c' else Rat(A, A.factors[base], 1, ())
                if kind == 'f' and not self.sign_pos(f):
                    # log of |f|: keep as an atom unless the sign is known
                    pass
                if c.denominator == 1:
                    cmul(f.powi(int(c)), A.const(0))
                    del at[k]
                elif c.denominator == 2:
                    s = self.sqrt_atom(f)
                    cmul(s.powi(int(c * 2)), A.const(0))
                    del at[k]
        for e in A.ebasis:
            if not at and not bt:
                break
            ea, eb, la, lb, C, S = e
            n = at[la] / ea[la] if la in at else Fraction(0)
            if S is None:
                if n == 0 or any(at.get(k, 0) != n * v for k, v in ea.items()):
                    continue
                if n.denominator == 1 and abs(n) <= 64:
                    cmul(self.atom_rat(C).powi(int(n)), A.const(0))
                elif n.denominator == 2 and abs(n) <= 32:
                    h = self.sqrt_atom(self.atom_rat(C))
                    cmul(h.powi(int(2 * n)), A.const(0))
                else:
                    continue
                for k in ea:
                    del at[k]
            else:
                m = bt[lb] / eb[lb] if lb in bt else Fraction(0)
                if n == 0 and m == 0:
                    continue
                if any(at.get(k, 0) != n * v for k, v in ea.items()):
                    continue
                if any(bt.get(k, 0) != m * v for k, v in eb.items()):
                    continue
                p, q = (n + m) / 2, (n - m) / 2
                zr, zi = self.atom_rat(C), self.atom_rat(S)
                if not ea:
                    # unit modulus: integer powers
                    if m.denominator != 1 or abs(m) > 24:
                        continue
                    for _ in range(abs(int(m))):
                        cmul(zr, zi if m > 0 else -zi)
                elif p.denominator == 1 and q.denominator == 1 and abs(p) + abs(q) <= 24:
                    p, q = int(p), int(q)
                    k = min(p, q) if p > 0 and q > 0 else (max(p, q) if p < 0 and q < 0 else 0)
                    if k:
                        cmul((zr * zr + zi * zi).powi(k), A.const(0))
                        p, q = p - k, q - k
                    for _ in range(abs(p)):
                        if p > 0:
                            cmul(zr, zi)
                        else:
                            d = (zr * zr + zi * zi).inv()
                            cmul(zr * d, -zi * d)
                    for _ in range(abs(q)):
                        if q > 0:
                            cmul(zr, -zi)
                        else:
                            d = (zr * zr + zi * zi).inv()
                            cmul(zr * d, zi * d)
                elif n.denominator == 1 and m == 0 and abs(n) <= 24:
                    h = self.sqrt_atom(zr * zr + zi * zi)
                    cmul(h.powi(int(n)), A.const(0))
                else:
                    continue
                for k in ea:
                    at.pop(k, None)
                for k in eb:
                    bt.pop(k, None)
        if at or bt:
            for ga, gb in self.groups(at, bt):
                la = next(iter(ga)) if ga else None
                key = (frozenset(ga.items()), frozenset(gb.items()))
                if not gb:
                    k = 1
                    if len(ga) == 1 and 1 < abs(ga[la].numerator) <= 16:
                        # a whole multiple: the unit argument is the basis
                        k = abs(ga[la].numerator)
                        ga = {la: ga[la] / k}
                        key = (frozenset(ga.items()), frozenset())
                    C = A.atom('exp', (ga, gb), key)
                    A.ebasis.append((ga, gb, la, None, C, None))
                    cmul(self.atom_rat(C).powi(k), A.const(0))
                else:
                    lb = next(iter(gb))
                    C = A.atom('cexpr', (ga, gb), key)
                    S = A.atom('cexpi', (ga, gb), key)
                    if not ga:
                        # unit modulus
                        A.add_square_rel(S, A.const(1) - self.atom_rat(C) * self.atom_rat(C))
                    else:
                        for e in A.ebasis:
                            if e[5] is None and e[2] in ga:
                                n = ga[e[2]] / e[0][e[2]]
                                if n.denominator == 1 and {k: v * n for k, v in e[0].items()} == ga:
                                    E = self.atom_rat(e[4]).powi(2 * int(n))
                                    A.add_square_rel(S, E - self.atom_rat(C) * self.atom_rat(C))
                    A.ebasis.append((ga, gb, la, lb, C, S))
                    cmul(self.atom_rat(C), self.atom_rat(S))
        return re, im

    def sign_pos(self, f):
        return True

    def groups(self, at, bt):
        """split an exponent into independent basis arguments"""
        if not bt:
            return [({k: v}, {}) for k, v in sorted(at.items(), key=lambda t: repr(t[0]))]
        if not at:
            return [({}, {k: v}) for k, v in sorted(bt.items(), key=lambda t: repr(t[0]))]
        if len(at) == len(bt):
            ka = sorted(at)
            kb = sorted(bt)
            m0, d0 = ka[0]
            n0, f0 = kb[0]
            ok = True
            for (m, d), (n, f) in zip(ka, kb):
                if d != d0 or f != f0 or m - m0 != n - n0 or at[(m, d)] * bt[(n0, f0)] != at[(m0, d0)] * bt[(n, f)]:
                    ok = False
            if ok:
                return [({x: at[x]}, {y: bt[y]}) for x, y in zip(ka, kb)]
        return [(dict(at), dict(bt))]

    # ---- square roots
    def sqrt_atom(self, r):
        """nonnegative root of r as an atom with its square relation (r assumed >= 0)"""
        A = self.A
        q = r.sqrt_exact()
        if q is not None and q.is_const():
            return q
        i = A.atom_ix.get(('sqrt', r.key()))
        if i is None:
            i = A.atom('sqrt', r, r.key())
            A.add_square_rel(i, r)
        return self.atom_rat(i)

    def sqrt_rat(self, r, sign):
        """sign(poly) -> 1, -1 or None (solver verdict under the path condition)"""
        A = self.A
        if r.is_zero():
            return r
        q = r.sqrt_exact()
        if q is not None:
            if q.is_const():
                return q if q.const_value() >= 0 else -q
            s = self.rat_sign(q, sign)
            if s is not None:
                return q if s > 0 else -q
        c, fs = A.split(r.num)
        for f, e in r.den:
            fs[f] = fs.get(f, 0) - e
        fs = {f: e for f, e in fs.items() if e}
        out = A.const(1)
        signs = {}
        neg = c < 0
        for f, e in fs.items():
            s = sign(A.factors[f])
            if s is None:
                return self.sqrt_atom(r)
            signs[f] = s
            if e % 2 and s < 0:
                neg = not neg
        if neg:
            return self.sqrt_atom(r)
        # magnitude = |c|/r.c * prod |f|^e
        for f, e in sorted(fs.items()):
            af = Rat(A, A.factors[f], 1, ())
            if signs[f] < 0:
                af = -af
            h, l = divmod(e, 2)
            if h:
                out = out * af.powi(h)
            if l:
                out = out * self.sqrt_atom(af)
        for n, sg in ((abs(c), 1), (r.c, -1)):
            for pr, e in sorted(small_primes(n).items()):
                h, l = divmod(e, 2)
                if h:
                    out = out * A.const(Fraction(pr) ** (sg * h))
                if l:
                    s = self.sqrt_atom(A.const(pr))
                    out = out * (s if sg > 0 else s / A.const(pr))
        return out

    def rat_sign(self, q, sign):
        t = sign(q.num)
        if t is None:
            return None
        for f, e in q.den:
            if e % 2:
                s = sign(self.A.factors[f])
                if s is None:
                    return None
                t *= s
        return t

    # ---- logarithms: log of a positive quantity as a sum of log|factor|
    def log(self, r):
        A = self.A
        if r.is_zero():
            raise Unsupported('log of zero')
        c, fs = A.split(r.num)
        out = A.const(0)
        for n, sg in ((abs(c), 1), (r.c, -1)):
            for pr, e in small_primes(n).items():
                out = out + A.const(sg * e) * self.atom_rat(A.atom('log', ('c', pr)))
        for f, e in r.den:
            fs[f] = fs.get(f, 0) - e
        for f, e in fs.items():
            if e:
                out = out + A.const(e) * self.logfactor(f)
        return out

    def logfactor(self, f):
        A = self.A
        poly = A.factors[f]
        if len(poly) == 1:
            (m, c), = poly.items()
            ms = atoms_of_mono(m)
            if len(ms) == 1 and ms[0][1] == 1:
                kind, pay = A.atoms[ms[0][0]]
                if kind == 'exp':
                    return self.terms_rat(pay[0])
                if kind == 'sqrt':
                    return A.const(Fraction(1, 2)) * self.log(pay)
        return self.atom_rat(A.atom('log', ('f', f)))

    def terms_rat(self, ts):
        out = self.A.const(0)
        for (m, den), c in ts.items():
            out = out + Rat(self.A, {m: c.numerator}, c.denominator, den)
        return out

    def renorm(self, r):
        """split logarithms of factors that became divisible by later factors"""
        A = self.A
        used = set()
        for m in r.num:
            for i, _ in atoms_of_mono(m):
                if A.atoms[i][0] == 'log' and A.atoms[i][1][0] == 'f':
                    used.add(i)
        changed = False
        for i in used:
            f = A.atoms[i][1][1]
            poly = A.factors[f]
            if len(poly) < 2:
                continue
            parts = []
            cur = poly
            for g in range(len(A.factors)):
                if g == f or len(A.factors[g]) < 2 or len(A.factors[g]) > 2 * len(cur) + 8:
                    continue
                while len(cur) > 1 and A.maybe_divides(g, cur):
                    q = A.exact_div(cur, g)
                    if q is None:
                        break
                    parts.append(g)
                    cur = q
            if not parts:
                s = poly_sqrt(poly, A.guard)
                if s is None:
                    continue
                new = A.const(2) * self.log(Rat(A, s, 1, ()))
            else:
                new = self.log(Rat(A, cur, 1, ())) if not (len(cur) == 1 and 0 in cur and abs(cur[0]) == 1) else A.const(0)
                for g in parts:
                    new = new + self.logfactor(g)
            r = self.subst(r, i, new)
            changed = True
        return r, changed

    def subst(self, r, i, new):
        A = self.A
        sh = W * i
        groups = {}
        for m, c in r.num.items():
            e = (m >> sh) & FM
            groups.setdefault(e, {})[m - (e << sh)] = c
        out = A.const(0)
        for e, g in groups.items():
            out = out + Rat(A, g, 1, ()) * new.powi(e)
        return out * Rat(A, ONE, r.c, r.den)

    # ---- numeric evaluation
    def neval(self, g, env, memo=None, mp=False):
        """float (or mpf) value of a term; None if undefined"""
        if memo is None:
            memo = {}
        stack = [g]
        nodes = self.nodes
        M = mpmath if mp else math
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            n = nodes[x]
            op = n[0]
            if op == 'K':
                memo[x] = mpmath.mpf(n[1].numerator) / n[1].denominator if mp else float(n[1])
                stack.pop()
                continue
            if op == 'V':
                v = env.get(n[1])
                if v is None:
                    memo[x] = None
                elif isinstance(v, Fraction):
                    memo[x] = mpmath.mpf(v.numerator) / v.denominator if mp else float(v)
                else:
                    memo[x] = mpmath.mpf(v) if mp else float(v)
                stack.pop()
                continue
            ks = (n[2],) if op == 'R' else n[1:]
            todo = [k for k in ks if k not in memo]
            if todo:
                stack.extend(todo)
                continue
            vs = [memo[k] for k in ks]
            try:
                if any(v is None for v in vs):
                    r = None
                elif op == '+':
                    r = vs[0] + vs[1]
                elif op == '-':
                    r = vs[0] - vs[1]
                elif op == '*':
                    r = vs[0] * vs[1]
                elif op == '/':
                    r = vs[0] / vs[1]
                elif op == 'n':
                    r = -vs[0]
                elif op == 'R':
                    if vs[0] < 0:
                        r = None if vs[0] < -1e-12 else vs[0] * 0
                    else:
                        r = M.sqrt(vs[0])
                elif op == 'exp':
                    r = M.exp(vs[0])
                elif op == 'log':
                    r = M.log(vs[0]) if vs[0] > 0 else None
                elif op == 'sin':
                    r = M.sin(vs[0])
                elif op == 'cos':
                    r = M.cos(vs[0])
                elif op == 'atan2':
                    r = M.atan2(vs[0], vs[1])
                elif op == 'cexpr':
                    r = M.exp(vs[0]) * M.cos(vs[1])
                elif op == 'cexpi':
                    r = M.exp(vs[0]) * M.sin(vs[1])
                else:
                    r = None
                if r is not None and not mp and (r != r or r in (math.inf, -math.inf)):
                    r = None
            except (ZeroDivisionError, OverflowError, ValueError):
                r = None
            memo[x] = r
            stack.pop()
        return memo[g]

    def show(self, g, depth=6):
        n = self.nodes[g]
        op = n[0]
        if op == 'K':
            return str(n[1]) if n[1].denominator < 10**6 else repr(float(n[1]))
        if op == 'V':
            return n[1]
        if depth == 0:
            return '...'
        if op == 'R':
            return 'sqrt(%s)' % self.show(n[2], depth - 1)
        a = [self.show(k, depth - 1) for k in n[1:]]
        if op in '+-*/':
            return '(%s %s %s)' % (a[0], op, a[1])
        return '%s(%s)' % (op, ','.join(a))
