"""Path exploration and obligations on top of the term layer.

A *path* is one execution of the code under test with symbolic inputs.  Every comparison
of symbolic values is a branch: the solver decides which sides are feasible under the path
condition and the explorer runs all of them.  Obligations are decided for all inputs that
reach them: the negated obligation together with the path condition goes to z3.
"""
import math
import random
import threading
import time
from fractions import Fraction

import z3

from .alg import Alg, Rat, Budget, Unsupported, DivZero, W, FM, atoms_of_mono, padd, pscale
from .terms import TermDB

NEG = {'lt': 'ge', 'le': 'gt', 'eq': 'ne', 'ne': 'eq', 'ge': 'lt', 'gt': 'le'}
SWAP = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}


class PathEnd(Exception):
    """the current path is over (cut, infeasible, failed check)"""


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.obligations = 0
        self.by_normal_form = 0
        self.by_same_term = 0
        self.by_solver = 0
        self.by_concrete = 0
        self.unresolved = []
        self.queries = {'sat': 0, 'unsat': 0, 'unknown': 0}
        self.solver_s = 0.0
        self.nodes = 0
        self.functions = set()
        self.reached = set()
        self.labels = {}
        self.cut = 0
        self.pruned = 0
        self.unsupported = []
        self.exceptions = []
        self.witness_paths = 0
        self.solver_witness = 0
        self.novacuity = []
        self.traces = 0
        self.trace_values = 0
        self.trace_samples = []
        self.crosschecks = 0
        self.incomplete = None

    def merge(self, o):
        for k, v in o.__dict__.items():
            if k == 'queries':
                for a, b in v.items():
                    self.queries[a] += b
            elif k == 'labels':
                for a, b in v.items():
                    self.labels[a] = self.labels.get(a, 0) + b
            elif isinstance(v, set):
                self.__dict__[k] |= v
            elif isinstance(v, list):
                self.__dict__[k] += v
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                self.__dict__[k] += v
            elif k == 'incomplete' and v:
                self.incomplete = (self.incomplete + '; ' if self.incomplete else '') + v


class Sample:
    """a random input vector; values are created on first use"""

    def __init__(self, seed):
        self.seed = seed
        self.env = {}
        self.memo = {}
        self.rng = random.Random(seed)
        self.style = seed % 4

    def draw(self, name):
        r = random.Random('%d/%s/%d' % (self.seed, name, self.rng.randrange(1 << 30)))
        k = r.random()
        if self.style == 0:
            return float(Fraction(r.randint(-4, 4), r.choice([1, 1, 2])))
        if self.style == 1:
            return round(r.gauss(0, 1), 6)
        if self.style == 2:
            return (1 if k < 0.7 else -1) * round(math.exp(r.gauss(0, 1)), 6)
        return (1 if k < 0.6 else -1) * round(math.exp(r.gauss(0, 2.5)), 8)

    def ensure(self, names):
        for n in names:
            if n not in self.env:
                self.env[n] = self.draw(n)


def relholds(rel, a, b, slack=1e-9):
    """True/False/None(undetermined) for float values"""
    if a is None or b is None:
        return None
    d = a - b
    s = max(abs(a), abs(b))
    if d == 0:
        return rel in ('le', 'ge', 'eq')
    if abs(d) <= slack * s:
        return None
    if rel in ('lt', 'le'):
        return d < 0
    if rel in ('gt', 'ge'):
        return d > 0
    return rel == 'ne'


class Engine:
    """shared by all paths of one harness configuration"""

    def __init__(self, cfg):
        self.db = TermDB()
        self.groundmemo = {}
        self.A = self.db.A
        self.cfg = cfg
        self.st = Stats()
        self.z3v = {}
        self.z3axc = {}
        self.nsamples = cfg.get('samples', 48)
        self.seed = cfg.get('seed', 1)
        self.pool = [Sample(self.seed * 1000 + i) for i in range(self.nsamples)]
        self.deadline = time.time() + cfg.get('budget', 600)
        self.violations = []
        self.pending = []      # obligations to be replayed natively
        self.polycache = {}
        self.provedeq = set()
        self.cond_cache = {}
        self.lock = threading.Lock()

    def timeleft(self):
        return self.deadline - time.time()

    # ---------------------------------------------------------------- z3
    def zv(self, i):
        v = self.z3v.get(i)
        if v is None:
            kind, pay = self.A.atoms[i]
            v = z3.Real('%s_%d' % (pay if kind == 'var' else kind, i))
            self.z3v[i] = v
        return v

    def zpoly(self, p):
        k = frozenset(p.items())
        e = self.polycache.get(k)
        if e is None:
            if len(p) > 20000:
                raise Budget('polynomial too large for the solver')
            ts = []
            for m, c in p.items():
                fs = []
                for i, x in atoms_of_mono(m):
                    v = self.zv(i)
                    fs += [v] * x
                if not fs:
                    ts.append(z3.RealVal(c))
                elif c == 1:
                    ts.append(z3.Product(fs) if len(fs) > 1 else fs[0])
                else:
                    ts.append(z3.Product([z3.RealVal(c)] + fs))
            e = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
            self.polycache[k] = e
        return e

    def zfac(self, f):
        return self.zpoly(self.A.factors[f])

    def zrel(self, r, rel):
        """z3 formula for  r rel 0"""
        n = self.zpoly(r.num)
        if rel in ('lt', 'le', 'gt', 'ge'):
            for f, e in r.den:
                if e % 2:
                    n = n * self.zfac(f)
        zero = z3.RealVal(0)
        return {'lt': n < zero, 'le': n <= zero, 'gt': n > zero, 'ge': n >= zero, 'eq': n == zero, 'ne': n != zero}[rel]

    def rat_atoms(self, r):
        s = set()
        m0 = 0
        for m in r.num:
            m0 |= m
        for f, _ in r.den:
            for m in self.A.factors[f]:
                m0 |= m
        i = 0
        while m0:
            if m0 & FM:
                s.add(i)
            m0 >>= W
            i += 1
        return s

    def atom_axioms(self, i):
        """[(formula, atoms)]"""
        ax = self.z3axc.get(i)
        if ax is not None:
            return ax
        A = self.A
        kind, pay = A.atoms[i]
        out = []
        v = self.zv(i)
        zero, one = z3.RealVal(0), z3.RealVal(1)
        if kind == 'exp':
            arg = self.db.terms_rat(pay[0])
            out.append((v > zero, {i}))
            if arg.is_const():
                self._enclose(out, v, i, math.exp(float(arg.const_value())))
            else:
                ats = self.rat_atoms(arg) | {i}
                out.append((z3.And(z3.Implies(self.zrel(arg, 'lt'), v < one), z3.Implies(self.zrel(arg, 'gt'), v > one),
                                   z3.Implies(self.zrel(arg, 'eq'), v == one)), ats))
        elif kind in ('cexpr', 'cexpi'):
            key = (frozenset(pay[0].items()), frozenset(pay[1].items()))
            j = A.atom_ix[('cexpi' if kind == 'cexpr' else 'cexpr', key)]
            w = self.zv(j)
            n2 = v * v + w * w
            if not pay[0]:
                out.append((n2 == one, {i, j}))
            else:
                arg = self.db.terms_rat(pay[0])
                ats = self.rat_atoms(arg) | {i, j}
                out.append((z3.And(n2 > zero, z3.Implies(self.zrel(arg, 'lt'), n2 < one), z3.Implies(self.zrel(arg, 'gt'), n2 > one)), ats))
        elif kind == 'sqrt':
            out.append((v >= zero, {i}))
            r = pay
            d = z3.RealVal(r.c)
            for f, e in r.den:
                for _ in range(e):
                    d = d * self.zfac(f)
            out.append((v * v * d == self.zpoly(r.num), self.rat_atoms(r) | {i}))
        elif kind == 'log':
            if pay[0] == 'c':
                self._enclose(out, v, i, math.log(float(pay[1])))
            else:
                p = A.factors[pay[1]]
                if len(p) <= 4:
                    f = self.zpoly(p)
                    ats = self.rat_atoms(Rat(A, p, 1, ())) | {i}
                    out.append((z3.And(z3.Implies(f > one, v > zero), z3.Implies(z3.And(f > zero, f < one), v < zero),
                                       z3.Implies(f == one, v == zero)), ats))
        self.z3axc[i] = out
        return out

    def _enclose(self, out, v, i, x):
        q = Fraction(x)
        e = abs(q) * Fraction(1, 10 ** 12) + Fraction(1, 10 ** 15)
        out.append((z3.And(v > z3.RealVal(str(q - e)), v < z3.RealVal(str(q + e))), {i}))

    def solve(self, forms, timeout_ms, want_model=False):
        """forms: list of z3 formulas -> 'sat'/'unsat'/'unknown'"""
        if self.timeleft() < 1:
            return 'unknown', None
        t = time.time()
        s = z3.SolverFor('QF_NRA') if not self.cfg.get('z3default') else z3.Solver()
        s.set('timeout', int(min(timeout_ms, max(500, self.timeleft() * 1000))))
        tm = threading.Timer(timeout_ms / 1000.0 * 1.5 + 1, z3.main_ctx().interrupt)
        tm.daemon = True
        tm.start()
        try:
            for f in forms:
                s.add(f)
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        finally:
            tm.cancel()
        dt = time.time() - t
        self.st.solver_s += dt
        self.st.queries[r] = self.st.queries.get(r, 0) + 1
        m = s.model() if (r == 'sat' and want_model) else None
        return r, m


class Path:
    def __init__(self, eng):
        self.E = eng
        self.db = eng.db
        self.pc = []            # (rel, a, b): gids
        self.pcset = set()
        self.alive = list(range(len(eng.pool)))
        self.signs = {}
        self.checked = 0
        self.obs = []
        self.failed = []
        self.decisions = ''
        self.vac = None
        self.stuck = False      # no sample of this path could be found

    # ---------------------------------------------------------------- terms
    def mk(self, op, *args):
        db = self.db
        if op == 'sqrt':
            g = args[0]
            try:
                r = db.sqrt_rat(db.rat(g), self.sign)
            except DivZero:
                raise
            except (Budget, Unsupported) as e:
                raise Unsupported('sqrt: %s' % e)
            n = db.mk('R', r.key(), g)
            db.ratc[n] = r
            return n
        return db.mk(op, *args)

    # ---------------------------------------------------------------- samples
    def val(self, si, g):
        s = self.E.pool[si]
        s.ensure(self.db.varnames)
        return self.db.neval(g, s.env, s.memo)

    def filt(self, rel, a, b):
        """keep the samples satisfying the relation"""
        self.alive = [i for i in self.alive if relholds(rel, self.val(i, a), self.val(i, b)) is True]

    def repair(self, rel, a, b):
        """assumption at the harness level: move samples into the assumed region"""
        db = self.db
        na, nb = db.nodes[a], db.nodes[b]
        keep = []
        for i in self.alive:
            s = self.E.pool[i]
            s.ensure(db.varnames)
            ok = relholds(rel, self.val(i, a), self.val(i, b)) is True
            if not ok:
                vs = [n[1] for n in (na, nb) if n[0] == 'V']
                if not vs:
                    vs = self.leafvars(a) + self.leafvars(b)
                for _ in range(40):
                    v = s.rng.choice(vs) if vs else None
                    if v is None:
                        break
                    old = s.env[v]
                    if na[0] == 'V' and nb[0] == 'K' and rel in ('lt', 'le'):
                        s.env[v] = float(nb[1]) - abs(s.draw(v)) * s.rng.random()
                    elif nb[0] == 'V' and na[0] == 'K' and rel in ('lt', 'le'):
                        s.env[v] = float(na[1]) + abs(s.draw(v)) * s.rng.choice([1.0, 1.0, s.rng.random()])
                    else:
                        s.env[v] = s.draw(v)
                    s.memo = {}
                    ok = relholds(rel, self.val(i, a), self.val(i, b)) is True
                    if ok and all(relholds(*((p[0], self.val(i, p[1]), self.val(i, p[2])))) is True for p in self.pc):
                        break
                    ok = False
                    if s.rng.random() < 0.5:
                        s.env[v] = old
                        s.memo = {}
            if ok:
                keep.append(i)
        self.alive = keep

    def leafvars(self, g):
        out, seen, st = [], set(), [g]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            n = self.db.nodes[x]
            if n[0] == 'V':
                out.append(n[1])
            st.extend(self.db.kids(x))
            if len(seen) > 400:
                break
        return out

    # ---------------------------------------------------------------- constraints
    def crat(self, a, b):
        return self.db.rat(a) - self.db.rat(b)

    def cform(self, rel, a, b):
        """(formula, atoms, size) of a constraint, or None when too large"""
        k = (rel, a, b)
        sq = self.squares(rel, a, b)
        if sq is not None:
            k = k + ('sq',)
        c = self.E.cond_cache.get(k)
        if c is None:
            try:
                r = self.crat(a, b) if sq is None else sq
                sz = len(r.num) + sum(len(self.E.A.factors[f]) for f, e in r.den)
                if sz > 3000:
                    c = False
                else:
                    c = (self.E.zrel(r, rel), self.E.rat_atoms(r), sz)
            except (Budget, Unsupported):
                c = False
            self.E.cond_cache[k] = c
        return c or None

    def squares(self, rel, a, b):
        """a rel b for nonnegative square-root products: the equivalent relation of the squares"""
        if rel in ('eq', 'ne'):
            return None
        k = ('sq', a, b)
        if k in self.signs:
            return self.signs[k]
        res = None
        try:
            ra, rb = self.db.rat(a), self.db.rat(b)
            A = self.E.A
            n = 0
            for r in (ra, rb):
                if r.is_const():
                    if r.const_value() < 0:
                        n = -9
                    continue
                n += 1
                if len(r.num) != 1 or len(r.den) > 2:
                    n = -9
                    break
                (m, c), = r.num.items()
                ats = [i for i, _ in atoms_of_mono(m)]
                if c <= 0 or not ats or any(A.atoms[i][0] != 'sqrt' for i in ats):
                    n = -9
                    break
            if n > 0 and all(self.sign(A.factors[f]) == 1 for r in (ra, rb) for f, e in r.den if e % 2):
                res = ra * ra - rb * rb
        except (Budget, Unsupported):
            res = None
        self.signs[k] = res
        return res

    def context(self, atoms, cond_gids, maxsize, full=False):
        """formulas of the path condition, definedness conditions and atom axioms"""
        E = self.E
        cs = [(rel, a, b) for rel, a, b in self.pc]
        conds = set()
        for g in cond_gids:
            conds |= self.db.conds(g)
        for rel, a, b in self.pc:
            conds |= self.db.conds(a) | self.db.conds(b)
        z = self.db.zero
        for kind, g in conds:
            cs.append(({'nz': 'ne', 'ge0': 'ge', 'gt0': 'gt'}[kind], g, z))
        items = []
        for c in cs:
            f = self.cform(*c)
            if f is not None and (f[2] <= maxsize):
                items.append(f)
        items += self.monotone(list(cond_gids) + [g for c in self.pc for g in c[1:]], maxsize)
        atoms = set(atoms)
        # relevance closure on atoms
        used = [False] * len(items)
        seen_ax = set()
        forms = []
        changed = True
        while changed:
            changed = False
            for i in list(atoms):
                if i not in seen_ax:
                    seen_ax.add(i)
                    for f, ats in E.atom_axioms(i):
                        forms.append(f)
                        new = ats - atoms
                        if new:
                            atoms |= new
                    changed = True
            for k, (f, ats, sz) in enumerate(items):
                if not used[k] and (full or ats & atoms):
                    used[k] = True
                    forms.append(f)
                    if not ats <= atoms:
                        atoms |= ats
                    changed = True
        return forms

    def monotone(self, gids, maxsize):
        """order lemmas for the exponentials and logarithms that are compared with something:
        exp(a) is ordered against 1 as a against 0, exp(a) against u as a against log(u)"""
        db, E = self.db, self.E
        ex = sorted({g for g in gids if db.nodes[g][0] == 'exp'})
        lg = sorted({g for g in gids if db.nodes[g][0] == 'log'})
        if not ex or len(ex) * (1 + len(lg)) > 40:
            return []
        out = []
        pairs = [((db.nodes[x][1], db.zero), (x, db.one)) for x in ex]
        pairs += [((db.nodes[x][1], y), (x, db.nodes[y][1])) for x in ex for y in lg]
        for p, q in pairs:
            k = ('mono',) + p + q
            c = E.cond_cache.get(k)
            if c is None:
                try:
                    r, t = self.crat(*p), self.crat(*q)
                    c = (z3.And(E.zrel(r, 'lt') == E.zrel(t, 'lt'), E.zrel(r, 'gt') == E.zrel(t, 'gt')),
                         E.rat_atoms(r) | E.rat_atoms(t), len(r.num) + len(t.num))
                except (Budget, Unsupported, DivZero):
                    c = False
                E.cond_cache[k] = c
            if c and c[2] <= maxsize:
                out.append(c)
        return out

    def sign(self, poly):
        """weak sign of a polynomial under the path condition: 1 (>= 0), -1 (<= 0) or None"""
        key = frozenset(poly.items())
        if key in self.signs:
            return self.signs[key]
        r = Rat(self.E.A, poly, 1, ())
        s = self.sign_q(r)
        self.signs[key] = s
        return s

    def sign_q(self, r):
        E = self.E
        # cheap: all atoms known positive and coefficients of one sign
        pos = True
        for i in E.rat_atoms(r):
            if not self.atom_pos(i):
                pos = False
                break
        if pos:
            cs = list(r.num.values())
            if all(c > 0 for c in cs):
                return 1
            if all(c < 0 for c in cs):
                return -1
        # numeric guess
        got = set()
        for i in self.alive[:12]:
            v = self.polyval(r.num, i)
            if v is not None and v != 0:
                got.add(v > 0)
        if len(got) == 2:
            return None
        guess = list(got) or [True, False]
        for g in guess:
            try:
                forms = self.context(E.rat_atoms(r), [], 60)
                res, _ = E.solve(forms + [E.zrel(r, 'lt' if g else 'gt')], 3000)
            except Budget:
                return None
            if res == 'unsat':
                return 1 if g else -1
        return None

    def atom_pos(self, i):
        k = ('atom', i)
        if k in self.signs:
            return self.signs[k]
        kind, pay = self.E.A.atoms[i]
        res = False
        if kind == 'exp':
            res = True
        elif kind == 'var':
            g = self.db.cons.get(('V', pay))
            for rel, a, b in self.pc:
                if rel in ('lt', 'le') and b == g and self.db.nodes[a][0] == 'K' and self.db.nodes[a][1] >= 0:
                    res = True
        elif kind == 'sqrt':
            r = pay
            s = self.db.rat_sign(r, self.sign)
            res = s == 1
        if res:
            self.signs[k] = True
        return res

    def polyval(self, p, si):
        tot = 0.0
        cache = {}
        try:
            for m, c in p.items():
                t = float(c)
                for i, e in atoms_of_mono(m):
                    v = cache.get(i)
                    if v is None:
                        v = cache[i] = self.atomval(i, si)
                        if v is None:
                            return None
                    t *= v ** e
                tot += t
        except (OverflowError, ValueError):
            return None
        return tot

    def ratval(self, r, si):
        n = self.polyval(r.num, si)
        if n is None:
            return None
        d = float(r.c)
        for f, e in r.den:
            v = self.polyval(self.E.A.factors[f], si)
            if not v:
                return None
            d *= v ** e
        try:
            return n / d
        except ZeroDivisionError:
            return None

    def atomval(self, i, si):
        s = self.E.pool[si]
        k = ('atom', i)
        if k in s.memo:
            return s.memo[k]
        kind, pay = self.E.A.atoms[i]
        v = None
        try:
            if kind == 'var':
                s.ensure([pay])
                v = float(s.env[pay])
            elif kind in ('exp', 'cexpr', 'cexpi'):
                a = self.ratval(self.db.terms_rat(pay[0]), si)
                b = self.ratval(self.db.terms_rat(pay[1]), si)
                if a is not None and b is not None:
                    v = math.exp(a) * (1 if kind == 'exp' else math.cos(b) if kind == 'cexpr' else math.sin(b))
            elif kind == 'sqrt':
                a = self.ratval(pay, si)
                v = math.sqrt(a) if a is not None and a >= 0 else None
            elif kind == 'log':
                a = float(pay[1]) if pay[0] == 'c' else self.polyval(self.E.A.factors[pay[1]], si)
                v = math.log(abs(a)) if a else None
            elif kind == 'atan2':
                v = math.atan2(self.ratval(pay[0], si), self.ratval(pay[1], si))
        except (OverflowError, ValueError, TypeError):
            v = None
        s.memo[k] = v
        return v

    # ---------------------------------------------------------------- assume / branch
    def add(self, rel, a, b):
        if rel in ('gt', 'ge'):
            rel, a, b = SWAP[rel], b, a
        k = (rel, a, b)
        if k not in self.pcset:
            self.pcset.add(k)
            self.pc.append(k)

    def assume(self, rel, a, b):
        if rel in ('gt', 'ge'):
            rel, a, b = SWAP[rel], b, a
        self.repair(rel, a, b)
        self.add(rel, a, b)

    def constdiff(self, a, b):
        na, nb = self.db.nodes[a], self.db.nodes[b]
        if na[0] == 'K' and nb[0] == 'K':
            return na[1] - nb[1]
        return None

    def grounddiff(self, a, b):
        """sign of the difference of two terms without inputs, from 200 digits (None when it may be zero)"""
        db = self.db
        if not (db.ground(a) and db.ground(b)):
            return None
        import mpmath
        with mpmath.workdps(200):
            x, y = (db.neval(g, {}, self.E.groundmemo, mp=True) for g in (a, b))
            if x is None or y is None or not mpmath.isfinite(x) or not mpmath.isfinite(y):
                return None
            d = x - y
            if abs(d) <= mpmath.mpf(10) ** -100 * (1 + abs(x)):
                return None
            return 1 if d > 0 else -1

    def implied(self, rel, a, b):
        """True/False when the current path condition decides a rel b, else None; uses the solver"""
        E = self.E
        d = self.constdiff(a, b)
        if d is None:
            d = self.grounddiff(a, b)
        if d is None:
            try:
                r = self.crat(a, b)
                if r.is_zero():
                    d = Fraction(0)
                elif r.is_const():
                    d = r.const_value()
            except (Budget, Unsupported):
                r = None
        else:
            r = None
        if d is not None:
            return {'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0, 'eq': d == 0, 'ne': d != 0}[rel]
        sq = self.squares(rel, a, b)
        if sq is not None:
            r = sq
        sat_t = sat_f = False
        for i in self.alive:
            h = relholds(rel, self.val(i, a), self.val(i, b))
            if h is True:
                sat_t = True
            elif h is False:
                sat_f = True
            if sat_t and sat_f:
                return None
        if r is None:
            return None
        if sat_t != sat_f and self.mutate(rel, a, b, sat_f):
            return None
        if not sat_f and self.unsat_with(NEG[rel], a, b, r):
            return True
        if not sat_t and self.unsat_with(rel, a, b, r):
            return False
        return None

    def mutate(self, rel, a, b, truth):
        """input compared with something else: try a sample of this path with the input on the other side"""
        na, nb = self.db.nodes[a], self.db.nodes[b]
        if na[0] == 'V' and nb[0] != 'V':
            v, o = na[1], b
        elif na[0] != 'V' and nb[0] == 'V':
            v, o = nb[1], a
        else:
            return False
        for i in self.alive[:3 if self.db.nodes[o][0] != 'K' else 1]:
            c = self.val(i, o)
            if c is None:
                continue
            c = float(c)
            n = len(self.alive)
            for x in (c - 1, c + 1, c / 2, (c + 1) / 2):
                env = dict(self.E.pool[i].env)
                env[v] = x
                if relholds(rel, *((x, c) if na[0] == 'V' else (c, x))) is truth:
                    self.adopt(env)
                    if len(self.alive) > n and relholds(rel, self.val(self.alive[-1], a), self.val(self.alive[-1], b)) is truth:
                        return True
        return False

    def unsat_with(self, rel, a, b, r, tmo=None):
        E = self.E
        tmo = tmo or E.cfg.get('branch_ms', 3000)
        try:
            f = E.zrel(r, rel)
            ats = E.rat_atoms(r)
            for full, ms in ((False, 30), (True, 400)):
                forms = self.context(ats, [a, b], ms, full)
                res, m = E.solve(forms + [f], tmo, full)
                if res == 'unsat':
                    return True
                if res == 'sat' and full:
                    self.adopt(self.model_env(m))
                    return False
        except (Budget, Unsupported):
            pass
        return False

    def decide(self, rel, a, b):
        """feasible truth values of a rel b on this path"""
        v = self.implied(rel, a, b)
        if v is True:
            return [1]
        if v is False:
            return [0]
        nt = sum(1 for i in self.alive if relholds(rel, self.val(i, a), self.val(i, b)) is True)
        return [1, 0] if nt * 2 >= len(self.alive) else [0, 1]

    def take(self, rel, a, b, truth):
        rr = rel if truth else NEG[rel]
        self.filt(rr, a, b)
        self.add(rr, a, b)

    # ---------------------------------------------------------------- vacuity
    def feasible(self):
        """is the path condition satisfiable?  True / False / None"""
        E = self.E
        if self.alive:
            E.st.witness_paths += 1
            return True
        try:
            forms = self.context([], [], 2000, True)
            res, m = E.solve(forms, E.cfg.get('vac_ms', 5000), True)
        except Budget:
            return None
        if res == 'unsat':
            return False
        if res == 'sat':
            E.st.solver_witness += 1
            env = self.model_env(m)
            self.adopt(env)
            return True
        return None

    def model_env(self, m):
        env = {}
        for i, (kind, pay) in enumerate(self.E.A.atoms):
            if kind == 'var' and i in self.E.z3v:
                v = m.eval(self.E.z3v[i])
                try:
                    if z3.is_rational_value(v):
                        env[pay] = float(v.as_fraction())
                    elif z3.is_algebraic_value(v):
                        env[pay] = float(v.approx(20).as_fraction())
                except Exception:
                    pass
        return env

    def adopt(self, env):
        """add a model as a sample when it satisfies the path numerically"""
        s = Sample(self.E.seed * 777 + len(self.E.pool))
        s.env.update(env)
        self.E.pool.append(s)
        i = len(self.E.pool) - 1
        if all(relholds(rel, self.val(i, a), self.val(i, b), 0) for rel, a, b in self.pc):
            self.alive.append(i)

    # ---------------------------------------------------------------- obligations
    def begin(self, label):
        st = self.E.st
        st.obligations += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        self.checked += 1
        if self.vac is None:
            self.vac = self.feasible()
        return self.vac

    def check_concrete(self, label, ok):
        """obligation whose truth is already concrete on this path"""
        v = self.begin(label)
        if ok:
            self.E.st.by_concrete += 1
            return True
        if v is False or self.feasible() is False:
            self.E.st.by_solver += 1
            self.E.st.pruned += 1
            raise PathEnd('infeasible')
        self.fail(label, None)
        return False

    def check_eq(self, label, a, b):
        self.begin(label)
        E = self.E
        if a == b or (a, b) in E.provedeq:
            E.st.by_same_term += 1
            return True
        try:
            r = self.crat(a, b)
            for _ in range(4):
                r, ch = self.db.renorm(r)
                if not ch:
                    break
        except (Budget, Unsupported) as e:
            return self.hard(label, 'eq', a, b, str(e))
        if r.is_zero():
            self.crosscheck(label, a, b)
            if self.zconfirm(label, a, b):
                E.st.by_solver += 1
            else:
                E.st.by_normal_form += 1
            E.provedeq.add((a, b))
            return True
        # not an identity: maybe implied by the path condition
        if not self.visible('eq', a, b):
            if self.unsat_with('ne', a, b, r, E.cfg.get('check_ms', 10000)):
                E.st.by_solver += 1
                return True
        return self.fail(label, ('eq', a, b), r)

    def check_rel(self, label, rel, a, b):
        self.begin(label)
        E = self.E
        try:
            r = self.crat(a, b)
        except (Budget, Unsupported) as e:
            return self.hard(label, rel, a, b, str(e))
        if r.is_const() or r.is_zero():
            d = r.const_value()
            if {'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0, 'eq': d == 0, 'ne': d != 0}[rel]:
                E.st.by_normal_form += 1
                return True
        elif not self.visible(rel, a, b):
            if self.unsat_with(NEG[rel], a, b, r, E.cfg.get('check_ms', 10000)):
                E.st.by_solver += 1
                return True
        return self.fail(label, (rel, a, b), r)

    def zconfirm(self, label, a, b):
        """z3 decides the cross-multiplied equation of the two sides (when it is of moderate size)"""
        E = self.E
        ra, rb = self.db.rat(a), self.db.rat(b)
        size = len(ra.num) + len(rb.num) + sum(len(E.A.factors[f]) for r in (ra, rb) for f, _ in r.den)
        if size > E.cfg.get('zconfirm_terms', 1200):
            return False

        def den(r):
            d = [z3.RealVal(r.c)]
            for f, e in r.den:
                d += [E.zfac(f)] * e
            return z3.Product(d)
        lhs, rhs = E.zpoly(ra.num) * den(rb), E.zpoly(rb.num) * den(ra)
        forms = []
        for i in E.rat_atoms(ra) | E.rat_atoms(rb):
            if E.A.atoms[i][0] in ('sqrt', 'cexpr', 'cexpi'):
                forms += [f for f, _ in E.atom_axioms(i)]
        res, _ = E.solve(forms + [lhs != rhs], E.cfg.get('zconfirm_ms', 2000))
        if res == 'sat':
            if self.logs_only(ra, rb):
                return False
            raise RuntimeError('solver disagrees with the normal form at ' + label)
        return res == 'unsat'

    def logs_only(self, ra, rb):
        return any(self.E.A.atoms[i][0] == 'log' for i in self.E.rat_atoms(ra) | self.E.rat_atoms(rb))

    def visible(self, rel, a, b):
        """does some sample of this path show the obligation violated?"""
        for i in self.alive:
            if relholds(rel, self.val(i, a), self.val(i, b), 1e-7) is False:
                return True
        return False

    def crosscheck(self, label, a, b):
        """the algebra is checked against direct numeric evaluation of both terms"""
        n = 0
        for i in self.alive[:4]:
            x, y = self.val(i, a), self.val(i, b)
            if x is None or y is None:
                continue
            n += 1
            if abs(x - y) > 1e-5 * (abs(x) + abs(y)) + 1e-7:
                env = self.E.pool[i].env
                x = self.db.neval(a, env, {}, True)
                y = self.db.neval(b, env, {}, True)
                if x is None or y is None:
                    continue
                import mpmath
                with mpmath.workdps(400):
                    x = self.db.neval(a, env, {}, True)
                    y = self.db.neval(b, env, {}, True)
                    if abs(x - y) > mpmath.mpf(10) ** -30 * (1 + abs(x)):
                        raise RuntimeError('encoding self-check failed at %s: %s vs %s' % (label, x, y))
        self.E.st.crosschecks += n

    def hard(self, label, rel, a, b, why):
        """the obligation could not be put in solver form: look for a counterexample, else unresolved"""
        return self.fail(label, (rel, a, b), None, why)

    def fail(self, label, ob, r=None, why=None):
        """obligation not discharged: collect candidate inputs for native replay"""
        E = self.E
        cands = []
        model = None
        if r is not None and ob is not None:
            try:
                f = E.zrel(r, NEG[ob[0]])
                forms = self.context(E.rat_atoms(r), [ob[1], ob[2]], 400, True)
                res, m = E.solve(forms + [f], E.cfg.get('model_ms', 5000), True)
                if res == 'unsat':
                    E.st.by_solver += 1
                    return True
                if res == 'sat':
                    model = self.model_env(m)
                    cands.append(model)
            except (Budget, Unsupported):
                pass
        for i in self.alive:
            s = E.pool[i]
            if ob is None or relholds(ob[0], self.val(i, ob[1]), self.val(i, ob[2]), 1e-7) is False:
                cands.append(dict(s.env))
            if len(cands) > 40:
                break
        if model:
            # the model's inputs, with inputs it leaves free filled in from path samples
            for i in self.alive[:10]:
                e = dict(E.pool[i].env)
                e.update(model)
                cands.append(e)
        E.pending.append(dict(label=label, cands=cands, pc=list(self.pc), ob=ob, why=why, alive=len(self.alive),
                              decisions=self.decisions, fns=None))
        return False
