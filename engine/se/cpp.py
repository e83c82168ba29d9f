"""Runs a C++ harness symbolically, path by path, and replays candidates natively."""
import os
import re
import subprocess
import tempfile
import time
from fractions import Fraction

from .alg import Budget, DivZero, Unsupported
from .core import Engine, Path, PathEnd, relholds, NEG

PRED = {'0': 'lt', '1': 'le', '2': 'eq', '3': 'ne'}


class CppRun:
    def __init__(self, sym, nat, cfg):
        self.sym, self.nat, self.cfg = sym, nat, cfg
        self.E = Engine(cfg)
        self.traces = []
        self.henv = dict(os.environ)
        for k, v in cfg['defs'].items():
            self.henv['H_' + k] = str(v)
        self.known = set(cfg.get('known', ()))

    def explore(self):
        E = self.E
        todo = ['']
        maxp = self.cfg.get('max_paths', 4000)
        while todo:
            if E.st.paths >= maxp:
                E.st.incomplete = 'path limit %d reached' % maxp
                break
            if E.timeleft() < 0:
                E.st.incomplete = 'time budget reached, %d prefixes left' % len(todo)
                break
            if sum(1 for q in E.pending if q['label'] not in self.known) >= self.cfg.get('max_pending', 6):
                E.st.incomplete = 'stopped after undischarged obligations'
                break
            pre = todo.pop()
            new = self.run_path(pre)
            todo.extend(reversed(new))
        return E

    def spawn(self, prefix, w, r):
        env = dict(self.henv, SYMRT_OUT=str(w), SYMRT_IN=str(r), SYMRT_PREFIX=prefix)
        return subprocess.Popen([self.sym], pass_fds=(w, r), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                stderr=subprocess.DEVNULL, preexec_fn=limits)

    def run_path(self, prefix):
        E = self.E
        db = E.db
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        p = self.spawn(prefix, w1, r2)
        os.close(w1)
        os.close(r2)
        inp = os.fdopen(r1, 'r')
        rep = os.fdopen(w2, 'w')
        P = Path(E)
        ids = []
        new = []
        taken = []
        ended = None
        st = E.st

        def reply(c):
            try:
                rep.write(c)
                rep.flush()
            except BrokenPipeError:
                pass
        try:
            for line in inp:
                f = line.split()
                op = f[0]
                if op == 'K':
                    ids.append(db.mk('K', Fraction(float.fromhex(f[1]))))
                elif op == 'V':
                    ids.append(db.mk('V', f[1]))
                elif op in ('+', '-', '*', '/', 'atan2', 'cexpr', 'cexpi'):
                    ids.append(db.mk(op, ids[int(f[1])], ids[int(f[2])]))
                elif op in ('n', 'exp', 'log', 'sin', 'cos'):
                    ids.append(db.mk(op, ids[int(f[1])]))
                elif op == 'sqrt':
                    ids.append(P.mk('sqrt', ids[int(f[1])]))
                elif op == 'B':
                    rel, a, b = PRED[f[1]], ids[int(f[2])], ids[int(f[3])]
                    st.branches += 1
                    if f[4] == '?':
                        if not P.alive and not P.stuck:
                            fs = P.feasible()
                            if fs is False:
                                P.vac = False
                                raise PathEnd()
                            P.stuck = not P.alive
                        opts = P.decide(rel, a, b)
                        t = opts[0]
                        for o in opts[1:]:
                            new.append(prefix + ''.join(taken) + str(o))
                        taken.append(str(t))
                        reply(str(t))
                    else:
                        t = int(f[4])
                    P.decisions += str(t)
                    P.take(rel, a, b, t)
                elif op == 'A':
                    P.assume(PRED[f[1]], ids[int(f[2])], ids[int(f[3])])
                elif op == 'C':
                    ok = f[2] == '1'
                    P.check_concrete(f[1], ok)
                    if not ok:
                        reply('X')
                        ended = 'fail'
                        break
                elif op == 'E':
                    P.check_eq(f[1], ids[int(f[2])], ids[int(f[3])])
                elif op == 'P':
                    P.check_rel(f[1], PRED[f[2]], ids[int(f[3])], ids[int(f[4])])
                elif op == 'O':
                    P.obs.append((f[1], ids[int(f[2])] if f[2][0] != '!' else float.fromhex(f[2][1:])))
                elif op == 'R':
                    if P.vac is None:
                        P.vac = P.feasible()
                    if P.vac:
                        st.reached.add(f[1])
                elif op == 'F':
                    st.functions.add(f[1])
                elif op == 'X':
                    ended = 'cut'
                    st.cut += 1
                    break
                elif op == 'U':
                    ended = 'unsupported'
                    st.unsupported.append(line[2:].strip())
                    break
                elif op == 'T':
                    ended = 'exception'
                    if P.feasible() is not False:
                        st.exceptions.append(line[2:].strip())
                        st.obligations += 1
                        P.fail('exception', None, why=self.excname(line))
                    break
                elif op == 'Q':
                    ended = 'done'
                    break
                if E.timeleft() < -5:
                    ended = 'budget'
                    break
        except PathEnd:
            ended = 'pruned'
            reply('X')
        except DivZero as e:
            # undefined over the reals on this whole path: the native run decides
            ended = 'undefined'
            st.obligations += 1
            if P.feasible() is not False:
                P.fail('undefined', None)
        except Unsupported as e:
            ended = 'unsupported'
            st.unsupported.append(str(e))
        finally:
            try:
                rep.close()
            except BrokenPipeError:
                pass
            inp.close()
            if ended is None:
                try:
                    p.wait(20)
                except subprocess.TimeoutExpired:
                    pass
            if p.poll() is None:
                p.kill()
            p.wait()
        if ended is None:
            # the symbolic process died: memory error or resource limit on this path
            st.obligations += 1
            if P.feasible() is not False:
                P.fail('crash', None)
        if ended in ('unsupported',) :
            pass
        if P.vac is False:
            st.pruned += 1
        elif P.checked and P.vac is None:
            st.novacuity.append(P.decisions[-40:])
        st.paths += 1
        st.nodes = len(db.nodes)
        if P.alive and P.obs and ended == 'done':
            self.traces.append((dict(E.pool[P.alive[0]].env), P.obs))
        return new


    # ---------------------------------------------------------------- native side
    def natcmd(self, cand):
        return [self.nat, cand]

    def native(self, envs, obs=False, label=None, tol=None):
        """run candidates natively -> list of (status, detail, observations)"""
        with tempfile.NamedTemporaryFile('w', suffix='.cand', delete=False) as f:
            for e in envs:
                f.write(' '.join('%s=%r' % (k, float(v)) for k, v in e.items()) + '\n')
        env = dict(self.henv)
        if obs:
            env['REPLAY_OBS'] = '1'
        if label:
            env['REPLAY_LABEL'] = label
        if tol:
            env['REPLAY_TOL'] = repr(tol)
        try:
            p = subprocess.run(self.natcmd(f.name), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env,
                               stdin=subprocess.DEVNULL, timeout=300)
            txt = p.stdout
        except subprocess.TimeoutExpired as e:
            txt = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
        finally:
            os.unlink(f.name)
        res = []
        for ln in txt.splitlines():
            w = ln.split()
            if not w:
                continue
            if w[0] == 'case':
                res.append(['none', '', []])
            elif w[0] in ('ok', 'cut', 'fail', 'crash') and res:
                res[-1][0] = w[0]
                res[-1][1] = ' '.join(w[1:])
            elif w[0] == 'obs' and res:
                res[-1][2].append((w[1], float(w[2])))
        return res

    def resolve(self):
        """replay undischarged obligations on the real code"""
        E = self.E
        done = {}
        for q in E.pending:
            if done.get(q['label']) == 'confirmed':
                continue
            got = self.resolve_one(q)
            if got:
                done[q['label']] = 'confirmed'
                E.violations.append(got)
            else:
                E.st.unresolved.append('%s%s' % (q['label'], ': ' + q['why'] if q['why'] else ''))

    def holds_exactly(self, q, env):
        """path condition and violated obligation at these inputs, evaluated with 60 digits"""
        import mpmath
        E = self.E
        with mpmath.workdps(60):
            memo = {}
            for rel, a, b in q['pc']:
                x, y = E.db.neval(a, env, memo, True), E.db.neval(b, env, memo, True)
                if x is None or y is None:
                    return False
                d = x - y
                if not {'lt': d < 0, 'le': d <= 0, 'eq': abs(d) < 1e-40, 'ne': d != 0}[rel]:
                    return False
            if q['ob'] is not None:
                rel, a, b = q['ob']
                x, y = E.db.neval(a, env, memo, True), E.db.neval(b, env, memo, True)
                if x is None or y is None:
                    return False
                if relholds(rel, x, y, 1e-5) is not False:
                    return False
        return True

    def excname(self, line):
        return None

    def sameexc(self, q, detail):
        return True

    def resolve_one(self, q):
        E = self.E
        names = E.db.varnames
        full = []
        for c in q['cands']:
            c = dict(c)
            for n in names:
                c.setdefault(n, 0.5)
            full.append(c)
        good = [c for c in full if self.holds_exactly(q, c)]
        if not good:
            good = self.search(q, full, self.cfg.get('search_s', 20))
        if not good:
            return None
        res = self.native(good[:60], label=q['label'] if q['label'] not in ('crash', 'exception', 'undefined') else None)
        for c, (status, detail, _) in zip(good, res):
            ok = status == 'fail' or (status == 'crash' and q['label'] in ('crash', 'exception'))
            if q['label'] == 'exception':
                ok = ok and (status == 'crash' or detail.startswith('exception')) and self.sameexc(q, detail)
            if ok:
                return dict(label=q['label'], inputs=c, native='%s %s' % (status, detail), decisions=q['decisions'])
        return None

    def search(self, q, start, budget):
        """find inputs on the path by local search (guidance only: every hit is checked exactly and replayed)"""
        import random
        E = self.E
        rng = random.Random(E.seed)
        cons = list(q['pc'])
        if q['ob'] is not None:
            cons.append((NEG[q['ob'][0]], q['ob'][1], q['ob'][2]))
        names = sorted({v for rel, a, b in cons for g in (a, b) for v in self.vars_of(g)})
        if not names:
            return [start[0]] if start else [{}]
        pool = start[:10] + [dict(s.env) for s in E.pool[:20]]
        for c in pool:
            for n in E.db.varnames:
                c.setdefault(n, rng.gauss(0, 1))

        def score(env):
            memo = {}
            n = 0
            for rel, a, b in cons:
                if relholds(rel, E.db.neval(a, env, memo), E.db.neval(b, env, memo), 1e-7) is True:
                    n += 1
            return n
        t0 = time.time()
        best = []
        sc = [(score(c), c) for c in pool]
        while time.time() - t0 < budget:
            k = rng.randrange(len(sc))
            s, c = sc[k]
            d = dict(c)
            for n in rng.sample(names, min(len(names), rng.choice([1, 1, 2, 3]))):
                r = rng.random()
                if r < 0.35:
                    d[n] = d[n] * rng.uniform(0.3, 3)
                elif r < 0.5:
                    d[n] = -d[n]
                elif r < 0.7:
                    d[n] = float(rng.randint(-3, 3))
                else:
                    d[n] = rng.choice([1, -1]) * 10 ** rng.uniform(-3, 3)
            s2 = score(d)
            if s2 >= s:
                sc[k] = (s2, d)
                if s2 == len(cons) and self.holds_exactly(q, d):
                    best.append(d)
                    if len(best) >= 20:
                        break
        return best

    def vars_of(self, g):
        seen, st, outv = set(), [g], []
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.E.db.nodes[x][0] == 'V':
                outv.append(self.E.db.nodes[x][1])
            st.extend(self.E.db.kids(x))
        return outv

    def selfcheck(self, limit):
        """translator validation: native values of observed quantities against the encoding"""
        E = self.E
        st = E.st
        bad = []
        tr = self.traces[:limit]
        if not tr:
            return bad
        res = self.native([e for e, _ in tr], obs=True)
        import mpmath
        for (env, obs), (status, detail, got) in zip(tr, res):
            if status == 'cut':
                continue
            st.traces += 1
            for (lab, g), (lab2, x) in zip(obs, got):
                if lab != lab2:
                    bad.append('%s: observation order differs (%s)' % (lab, lab2))
                    break
                v = E.db.neval(g, env, {}, True) if not isinstance(g, float) else g
                st.trace_values += 1
                if v is None:
                    continue
                v = float(v)
                if not (v == x or abs(v - x) <= 1e-5 * max(abs(v), abs(x)) + 1e-8 or (v != v and x != x)):
                    bad.append('%s: encoding %r, native %r at %s' % (lab, v, x, env))
                elif len(st.trace_samples) < 3:
                    st.trace_samples.append(dict(inputs={k: env[k] for k in list(env)[:12]}, observed=lab, encoding=v, native=x))
        return bad


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CPU, (600, 600))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
