#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> : decide one property on /repo's current working tree."""
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import threading
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)
from se import build                      # noqa: E402
from se.core import Stats                 # noqa: E402
from registry import CHECKS, ASSUME       # noqa: E402

T0 = time.time()


def known_findings(prop):
    """lines 'known: property=P label=L text' of the committed file"""
    out = {}
    try:
        with open(os.path.join(ROOT, 'known_findings.txt')) as f:
            for ln in f:
                m = re.match(r'known: property=(\S+) label=(\S+) (.*)', ln.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


def run_cpp(cfg, q):
    from se.cpp import CppRun
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    try:
        r = CppRun(cfg['sym'], cfg['nat'], cfg)
        r.explore()
        bad = r.selfcheck(cfg.get('selfcheck', 20))
        r.resolve()
        q.put((cfg['name'], r.E.st, r.E.violations, bad, None))
    except BaseException:
        q.put((cfg['name'], None, [], [], traceback.format_exc()[-3000:]))


def run_py(cfg, q):
    from se.py import PyRun
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    try:
        r = PyRun(cfg)
        r.explore()
        bad = r.selfcheck(cfg.get('selfcheck', 20))
        r.resolve()
        q.put((cfg['name'], r.E.st, r.E.violations, bad, None))
    except BaseException:
        q.put((cfg['name'], None, [], [], traceback.format_exc()[-3000:]))


def demangle(names):
    if not names:
        return []
    p = subprocess.run(['c++filt'], input='\n'.join(sorted(names)), stdout=subprocess.PIPE, text=True)
    return sorted(set(p.stdout.split('\n')))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = CHECKS[prop]
    known = known_findings(prop)
    limit = 780 if tier == 'quick' else 850
    cfgs = []
    for c in spec['configs']:
        if c.get('tier', 'quick') == 'thorough' and tier == 'quick':
            continue
        if c.get('tier') == 'quickonly' and tier != 'quick':
            continue
        c = dict(c)
        c['seed'] = seed
        c['known'] = list(known)
        c.setdefault('defs', {})
        c.setdefault('name', c.get('cpp', c.get('py', '?')) + ''.join(' %s=%s' % kv for kv in sorted(c['defs'].items())))
        if 'py' in c:
            c['nat'] = '/opt/vp/venv/bin/python -B engine/py/rt.py native engine/harness/' + c['py']
        c.setdefault('budget', 240 if tier == 'quick' else 600)
        cfgs.append(c)
    only = os.environ.get('VERIF_ONLY')
    if only:
        cfgs = [c for c in cfgs if only in c['name']]
    # ---- build
    error = None
    try:
        if any('cpp' in c for c in cfgs):
            common = build.build_common()
            import concurrent.futures
            with concurrent.futures.ThreadPoolExecutor(max_workers=max(1, (os.cpu_count() or 2) // 2)) as ex:
                js = {f: ex.submit(build.build_harness, common, f) for f in sorted({c['cpp'] for c in cfgs if 'cpp' in c})}
                for c in cfgs:
                    if 'cpp' in c:
                        c['sym'], c['nat'] = js[c['cpp']].result()
    except build.BuildError as e:
        print('check error: build failed\n%s' % e)
        sys.exit(2)
    tb = time.time() - T0
    # ---- run
    ctx = mp.get_context('fork')
    results = {}
    running = []
    pending = list(cfgs)
    found = None
    ncpu = max(1, min(int(os.environ.get('VERIF_JOBS', '8')), os.cpu_count() or 1))
    while pending or running:
        if found and pending:
            for c in pending:
                results[c['name']] = ('skipped after a violation',)
            pending = []
        while pending and len(running) < ncpu:
            c = pending.pop(0)
            left = limit - (time.time() - T0)
            if left < 15:
                results[c['name']] = ('late',)
                continue
            c['budget'] = min(c['budget'], left - 10)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=run_cpp if 'cpp' in c else run_py, args=(c, q))
            p.start()
            running.append((c, p, q, time.time()))
        time.sleep(0.02)
        still = []
        for c, p, q, t in running:
            if not q.empty():
                results[c['name']] = q.get() + (time.time() - t,)
                if found is None and any(v['label'] not in known for v in results[c['name']][2]):
                    found = time.time()        # violated: do not start the rest
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive() and q.empty():
                results[c['name']] = ('dead',)
            elif time.time() - t > c['budget'] + 90 or time.time() - T0 > limit + 40 or (found and time.time() - found > 20):
                p.kill()
                results[c['name']] = ('killed',)
            else:
                still.append((c, p, q, t))
        running = still
    # ---- collect
    tot = Stats()
    viol = []
    errs = []
    per = []
    for c in cfgs:
        r = results.get(c['name'], ('none',))
        if len(r) == 1:
            tot.unresolved.append('%s: not finished (%s)' % (c['name'], r[0]))
            per.append(dict(config=c['name'], status=r[0], bounds=c.get('bounds', '')))
            continue
        name, st, vs, bad, tb_, sec = r
        if tb_:
            errs.append('%s: %s' % (name, tb_))
            continue
        tot.merge(st)
        for b in bad:
            errs.append('%s: encoding differs from the native run: %s' % (name, b))
        for v in vs:
            v['config'] = c
            viol.append(v)
        want = set(c.get('reach', ()))
        miss = sorted(want - st.reached)
        per.append(dict(config=name, bounds=c.get('bounds', ''), paths=st.paths, obligations=st.obligations, normal_form=st.by_normal_form,
                        solver=st.by_solver, same=st.by_same_term, concrete=st.by_concrete, unresolved=len(st.unresolved), queries=st.queries,
                        solver_s=round(st.solver_s, 2), wall_s=round(sec, 2), terms=st.nodes, reached=sorted(st.reached), not_reached=miss,
                        incomplete=st.incomplete, unsupported=sorted(set(st.unsupported))[:5], cut_paths=st.cut, pruned=st.pruned,
                        unresolved_list=st.unresolved[:10], no_vacuity_witness=len(st.novacuity)))
        if not st.obligations:
            tot.unresolved.append('%s: no obligation reached' % name)
    # ---- report
    newv = 0
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    seen = set()
    for v in viol:
        key = v['label']
        if key in known:
            if key not in seen:
                print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
            seen.add(key)
            continue
        newv += 1
        path = os.path.join(ROOT, 'evidence', 'replay', '%s-%d.json' % (prop, newv))
        c = v['config']
        with open(path, 'w') as f:
            json.dump(dict(property=prop, harness=c.get('cpp') or c.get('py'), config=c['name'], obligation=v['label'], inputs=v['inputs'],
                           native=v['native'], path=v['decisions'],
                           how='%s %s <file with the line: %s>' % (' '.join('H_%s=%s' % kv for kv in c['defs'].items()), c.get('nat', ''),
                                                                ' '.join('%s=%r' % kv for kv in v['inputs'].items()))), f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  obligation %s in %s: %s' % (v['label'], c['name'], v['native']))
    discharged = tot.by_normal_form + tot.by_solver + tot.by_concrete + tot.by_same_term
    fns = demangle(tot.functions)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'model_checking'),
              coverage=dict(states=tot.paths, transitions=tot.branches, traces_validated_against_impl=tot.traces,
                            samples=tot.trace_samples[:4] or [dict(labels=dict(list(tot.labels.items())[:10]))],
                            explanation=spec['what'],
                            obligations=tot.obligations, discharged=discharged,
                            discharged_by=dict(identity_after_normalisation=tot.by_normal_form, z3_unsat=tot.by_solver, same_term_or_proved_before=tot.by_same_term, concrete_on_path=tot.by_concrete),
                            unresolved=tot.unresolved[:20], unresolved_count=len(tot.unresolved),
                            solver_queries=tot.queries, solver_s=round(tot.solver_s, 2), build_s=round(tb, 2),
                            functions_encoded=fns, functions_encoded_count=len(fns), obligations_by_label=tot.labels,
                            numeric_crosschecks=tot.crosschecks, trace_values_compared=tot.trace_values,
                            vacuity=dict(paths_with_concrete_witness=tot.witness_paths, paths_with_solver_witness=tot.solver_witness,
                                         paths_without=len(tot.novacuity)),
                            unsupported_paths=len(tot.unsupported), configs=per,
                            outside_bounds=spec.get('outside', '')),
              assumptions=ASSUME + spec.get('assume', []), wall_s=round(time.time() - T0, 2), violations=newv)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d paths, %d obligations, %d discharged (%d z3, %d identity, %d same, %d concrete), %d unresolved, %d violations, %d known, %.1fs (solver %.1fs)' % (
        prop, tier, tot.paths, tot.obligations, discharged, tot.by_solver, tot.by_normal_form, tot.by_same_term, tot.by_concrete, len(tot.unresolved), newv,
        len(seen), time.time() - T0, tot.solver_s))
    if os.environ.get('VERIF_DETAIL'):
        print(json.dumps(per, indent=1))
    for e in errs:
        print('check error: ' + e)
    if newv:
        sys.exit(1)
    if errs:
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
