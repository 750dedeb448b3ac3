"""Run the cases of one property in parallel, report, write evidence."""
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _child(conn, prop, case, fn, params, seed, budget):
    from . import harness as H
    try:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (int(12e9), int(12e9)))
        except Exception:
            pass
        t0 = time.time()
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        r = H.run_case(prop, case, fn, params, seed, deadline=t0 + budget)
        r.wall = time.time() - t0
        conn.send(r)
    except BaseException as e:
        r = H.Result()
        r.errors.append('%s: %s: %s\n%s' % (case, type(e).__name__, e, traceback.format_exc()[-3000:]))
        r.counts, r.stats, r.encoded, r.native, r.reasons, r.wall = {}, {}, {}, {}, {}, 0.0
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_all(prop, cases, seed, jobs, budget):
    ctx = mp.get_context('fork')
    todo = list(cases)
    todo.sort(key=lambda c: -c.get('cost', 1))
    live = {}
    results = {}
    while todo or live:
        while todo and len(live) < jobs:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, prop, c['name'], c['fn'], c['params'], seed, c.get('budget', budget)))
            p.start()
            b.close()
            live[c['name']] = (p, a, time.time(), c.get('budget', budget))
        mp.connection.wait([a for _, a, _, _ in live.values()], timeout=2)
        for name, (p, a, t0, bud) in list(live.items()):
            r = None
            dead = not p.is_alive()     # before polling: the last thing a worker does is to send its result
            if a.poll():
                try:
                    r = a.recv()
                except (EOFError, OSError):
                    r = None
                p.join()
            elif dead:
                p.join()
            elif time.time() - t0 > bud + 60:
                p.kill()
                p.join()
            else:
                continue
            if r is None:
                from . import harness as H
                r = H.Result()
                r.errors.append('%s: no answer (killed or out of memory)' % name)
                r.counts, r.stats, r.encoded, r.native, r.reasons, r.wall = {}, {}, {}, {}, {}, time.time() - t0
            results[name] = r
            a.close()
            del live[name]
    return results


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def main(argv):
    import multiprocessing.connection  # noqa
    t0 = time.time()
    verbose = '-v' in argv
    only = None
    for a in argv:
        if a.startswith('--only='):
            only = a[7:]
    prop = [a for a in argv if not a.startswith('-')][0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in argv:
        if a.startswith('--tier='):
            tier = a[7:]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.environ['VERIF_TIER'] = tier
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from . import harness as H
    from . import interp as I
    repo = H.REPO
    sys.path.insert(0, repo)
    I.ROOTS[:] = [os.path.join(repo, 'lom') + os.sep]
    mod = importlib.import_module('props.' + prop)
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if only in c['name']]
    for a in argv:
        if a.startswith('--replay='):
            return replay(a[9:], cases)
    names = [c['name'] for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    budget = getattr(mod, 'BUDGET', {'quick': 240, 'thorough': 780})[tier]
    jobs = int(os.environ.get('SX_JOBS', '8'))
    results = run_all(prop, cases, seed, jobs, budget)
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    viol, errors, kf = [], [], {}
    for c in cases:
        r = results[c['name']]
        errors.extend(r.errors)
        for label, rep in r.violations:
            k = match_known(known, c['name'], label, rep)
            if k is not None:
                kf.setdefault(k['id'], []).append(rep)
            else:
                viol.append((label, rep))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for k in known:
        if k['id'] in kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for i, (label, rep) in enumerate(viol[:20]):
        path = os.path.join(rdir, '%s-%d.json' % (prop, i))
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  case %s: %s%s' % (rep['case'], label, ' (%s)' % rep['exception'] if rep['exception'] else ''))
    for e in errors:
        print('ERROR ' + e, file=sys.stderr)
    if verbose:
        for c in cases:
            r = results[c['name']]
            print('%-40s %6.1fs paths=%d obl=%d valid=%d %s %s' % (c['name'], r.wall, r.paths, r.obligations, r.validated,
                                                                   r.counts, {k: round(v, 1) for k, v in r.stats.items()}))
            if r.reasons:
                print('      forks: %s' % r.reasons)
    write_evidence(prop, tier, seed, mod, cases, results, viol, kf, errors, time.time() - t0)
    if viol:
        sys.stdout.flush()
        return 1
    if errors:
        return 2
    print('%s: held on everything explored (%d cases, %d paths, %d obligations, %.1fs)' % (
        prop, len(cases), sum(r.paths for r in results.values()), sum(r.obligations for r in results.values()),
        time.time() - t0))
    return 0


def match_known(known, case, label, rep):
    import fnmatch
    for k in known:
        if fnmatch.fnmatch(case, k['case']) and fnmatch.fnmatch(label, k['label']):
            return k
    return None


def replay(path, cases):
    from . import harness as H
    with open(path) as f:
        rep = json.load(f)
    for c in cases:
        if c['name'] == rep['case']:
            ctx, exc = H.native_run(c['fn'], c['params'], H._deser(rep['env']), H._deser_ev(rep['events']))
            if exc is not None:
                print('exception: %s: %s' % (type(exc).__name__, exc))
                traceback.print_exception(exc)
            print('failed: %s' % sorted(set(ctx.failed)))
            for l, f in ctx.observed:
                print('  %s: %s' % (l, [H.float_of(x) for x in f]))
            return 1 if exc is not None or ctx.failed else 0
    print('no such case: %s' % rep['case'])
    return 2


def write_evidence(prop, tier, seed, mod, cases, results, viol, kf, errors, wall):
    enc, nat = {}, {}
    tot = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0}
    cnt = {}
    for r in results.values():
        for k, v in r.encoded.items():
            enc[k] = enc.get(k, 0) + v
        for k, v in r.native.items():
            nat[k] = nat.get(k, 0) + v
        for k in tot:
            tot[k] += r.stats.get(k, 0)
        for k, v in r.counts.items():
            cnt[k] = cnt.get(k, 0) + v
    cov = {
        'states': sum(r.paths for r in results.values()),
        'transitions': cnt.get('forks', 0) + cnt.get('merges', 0),
        'traces_validated_against_impl': sum(r.validated for r in results.values()),
        'samples': [s for r in results.values() for s in r.samples][:6] or [{'cases': [c['name'] for c in cases][:5]}],
        'states_meaning': 'feasible symbolic paths; each covers every input value and random draw that satisfies its path condition',
        'transitions_meaning': 'forks on undecided conditions plus if-then-else merges',
        'cases': {c['name']: {'paths': results[c['name']].paths, 'obligations': results[c['name']].obligations,
                              'wall_s': round(results[c['name']].wall, 2)} for c in cases},
        'bounds': getattr(mod, 'BOUNDS', ''),
        'functions_encoded': sorted(enc),
        'function_executions': sum(enc.values()),
        'native_functions_on_concrete_values': sorted(nat),
        'obligations': sum(r.obligations for r in results.values()),
        'infeasible_paths': cnt.get('infeasible', 0),
        'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'],
        'queries_unknown': tot['unknown'], 'solver_s': round(tot['time'], 2),
        'known_findings': {k: len(v) for k, v in kf.items()},
        'errors': errors[:5],
    }
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
        'assumptions': COMMON_ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
        'violations': len(viol), 'wall_s': round(wall, 2),
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, prop + '.json'))


COMMON_ASSUMPTIONS = [
    'floating point is treated as exact real arithmetic; exp, log, expit, sqrt are uninterpreted functions with monotonicity, sign '
    'and point axioms (refined with values of the real functions before a counterexample is accepted)',
    'integers have the fixed width numpy gives them (NEP 50); wrap-around is modelled',
    'numba compilation is off (as in the build and the tests): the Python source is what is decided',
    'random draws are arbitrary values in their range; independence is not modelled beyond "each draw is a separate variable"',
    'numpy / scipy functions are modelled by their documented semantics (sx/npm.py) and cross-checked by native replay',
]
