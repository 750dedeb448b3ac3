"""Annealing of the dispersion in the initial phase of the burn-in."""
from fractions import Fraction
from .common import *
from .inference import Log, build, free_names, split_sweeps

BOUNDS = ('infer with scripted samplers, initial phases of 0 to 7 sweeps (thorough 12), main phases of 0 to 2 sweeps, all given dispersions, one or two layers, '
          'fixed dispersions, MAX-AND with a vector of dispersions, two runs in a row; rejection of fix_lbda_iters 1 to 3')
BUDGET = {'quick': 300, 'thorough': 780}


def anneal(ctx, B, main=0, fixed=('f00',), fixed_lbda=(), on=True, again=False, **kw):
    ctx.tol = 1e-6
    log = Log()
    m, mats, lbdas, lays = build(ctx, log, fixed=fixed, fixed_lbda=fixed_lbda, watch_lbda=True, **kw)
    fm, fl = free_names(mats, lbdas, fixed, fixed_lbda, True)
    if on:
        ctx.setattr(m, 'anneal', True)
    for r in range(2 if again else 1):
        init = {n: ctx.arr(ctx.copyval(ctx.attr(o, 'val'))) for n, o in lbdas.items()}
        start = len(log.calls)
        meth(ctx, m, 'infer', no_samples=1, burn_in_min=B, burn_in_max=B + main)
        calls = log.calls[start:]
        sweeps = split_sweeps([c[0] for c in calls], fm, fl, (lambda i: i < B) if on else (lambda i: False))
        ctx.check(sweeps is not None and len(sweeps) == B + main + 1,
                  'no ordinary update of the dispersion while annealing, one in every other sweep' if on else 'ordinary update of the dispersion in every sweep')
        if sweeps is None or len(sweeps) != B + main + 1:
            return
        cur = dict(init)
        for s, (ms, ls) in enumerate(sweeps):
            if on and 0 < s <= B:
                for n in fl:
                    want = np.empty(init[n].shape, dtype=object)
                    for i in np.ndindex(*want.shape):
                        want[i] = tm.scale(tm.to_real(init[n][i]), Fraction(s, B))
                    cur[n] = want
            for p in ms:
                for j, n in enumerate(lbdas):
                    seen = ctx.arr(calls[p][2][j])
                    ctx.check(seen.shape == cur[n].shape, 'shape of the dispersion')
                    if seen.shape == cur[n].shape:
                        for i in np.ndindex(*seen.shape):
                            ctx.check(ctx.eq(tm.to_real(seen[i]), tm.to_real(cur[n][i])),
                                      'fixed dispersion unchanged' if n not in fl else 'annealed dispersion of sweep i is i/B of the given value' if on and s <= B
                                      else 'dispersion is left to its updates')
            for p in ls:
                cur[calls[p][0]] = ctx.arr(calls[p][3])
        for n, o in lbdas.items():
            ctx.check_eq(ctx.attr(o, 'val'), cur[n], 'final dispersion')


def rejected(ctx, B, fix):
    log = Log()
    m, mats, lbdas, lays = build(ctx, log)
    ctx.setattr(m, 'anneal', True)
    l0 = ctx.copyval(ctx.attr(lbdas['l0'], 'val'))
    e = ctx.raises(ctx.attr(m, 'infer'), no_samples=1, burn_in_min=B, burn_in_max=B, fix_lbda_iters=fix)
    ctx.check(e is not None and isinstance(e, Exception), 'frozen dispersions with annealing are rejected')
    ctx.check(not log.calls, 'rejected before anything is drawn')
    ctx.check_eq(ctx.attr(lbdas['l0'], 'val'), l0, 'dispersion unchanged')


def cases(tier):
    th = tier == 'thorough'
    out = []

    def add(name, cost=1, **p):
        out.append(case(name, anneal, cost, **p))

    for B in range(0, 8):
        add('%d steps' % B, B=B)
        add('%d steps, then ordinary updates' % B, B=B, main=2)
    for B in (0, 1, 3):
        add('without annealing, %d sweeps' % B, B=B, main=1, on=False)
    add('two layers', B=3, main=1, layers=2, fixed=('f00', 'f01', 'f10'))
    add('two layers, a fixed dispersion', B=3, main=1, layers=2, fixed=('f00', 'f01', 'f10'), fixed_lbda=('l0',))
    add('fixed dispersion', B=3, main=1, fixed_lbda=('l0',))
    add('MAX-AND', B=3, main=1, model='MAX-AND', L=2)
    add('MAX-AND, fixed', B=2, main=1, model='MAX-AND', L=1, fixed_lbda=('l0',))
    add('two runs', B=3, again=True)
    add('two runs, main phase', B=2, main=1, again=True)
    add('both factors free', B=2, main=1, fixed=())
    add('three factors', B=2, main=0, shape=(1, 1, 1))
    for fz in (1, 2, 3):
        out.append(case('frozen for %d sweeps' % fz, rejected, 1, B=2, fix=fz))
    if th:
        for B in range(8, 13):
            add('%d steps, then ordinary updates' % B, B=B, main=3)
        add('both factors free, 5 steps', B=5, main=1, fixed=())
        add('three factors free', B=2, main=1, fixed=(), shape=(1, 1, 1))
        add('three runs on two layers', B=3, main=1, again=True, layers=2, fixed=('f00', 'f01', 'f10'))
    return out
