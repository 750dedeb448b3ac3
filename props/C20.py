"""Number of burn-in sweeps, frozen dispersions and the stopping rule."""
from fractions import Fraction
from .common import *
from .inference import Log, build, free_names, split_sweeps

BOUNDS = ('infer with scripted samplers that write arbitrary states and dispersions; burn_in_min 0 to 3, burn_in_max 0 to 7, windows of 2 to 4 sweeps, '
          'frozen dispersions for 0 to 4 sweeps, one or two layers, MAX-AND with a vector of dispersions, fixed dispersions, second runs, all values of the '
          'threshold; contents of newly allocated memory arbitrary')
BUDGET = {'quick': 300, 'thorough': 780}


def half_test(vals, eps):
    """the halves of the window differ by less than eps"""
    h = len(vals) // 2

    def sig(v):
        return tm.expit(tm.scale(spec.sum_(v, True), Fraction(1, len(v))))
    a, b = sig(vals[:h]), sig(vals[h:])
    return and_(tm.lt(tm.sub(a, b), eps), tm.lt(tm.sub(b, a), eps))


def burn(ctx, bmin, bmax, W, fix=0, k=1, fixed=('f00',), fixed_lbda=(), again=False, lo=-6, hi=6, **kw):
    ctx.tol = 1e-6
    log = Log()
    m, mats, lbdas, lays = build(ctx, log, fixed=fixed, fixed_lbda=fixed_lbda, lbda_range=(lo, hi), **kw)
    fm, fl = free_names(mats, lbdas, fixed, fixed_lbda, True)
    limit = max(bmin, bmax)
    for r in range(2 if again else 1):
        eps = ctx.real('eps%d' % r, 0, 1)
        e = tm.to_real(ctx.t(eps))
        start = len(log.calls)
        meth(ctx, m, 'infer', no_samples=k, burn_in_min=bmin, burn_in_max=bmax, convergence_window=W, convergence_eps=eps, fix_lbda_iters=fix)
        calls = log.calls[start:]
        nfz = min(fix, bmin)
        sweeps = split_sweeps([c[0] for c in calls], fm, fl, lambda i: i < nfz)
        ctx.check(sweeps is not None, 'dispersions are left out in the frozen sweeps and updated once in every other sweep')
        if sweeps is None:
            return
        S = len(sweeps) - k
        ctx.check(bmin <= S, 'at least burn_in_min sweeps')
        ctx.check(S <= limit, 'at most max(burn_in_min, burn_in_max) sweeps')
        ctx.check(ctx.attr(m, 'burn_in_iters') == S, 'burn_in_iters is the number of burn-in sweeps')
        if S > limit or S < bmin:
            return
        ctx.observe('sweeps', tm.intc(S))
        vals = {n: [None] * nfz for n in fl}
        for c in calls:
            if c[0] in vals:
                vals[c[0]].append([tm.to_real(t) for t in ctx.arr(c[3]).reshape(-1)])
        goal = []
        stopped = S == limit
        for s in range(bmin + W, S + 1, W):
            ok = and_(*[half_test([vals[n][i][l] for i in range(s - W, s)], e) for n in fl for l in range(len(vals[n][-1]))])
            if s < S:
                goal.append(not_(ok))
            elif S < limit:
                goal.append(ok)
                stopped = True
        ctx.check(stopped, 'stops at the end of a window or at the maximum')
        ctx.check(and_(*goal), 'stops exactly when the window has converged')


def cases(tier):
    th = tier == 'thorough'
    out = []

    def add(name, cost=2, **p):
        out.append(case(name, burn, cost, **p))

    for b0, b1, W in ((0, 6, 2), (0, 7, 2), (0, 4, 3), (0, 7, 3), (1, 6, 2), (2, 5, 3), (1, 5, 4), (3, 3, 2), (3, 1, 2), (0, 0, 2), (2, 3, 2), (0, 1, 2), (0, 2, 2), (0, 5, 4)):
        add('min %d, max %d, window %d' % (b0, b1, W), bmin=b0, bmax=b1, W=W)
    for b0, b1, fz in ((3, 3, 1), (3, 5, 2), (2, 2, 2), (2, 4, 4), (3, 5, 3), (0, 2, 3), (1, 3, 1)):
        add('min %d, max %d, frozen %d' % (b0, b1, fz), bmin=b0, bmax=b1, W=2, fix=fz)
    add('two layers', bmin=0, bmax=4, W=2, layers=2, fixed=('f00', 'f01', 'f10'), cost=4)
    add('two layers, a fixed dispersion', bmin=1, bmax=5, W=2, layers=2, fixed=('f00', 'f01', 'f10'), fixed_lbda=('l0',), cost=4)
    add('two layers, frozen', bmin=2, bmax=4, W=2, fix=1, layers=2, fixed=('f00', 'f01', 'f10'), cost=4)
    add('fixed dispersion', bmin=0, bmax=3, W=2, fixed_lbda=('l0',))
    add('MAX-AND', bmin=0, bmax=4, W=2, model='MAX-AND', cost=4)
    add('MAX-AND, frozen, window 3', bmin=1, bmax=4, W=3, fix=1, model='MAX-AND', cost=4)
    add('two runs', bmin=0, bmax=4, W=2, again=True, cost=4)
    add('two runs, window 3', bmin=1, bmax=4, W=3, again=True, cost=4)
    add('both factors free', bmin=1, bmax=3, W=2, fixed=(), cost=6)
    add('two recorded samples', bmin=0, bmax=4, W=2, k=2)
    add('larger dispersions', bmin=0, bmax=4, W=2, lo=-40, hi=40)
    if th:
        add('min 2, max 10, window 2', bmin=2, bmax=10, W=2, cost=10)
        add('min 0, max 11, window 3', bmin=0, bmax=11, W=3, cost=10)
        add('min 1, max 11, window 5', bmin=1, bmax=11, W=5, cost=10)
        add('both factors free, longer', bmin=1, bmax=5, W=2, fixed=(), cost=20)
        add('three latent dimensions, MAX-AND', bmin=0, bmax=4, W=2, model='MAX-AND', L=2, cost=20)
        add('two layers, longer', bmin=1, bmax=7, W=2, fix=1, layers=2, fixed=('f00', 'f01', 'f10'), cost=10)
        add('two longer runs', bmin=0, bmax=6, W=2, again=True, cost=20)
    return out
