"""qL-AND thresholds: draw from the full conditional."""
from .samplers import *
from lom import matrix_update_wrappers as mw

BOUNDS = ('layers on 1x1, 2x1, 1x2 and 2x2 (thorough 3x1, 3x2) data, latent size 1 to 3; all values of factors, data, previous thresholds, '
          'all dispersions >= 0 (as logarithms of reals >= 1) with gamma 1/2, 1, 2, 3, and all gamma > 0 with dispersions 0 and log 5 (1x1), all random numbers; '
          'concrete factors for 2x2 and larger')
BUDGET = {'quick': 300, 'thorough': 780}

FAC = {
    'steps': ([[1, 1], [1, -1]], [[1, 1], [1, -1]]),
    'three': ([[1, 1, 1], [1, 1, -1]], [[1, 1, 1], [-1, 1, 1]]),
}
FACT = [1, 1, 2, 6, 24, 120]


def draw(ctx, shape, L, gamma=None, fac=None, fixed=False, t=None):
    ctx.option(mul_fork=True, max_fork=True)
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', ctx.data('X', shape), fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model='qL-AND')
    fs = list(ctx.attr(layer, 'factors'))
    vals = []
    for k, (g, n) in enumerate(zip(fs, shape)):
        v = ctx.factor('F%d' % k, (n, L)) if fac is None else ctx.const(np.array(FAC[fac][k], dtype=np.int8))
        ctx.setattr(g, 'val', v)
        if fixed:
            ctx.setattr(g, 'fixed', True)
        vals.append(ctx.arr(ctx.copy(v)))
    q = ctx.attr(layer, 'q')
    q0 = ctx.ints('q', (1, shape[1]), 1, 5, np.int8)
    ctx.setattr(q, 'val', q0)
    if t is None:
        tt = ctx.var_t('t', 1)
    else:
        tt = tm.realc(t)
    lam = ctx.value(tm.log(tt))
    ctx.setattr(ctx.attr(layer, 'lbda'), 'val', lam)
    if gamma is None:
        g = ctx.real('gamma', 0, None, True)
        gt = ctx.real_t(g)
    else:
        g, gt = float(gamma), tm.realc(Fraction(gamma))
    ctx.setattr(layer, 'gamma', g)
    x = ctx.arr(ctx.copy(ctx.call(d)))
    if not fixed:
        ctx.call(mw.get_sampling_fct, fs[0])
    f = ctx.call(mw.get_sampling_fct, q)
    mark = ctx.mark()
    ctx.call(f, q)
    new = ctx.arr(ctx.call(q))
    ctx.observe('q', ctx.call(q))
    for k, g in enumerate(fs):
        ctx.check_eq(ctx.call(g), vals[k], 'factors unchanged')
    ctx.check_eq(ctx.call(d), x, 'data unchanged')
    ctx.check(new.shape == (1, shape[1]), 'shape')
    draws = ctx.draws(mark, ('uniform', 'choice_p'))
    N, D = shape
    perf = []
    for e in range(D):
        # number of correctly predicted cells for every threshold
        cnt = []
        for k in range(1, 6):
            p = tm.intc(0)
            for n in range(N):
                a = tm.intc(0)
                for l in range(L):
                    a = tm.add(a, tm.b2i(and_(spec.pos(vals[0][n, l]), spec.pos(vals[1][e, l]))))
                on = tm.le(tm.intc(k), a)
                p = tm.add(p, tm.b2i(or_(and_(on, tm.eq(x[n, e], tm.intc(1))), and_(not_(on), tm.eq(x[n, e], tm.intc(-1))))))
            cnt.append(ctx.fork_int(p))
        w = []
        for k in range(1, 6):
            v = tm.realc(Fraction(1, FACT[k]))
            for _ in range(k):
                v = tm.mul(v, gt)
            for _ in range(cnt[k - 1]):
                v = tm.mul(v, tt)
            w.append(v)
        tot = tm.realc(0)
        for v in w:
            tot = tm.add(tot, v)
        ok = []
        for k in range(1, 6):
            lo = tm.realc(0)
            for v in w[:k - 1]:
                lo = tm.add(lo, v)
            hi = tm.add(lo, w[k - 1])
            hit = tm.eq(new[0, e], tm.intc(k))
            ok.append((hit, lo, hi))
        ctx.check(or_(*[h for h, _, _ in ok]), 'thresholds in 1..5')
        perf.append((ok, tot))
    eps = tm.realc(0 if ctx.symbolic else Fraction(1, 10**9))
    # every feature has its own random number, used by the inverse distribution function from below or from above
    alts = []
    for p in itertools.permutations(range(len(draws)), D):
        conj = []
        for (ok, tot), j in zip(perf, p):
            g, u = draws[j]
            s = tm.mul(u, tot)
            r = tm.mul(tm.sub(tm.realc(1), u), tot)
            conj.append(or_(*[and_(g, h, tm.le(tm.sub(lo, eps), v), tm.le(v, tm.add(hi, eps))) for h, lo, hi in ok for v in (s,)]))
        alts.append(and_(*conj))
        conj = []
        for (ok, tot), j in zip(perf, p):
            g, u = draws[j]
            r = tm.mul(tm.sub(tm.realc(1), u), tot)
            conj.append(or_(*[and_(g, h, tm.le(tm.sub(lo, eps), r), tm.le(r, tm.add(hi, eps))) for h, lo, hi in ok]))
        alts.append(and_(*conj))
    ctx.check(or_(*alts), 'probability of each threshold')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for t in (1, 5):
        out.append(case('1x1 L=1 odds %d' % t, draw, cost=9, shape=(1, 1), L=1, t=t))
        if th:
            out.append(case('2x1 L=1 odds %d' % t, draw, cost=99, shape=(2, 1), L=1, t=t))
    out.append(case('2x1 L=1', draw, cost=4, shape=(2, 1), L=1, gamma=1))
    out.append(case('1x1 L=2', draw, cost=4, shape=(1, 1), L=2, gamma=2))
    out.append(case('2x1 L=2', draw, cost=9, shape=(2, 1), L=2, gamma=1))
    out.append(case('1x2 L=1', draw, cost=9, shape=(1, 2), L=1, gamma=Fraction(1, 2)))
    out.append(case('fixed factors', draw, cost=2, shape=(1, 1), L=1, fixed=True, gamma=3))
    out.append(case('2x2 steps', draw, cost=9, shape=(2, 2), L=2, gamma=1, fac='steps', t=None if th else 3))
    out.append(case('2x2 three', draw, cost=9, shape=(2, 2), L=3, gamma=1, fac='three', t=None if th else 2))
    if th:
        out.append(case('1x1 L=1 any', draw, cost=99, shape=(1, 1), L=1))
        out.append(case('1x1 L=2 any', draw, cost=99, shape=(1, 1), L=2, budget=800))
        out.append(case('3x1 L=1', draw, cost=50, shape=(3, 1), L=1, gamma=1))
    return out
