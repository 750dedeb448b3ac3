"""MAX-AND dispersion update."""
import itertools
from .samplers import *
from lom import lambda_update_wrappers as lw
from lom._numba import max_machine_sampler as mm

BOUNDS = ('data in {-1,0,1} of shape 2x1, 2x2 and 3x2, latent size 1 to 3; factors fully symbolic for 2x1 and 1x2 (L<=2; thorough 2x2) and several concrete coverage '
          'patterns (nested, disjoint, overlapping, equal, empty) with all data values for 2x2 and 3x2; up to 600 cells, concrete but a window of 3 in the data; all previous dispersions')
BUDGET = {'quick': 300, 'thorough': 780}

PAT = {
    'disjoint': ([[1, -1], [-1, 1]], [[1, 1], [1, 1]]),
    'overlap': ([[1, 1], [1, -1]], [[1, 1], [-1, 1]]),
    'nested': ([[1, 1], [1, -1]], [[1, 1], [1, -1]]),
    'equal': ([[1, 1], [-1, -1]], [[1, 1], [1, 1]]),
    'one empty': ([[1, -1], [1, -1]], [[1, 1], [-1, -1]]),
    'empty': ([[-1, -1], [-1, -1]], [[1, 1], [1, 1]]),
    'full': ([[1, 1], [1, 1]], [[1, 1], [1, 1]]),
    'three': ([[1, 1, -1], [1, -1, 1]], [[1, 1, 1], [1, -1, 1]]),
    'three nested': ([[1, 1, 1], [1, 1, -1], [1, -1, -1]], [[1, 1, 1], [1, 1, -1]]),
}


def update(ctx, shape, L, factors, base=None):
    m = machine(ctx)
    X = ctx.data('X', shape) if base is None else window(ctx, 'X', shape, base, 3)
    d = meth(ctx, m, 'add_matrix', X, fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model='MAX-AND')
    fs = list(ctx.attr(layer, 'factors'))
    vals = []
    for k, (f, n) in enumerate(zip(fs, shape)):
        v = ctx.const(np.array([[1, -1], [1, 1]] * n, dtype=np.int8)[:n, :L]) if base is not None else ctx.factor('F%d' % k, (n, L)) if factors is None else ctx.const(np.array(PAT[factors][k], dtype=np.int8))
        ctx.setattr(f, 'val', v)
        vals.append(v)
    lam = ctx.reals('lbda', (L + 1,), 0, 1, True, True)
    lb = ctx.attr(layer, 'lbda')
    ctx.setattr(lb, 'val', lam)
    x = ctx.arr(ctx.copy(X))
    z, u = [ctx.arr(ctx.copy(v)) for v in vals]
    f = ctx.call(lw.get_update_fct, lb)
    ctx.call(f, lb)
    new = ctx.arr(ctx.call(lb))
    ctx.check(new.shape == (L + 1,), 'number of dispersions')
    ctx.observe('lbda', ctx.call(lb))
    for f, v in zip(fs, (z, u)):
        ctx.check_eq(ctx.call(f), v, 'factors unchanged')
    ctx.check_eq(ctx.call(d), x, 'data unchanged')
    N, D = shape
    cover = [[[and_(spec.pos(z[n, l]), spec.pos(u[e, l])) for e in range(D)] for n in range(N)] for l in range(L)]

    def counts(l, done):
        tp, tot = tm.intc(1), tm.intc(2)
        for n in range(N):
            for e in range(D):
                c = and_(*([cover[l][n][e]] if l is not None else []), *[not_(cover[q][n][e]) for q in done])
                tp = tm.add(tp, tm.b2i(and_(c, tm.eq(x[n, e], tm.intc(1)))))
                tot = tm.add(tot, tm.b2i(and_(c, not_(tm.eq(x[n, e], tm.intc(0))))))
        return tp, tot

    def is_rate(v, c):
        # v == tp / tot
        return ctx.eq(tm.mul(v, tm.to_real(c[1])), tm.to_real(c[0]))
    alts = []
    for p in itertools.permutations(range(L)):
        conj = []
        for k, l in enumerate(p):
            done = p[:k]
            cl = counts(l, done)
            for j in p[k + 1:]:
                cj = counts(j, done)
                conj.append(tm.le(tm.mul(cj[0], cl[1]), tm.mul(cl[0], cj[1])))
            conj.append(is_rate(new[l], cl))
        alts.append(and_(*conj))
    ctx.check(or_(*alts), 'greedy success rates')
    cr = counts(None, range(L))
    small = and_(*[tm.le(new[L], new[l]) if ctx.symbolic else tm.lt(new[L], tm.add(new[l], tm.realc(__import__('fractions').Fraction(1, 10**9))))
                   for l in range(L)])
    rate_ok = is_rate(new[L], cr)
    capped = or_(*[and_(ctx.eq(new[L], new[l]), tm.lt(tm.mul(new[L], tm.to_real(cr[1])), tm.to_real(cr[0]))) for l in range(L)])
    ctx.check(and_(small, or_(rate_ok, capped)), 'clamped dispersion')
    for l in range(L + 1):
        ctx.check(and_(tm.lt(tm.realc(0), new[l]), tm.lt(new[l], tm.realc(1))), 'strictly between 0 and 1')
    # table of log ratios
    rt = ctx.arr(ctx.attr(layer, 'lbda_ratios'))
    ctx.check(rt.shape == (2, L + 1, L + 1), 'shape of the ratio table')
    ratios_ok(ctx, rt, new, L)


def ratios_ok(ctx, rt, lam, L):
    one = tm.realc(1)
    tol = ctx.tol
    ctx.tol = 1e-5          # the table is stored in single precision
    for a in range(L + 1):
        for b in range(L + 1):
            for k, f in ((0, lambda t: t), (1, lambda t: tm.sub(one, t))):
                x, y = f(lam[a]), f(lam[b])
                # three ways of writing log(x / y)
                ctx.check(or_(ctx.eq(rt[k, a, b], tm.log(tm.div(x, y))), ctx.eq(rt[k, a, b], tm.neg(tm.log(tm.div(y, x)))),
                              ctx.eq(rt[k, a, b], tm.sub(tm.log(x), tm.log(y)))), 'log ratios')
    ctx.tol = tol


def ratios(ctx, L):
    """the table of a layer whose dispersions are arbitrary"""
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', ctx.data('X', (2, 2)), fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model='MAX-AND')
    lam = ctx.reals('lbda', (L + 1,), 0, 1, True, True)
    ctx.setattr(ctx.attr(layer, 'lbda'), 'val', lam)
    ctx.call(mm.compute_lbda_ratios, layer)
    new = ctx.arr(ctx.call(ctx.attr(layer, 'lbda')))
    ctx.check_eq(ctx.call(ctx.attr(layer, 'lbda')), ctx.arr(lam), 'dispersions unchanged')
    rt = ctx.arr(ctx.attr(layer, 'lbda_ratios'))
    ctx.observe('ratios', ctx.attr(layer, 'lbda_ratios'))
    one = tm.realc(1)
    tol = ctx.tol
    ctx.tol = 1e-5
    for a in range(L + 1):
        for b in range(L + 1):
            for k, f in ((0, lambda t: t), (1, lambda t: tm.sub(one, t))):
                ctx.check(ctx.eq(tm.add(rt[k, a, b], tm.log(f(new[b]))), tm.log(f(new[a]))), 'log ratios')
    ctx.tol = tol


def cases(tier):
    out = [case('2x1 L=1', update, shape=(2, 1), L=1, factors=None), case('2x2 L=1', update, shape=(2, 2), L=1, factors=None),
           case('2x1 L=2', update, cost=5, shape=(2, 1), L=2, factors=None), case('1x2 L=2', update, cost=5, shape=(1, 2), L=2, factors=None)]
    for p, (a, b) in PAT.items():
        out.append(case('pattern %s' % p, update, cost=5 + 20 * (len(a) > 2), shape=(len(a), len(b)), L=len(a[0]), factors=p))
    out += [case('ratio table L=%d' % L, ratios, L=L) for L in (1, 2, 3)]
    for base in (1, -1):
        for sh, L in (((150, 2), 1), ((2, 300), 1), ((150, 2), 2), ((2, 150), 2)):
            out.append(case('%dx%d L=%d %d' % (*sh, L, base), update, cost=9, shape=sh, L=L, factors=None, base=base))
    if tier == 'thorough':
        out.append(case('2x2 L=2', update, cost=50, shape=(2, 2), L=2, factors=None))
        out.append(case('1x3 L=2', update, cost=50, shape=(1, 3), L=2, factors=None))
        out.append(case('1x2 L=3', update, cost=50, shape=(1, 2), L=3, factors=None))
    return out
