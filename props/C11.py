"""Dispersion update: count of correct predictions and posterior estimate."""
from fractions import Fraction
from .samplers import *
from lom import lambda_update_wrappers as lw
from lom._numba import lambda_updates_numba as ln

BOUNDS = ('factors and data fully symbolic (data in {-1,0,1}) with up to 4 (2D: 2x2, 3x1, 1x3; 3D: 2x1x2, 1x2x2, 2x2x1) cells and latent size 1 to 3 for four '
          'concrete beta priors incl. fractional ones; 260 to 520 cells or 130 latent dimensions, concrete but a window of 3 per array; every pair of counts of observed and correct cells up to 4 for symbolic real prior parameters')
BUDGET = {'quick': 300, 'thorough': 780}

PRIORS = [(1, 1), (2, 5), (100, 1), (Fraction(1, 2), Fraction(1, 4))]


def correct(model, fs, x, q=None):
    P, T = [], []
    for cell in np.ndindex(*x.shape):
        cols = cols_of(fs, cell)
        if q is None:
            o = spec.model_out(model, cols)
        else:
            n = tm.intc(0)
            for c in cols:
                n = tm.add(n, tm.b2i(and_(*c)))
            o = tm.le(q[cell[1]], n)
        T.append(not_(tm.eq(x[cell], tm.intc(0))))
        P.append(or_(and_(o, tm.eq(x[cell], tm.intc(1))), and_(not_(o), tm.eq(x[cell], tm.intc(-1)))))
    return P, T


def total(bs):
    n = tm.intc(0)
    for b in bs:
        n = tm.add(n, tm.b2i(b))
    return n


def counter(ctx, model, shape, L):
    fs = [ctx.factor('F%d' % k, (n, L)) for k, n in enumerate(shape)]
    X = ctx.data('X', shape)
    f0 = [ctx.arr(ctx.copy(f)) for f in fs]
    x = ctx.arr(ctx.copy(X))
    f = ctx.call(ln.make_correct_predictions_counter, model, len(shape))
    args = fs + [X]
    q = None
    if model == 'qL-AND':
        q = ctx.ints('q', (shape[1],), 1, 6, np.int8)
        args.append(q)
        q = ctx.arr(q)
    n = ctx.call(f, *args)
    ctx.observe('count', n)
    P, T = correct('OR-AND' if model in ('OR-AND-IBP', 'qL-AND') else model, f0, x, q)
    ctx.check(tm.eq(ctx.t(n), total(P)), 'count of correct predictions')
    for a, b in zip(fs, f0):
        ctx.check_eq(a, b, 'factors unchanged')
    ctx.check_eq(X, x, 'data unchanged')


def large(ctx, model, shape, L, act):
    """more cells, or latent dimensions, than a narrow integer can count; everything is concrete but a window"""
    fs = window_factors(ctx, model, shape, L, act)
    vals = [ctx.arr(ctx.copy(f)) for f in fs]
    X = window(ctx, 'X', shape, 1 if act == model.startswith('OR') else -1, 3)
    x = ctx.arr(ctx.copy(X))
    n = ctx.call(ctx.call(ln.make_correct_predictions_counter, model, len(shape)), *fs, X)
    P, T = correct(model, vals, x)
    ctx.check(tm.eq(ctx.t(n), total(P)), 'count of correct predictions')


def build(ctx, model, shape, L, X):
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', X, fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model=model)
    return m, d, layer


def expected(p, t, a, b):
    """max(0, logit((p + a) / (t + a + b)))"""
    num, den = tm.add(tm.intc(p), a), tm.add(tm.intc(t - p), b)
    return num, den


def update(ctx, model, shape, L, prior=None, cur=0, inverted=False):
    ctx.option(log_fork=True)
    X = ctx.data('X', shape)
    m, d, layer = build(ctx, model, shape, L, X)
    fs, vals = list(ctx.attr(layer, 'factors')), []
    for k, (f, n) in enumerate(zip(fs, shape)):
        v = ctx.factor('F%d' % k, (n, L))
        ctx.setattr(f, 'val', v)
        vals.append(ctx.arr(ctx.copy(v)))
    lb = ctx.attr(layer, 'lbda')
    q = None
    if model == 'qL-AND':
        qv = ctx.ints('q', (1, shape[1]), 1, 4, np.int8)
        ctx.setattr(ctx.attr(layer, 'q'), 'val', qv)
        q = ctx.arr(ctx.copy(qv))[0]
    if prior is not None:
        ctx.setattr(lb, 'beta_prior', tuple(float(v) if isinstance(v, Fraction) else v for v in prior))
    else:
        prior = (1, 1)
    ctx.setattr(lb, 'val', cur)
    x = ctx.arr(ctx.copy(X))
    seen = ctx.arr(ctx.copy(ctx.call(d)))
    f = ctx.call(lw.get_update_fct, lb)
    ctx.call(f, lb)
    new = ctx.real_t(ctx.call(lb))
    ctx.observe('lbda', ctx.call(lb))
    for f, v in zip(fs, vals):
        ctx.check_eq(ctx.call(f), v, 'factors unchanged')
    ctx.check_eq(ctx.call(d), seen, 'data unchanged')
    ctx.check_eq(X, x, 'data unchanged')
    if q is not None:
        ctx.check_eq(ctx.call(ctx.attr(layer, 'q')), q.reshape(1, -1), 'thresholds unchanged')
    ctx.check(ctx.attr(lb, 'beta_prior') == tuple(float(v) if isinstance(v, Fraction) else v for v in prior), 'prior unchanged')
    cm, inv = (model, False) if not inverted else inverted
    P, T = correct('OR-AND' if model in ('OR-AND-IBP', 'qL-AND') else cm, vals, x, q)
    if inv:
        # the layer sees the negated data
        P = [and_(t, not_(p)) for p, t in zip(P, T)]
    Pn, Tn = total(P), total(T)
    a, b = [tm.realc(v) for v in prior]
    for t in range(len(T) + 1):
        for p in range(t + 1):
            here = and_(tm.eq(Pn, tm.intc(p)), tm.eq(Tn, tm.intc(t)))
            r = Fraction(p + a.v) / Fraction(t - p + b.v)
            want = tm.log(tm.realc(r)) if r > 1 else tm.realc(0)
            ctx.check(or_(not_(here), ctx.eq(new, want)), 'posterior estimate')


def anyprior(ctx, model, shape, fac, cells):
    """concrete counts, symbolic prior parameters"""
    ctx.option(log_fork=True)
    p, t = ctx.choice('counts', [(p, t) for t in range(cells + 1) for p in range(t + 1)])
    one = np.ones(shape, dtype=np.int8).reshape(-1)
    one[p:] = -1
    one[t:] = 0
    X = ctx.const(one.reshape(shape))
    m, d, layer = build(ctx, model, shape, 1, X)
    for f, n, v in zip(list(ctx.attr(layer, 'factors')), shape, fac):
        ctx.setattr(f, 'val', ctx.const(np.full((n, 1), v, dtype=np.int8)))
    if model == 'qL-AND':
        ctx.setattr(ctx.attr(layer, 'q'), 'val', ctx.const(np.ones((1, shape[1]), dtype=np.int8)))
    lb = ctx.attr(layer, 'lbda')
    a, b = ctx.real('a', 0, None, True), ctx.real('b', 0, None, True)
    ctx.setattr(lb, 'beta_prior', (a, b))
    f = ctx.call(lw.get_update_fct, lb)
    ctx.call(f, lb)
    new = ctx.real_t(ctx.call(lb))
    ctx.observe('lbda', ctx.call(lb))
    num = tm.add(tm.realc(p), ctx.real_t(a))
    den = tm.add(tm.realc(t - p), ctx.real_t(b))
    want = tm.ite(tm.lt(den, num), tm.sub(tm.log(num), tm.log(den)), tm.realc(0))
    ctx.check(ctx.eq(new, want), 'posterior estimate for any prior')


ON = {'OR-AND': (1, 1, 1), 'OR-NAND': (1, -1, -1), 'OR-XOR': (1, -1, -1), 'NAND-XOR': (1, 1, 1), 'XOR-AND': (1, 1, 1), 'XOR-NAND': (1, -1, -1),
      'XOR-NXOR': (-1, -1, -1), 'XOR-XOR': (1, -1, -1), 'OR-AND-IBP': (1, 1), 'qL-AND': (1, 1)}


def cases(tier):
    th = tier == 'thorough'
    out = []
    for i, mo in enumerate(MODELS):
        for sh, L in (((2, 2), 1), ((2, 1), 2), ((1, 2), 3)) if not th else (((2, 2), 2), ((3, 2), 1), ((2, 1), 3), ((1, 3), 3)):
            out.append(case('count %s %s L=%d' % (mo, sh, L), counter, model=mo, shape=sh, L=L))
        for sh, L in (((2, 1, 2), 1), ((1, 2, 1), 2)) if not th else (((2, 1, 2), 2), ((1, 2, 1), 3), ((2, 2, 1), 1)):
            out.append(case('count %s %s L=%d' % (mo, sh, L), counter, model=mo, shape=sh, L=L))
        for act in (0, 1):
            for sh, L in (((260, 2), 1), ((2, 260), 1), ((1, 1), 130), ((1, 260, 1), 1), ((1, 1, 260), 1), ((260, 1, 1), 1), ((1, 1, 1), 130)):
                out.append(case('count %s %s L=%d %d' % (mo, sh, L, act), large, cost=6, model=mo, shape=sh, L=L, act=act))
        pr = PRIORS if th else [PRIORS[i % 4], PRIORS[(i + 1) % 4]]
        for k, p in enumerate(pr):
            n = 'prior %s' % (p,)
            out.append(case('update %s 2D %s' % (mo, n), update, cost=3, model=mo, shape=((1, 2), (2, 1))[k % 2], L=2, prior=p))
            out.append(case('update %s 3D %s' % (mo, n), update, cost=4, model=mo, shape=((1, 2, 1), (2, 1, 1))[k % 2], L=1 + th, prior=p))
        out.append(case('update %s 2D default prior' % mo, update, cost=5, model=mo, shape=(2, 2), L=1, cur=3))
        out.append(case('update %s 3D default prior' % mo, update, cost=5, model=mo, shape=(2, 1, 2), L=1, cur=3))
        out.append(case('any prior %s' % mo, anyprior, cost=2, model=mo, shape=(2, 2), fac=ON[mo], cells=4))
        out.append(case('any prior %s 3D' % mo, anyprior, cost=2, model=mo, shape=(2, 1, 2), fac=ON[mo], cells=4))
    for mo in ('OR-AND-IBP', 'qL-AND'):
        for sh, L in (((2, 2), 1), ((2, 1), 2), ((1, 2), 2 if mo == 'qL-AND' else 3)):
            out.append(case('count %s %s L=%d' % (mo, sh, L), counter, model=mo, shape=sh, L=L))
            out.append(case('update %s %s L=%d' % (mo, sh, L), update, cost=5, model=mo, shape=sh, L=L))
        out.append(case('any prior %s' % mo, anyprior, cost=2, model=mo, shape=(2, 2), fac=ON[mo], cells=4))
    # models handled by inverting the data: NOR-AND is OR-AND of the negated data
    out.append(case('update NOR-AND', update, cost=5, model='NOR-AND', shape=(2, 1), L=2, inverted=('OR-AND', True)))
    out.append(case('update NXOR-AND 3D', update, cost=5, model='NXOR-AND', shape=(2, 1, 1), L=2, inverted=('XOR-AND', True)))
    return out
