"""Layer.output for every technique."""
from fractions import Fraction
from .common import *

BOUNDS = ('2D layers on 1x2 and 2x1 cells (point estimate and MAP also 2x2), 3D on 1x2x1, latent size 1 to 2 (thorough 3), all 8 models, '
          'OR-AND-IBP and qL-AND with thresholds 1 to 4; all factor values, all traces of 1 to 3 samples (also with some of the factors not recorded), '
          'all posterior means in [-1,1], all dispersions, with and without noisy emission; traces of 260 samples, concrete but a window of 3 per factor and mapping to probabilities')
BUDGET = {'quick': 300, 'thorough': 780}
ONE, HALF = tm.realc(1), Fraction(1, 2)


def setup(ctx, model, shape, L):
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', ctx.data('X', shape), fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model=model)
    fs = list(ctx.attr(layer, 'factors'))
    for k, (f, n) in enumerate(zip(fs, shape)):
        ctx.setattr(f, 'val', ctx.factor('F%d' % k, (n, L)))
    lam = ctx.real('lambda')
    lb = ctx.attr(layer, 'lbda')
    ctx.setattr(lb, 'val', lam)
    return m, d, layer, fs, lb, lam


def noisy(p, lam):
    s1, s0 = tm.expit(lam), tm.expit(tm.neg(lam))
    return tm.add(tm.mul(p, s1), tm.mul(tm.sub(ONE, p), s0))


def b2r(b):
    return tm.to_real(tm.b2i(b))


def layer_output(ctx, model, shape, L, technique, T=0, noise=False, probs=True, traced=None, real=False, ltrace=True, long=None):
    m, d, layer, fs, lb, lam = setup(ctx, model, shape, L)
    crisp = 'OR-AND' if model == 'OR-AND-IBP' else model
    q = None
    if model == 'qL-AND':
        q = ctx.ints('q', (1, shape[1]), 1, 4, np.int8)
        ctx.setattr(ctx.attr(layer, 'q'), 'val', q)
    tr = [None] * len(fs)
    ltr = None
    for k, (f, n) in enumerate(zip(fs, shape)):
        if T and (traced is None or k in traced):
            if long is not None:
                v = window(ctx, 'T%d' % k, (T, n, L), long, 3, 'factor')
            else:
                v = ctx.reals('T%d' % k, (T, n, L), -1, 1) if real else ctx.factor('T%d' % k, (T, n, L))
            ctx.setattr(f, 'trace', v)
            tr[k] = v
    if T and ltrace:
        ltr = ctx.reals('lambda_trace', (T,)) if long is None else ctx.const(np.linspace(.5, 2, T))
        ctx.setattr(lb, 'trace', ltr)
    val = [ctx.arr(ctx.copy(ctx.call(f))) for f in fs]
    x0 = ctx.arr(ctx.copy(ctx.call(d)))
    q0 = None if q is None else ctx.arr(ctx.copy(q))
    t0 = [None if v is None else ctx.arr(ctx.copy(v)) for v in tr]
    l0 = ctx.t(lam)
    lt0 = None if ltr is None else ctx.arr(ctx.copy(ltr))
    kw = {}
    if noise:
        kw['noisy_emission'] = True
    if not probs:
        kw['map_to_probabilities'] = False
    out = meth(ctx, layer, 'output', technique=technique, **kw)
    o = ctx.arr(out)
    ctx.check(o.shape == tuple(shape), 'shape')
    ctx.observe('out', out)
    if o.shape != tuple(shape):
        return
    lm = tm.to_real(l0) if lt0 is None else tm.scale(spec.sum_(lt0, True), Fraction(1, T))

    def entry(k, t, i, l):
        return t0[k][t, i, l] if t0[k] is not None else val[k][i, l]

    def mean(k, i, l):
        if t0[k] is None:
            return tm.to_real(val[k][i, l])
        return tm.scale(spec.sum_([tm.to_real(t0[k][t, i, l]) for t in range(T)], True), Fraction(1, T))

    def cell(idx, f):
        """model output of the entries f(k, i, l)"""
        return b2r(spec.model_out(crisp, [[f(k, i, l) for k, i in enumerate(idx)] for l in range(L)]))

    for idx in np.ndindex(*shape):
        if model == 'qL-AND':
            n = tm.intc(0)
            for l in range(L):
                n = tm.add(n, tm.b2i(and_(*[spec.pos(val[k][i, l]) for k, i in enumerate(idx)])))
            p = b2r(tm.le(q0[0, idx[1]], n))
        elif technique == 'point_estimate':
            p = cell(idx, lambda k, i, l: spec.pos(val[k][i, l]))
        elif technique == 'factor_map':
            p = cell(idx, lambda k, i, l: tm.lt(tm.realc(0), mean(k, i, l)))
        elif technique == 'mc':
            p = tm.realc(0)
            S = T or 1
            for t in range(S):
                p = tm.add(p, cell(idx, lambda k, i, l: spec.pos(entry(k, t, i, l))))
            p = tm.scale(p, Fraction(1, S))
        else:
            p = spec.prob_model(crisp, [[tm.scale(tm.add(mean(k, i, l), ONE), HALF) for k, i in enumerate(idx)] for l in range(L)])
        if noise:
            p = noisy(p, lm)
        want = p if probs else tm.sub(tm.scale(p, 2), ONE)
        ctx.check(ctx.eq(o[idx], want), 'output')
        if not noise and not real:
            lo = tm.realc(0 if probs else -1)
            ctx.check(and_(tm.le(lo, tm.to_real(o[idx])), tm.le(tm.to_real(o[idx]), ONE)), 'range')
    for f, v in zip(fs, val):
        ctx.check_eq(ctx.call(f), v, 'factors unchanged')
    for f, v in zip(fs, t0):
        if v is not None:
            ctx.check_eq(ctx.attr(f, 'trace'), v, 'traces unchanged')
    if lt0 is not None:
        ctx.check_eq(ctx.attr(lb, 'trace'), lt0, 'traces unchanged')
    if q0 is not None:
        ctx.check_eq(ctx.call(ctx.attr(layer, 'q')), q0, 'thresholds unchanged')
    ctx.check_eq(ctx.call(lb), l0, 'dispersion unchanged')
    ctx.check_eq(ctx.call(d), x0, 'data unchanged')
    ctx.check(ctx.attr(layer, 'model') == model, 'model unchanged')


def cases(tier):
    th = tier == 'thorough'
    out = []

    def add(name, cost=3, **k):
        out.append(case(name, layer_output, cost=cost, **k))
    shapes = [((2, 1), 2), ((1, 2), 2), ((1, 2, 1), 2)] + ([((2, 2), 3), ((2, 1, 2), 2)] if th else [])
    for mod in MODELS + ['OR-AND-IBP', 'qL-AND']:
        for sh, L in shapes:
            if mod in ('OR-AND-IBP', 'qL-AND') and len(sh) == 3:
                continue
            n = '%s %s L=%d ' % (mod, 'x'.join(map(str, sh)), L)
            add(n + 'point estimate', model=mod, shape=sh, L=L, technique='point_estimate')
            add(n + 'point estimate, traces present', model=mod, shape=sh, L=L, technique='point_estimate', T=1)
            if mod == 'qL-AND':
                add(n + 'noisy', model=mod, shape=sh, L=L, technique='mc', T=2, noise=True)
                add(n + 'noisy -1/1', model=mod, shape=sh, L=L, technique='factor_mean', noise=True, probs=False)
                add(n + '-1/1', model=mod, shape=sh, L=L, technique='factor_map', probs=False)
                continue
            add(n + 'point estimate -1/1', model=mod, shape=sh, L=L, technique='point_estimate', probs=False)
            add(n + 'map', model=mod, shape=sh, L=L, technique='factor_map', T=1, real=True)
            add(n + 'map 2 samples', model=mod, shape=sh, L=L, technique='factor_map', T=2, cost=5)
            add(n + 'map no trace', model=mod, shape=sh, L=L, technique='factor_map')
            add(n + 'mean', model=mod, shape=sh, L=L, technique='factor_mean', T=1, real=True)
            add(n + 'mean no trace', model=mod, shape=sh, L=L, technique='factor_mean')
            add(n + 'mean noisy', model=mod, shape=sh, L=L, technique='factor_mean', T=1, real=True, noise=True)
            add(n + 'mean old', model=mod, shape=sh, L=L, technique='factor_mean_old', T=1, real=True)
            add(n + 'mc', model=mod, shape=sh, L=L, technique='mc', T=2, cost=6)
            add(n + 'mc -1/1', model=mod, shape=sh, L=L, technique='mc', T=1, probs=False)
            add(n + 'mc noisy', model=mod, shape=sh, L=L, technique='mc', T=2, noise=True, cost=6)
            if mod != 'OR-AND-IBP':
                add(n + 'mc, first factor not recorded', model=mod, shape=sh, L=L, technique='mc', T=2, traced=(1, 2), cost=6)
                add(n + 'mc, dispersion not recorded', model=mod, shape=sh, L=L, technique='mc', T=2, ltrace=False, noise=True, cost=6)
            if th:
                add(n + 'mean 2 samples', model=mod, shape=sh, L=L, technique='factor_mean', T=2, cost=9)
                add(n + 'mc 3 samples', model=mod, shape=sh, L=L, technique='mc', T=3, cost=9)
        if mod in MODELS:
            K = 2 + MODELS.index(mod) % 2
            for base in (1, -1):
                for t in ('mc', 'factor_map', 'factor_mean'):
                    add('%s %dD %s 260 samples %d' % (mod, K, t, base), model=mod, shape=(1,) * K, L=1, technique=t, T=260, long=base, cost=9)
        if mod not in ('OR-AND-IBP',):
            add('%s L=1' % mod, model=mod, shape=(2, 2), L=1, technique='point_estimate')
    return out
