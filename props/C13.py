"""MAX-AND factor updates."""
import itertools
import math
from .samplers import *
from .C12 import dispersions
from lom import matrix_update_wrappers as mw
from lom._numba import lambda_updates_numba as lu

BOUNDS = ('2x2 data (1x3, 2x1), latent size 1 to 3, every weak order of the dispersions, clamped one smallest or larger than others; either factor; one free '
          'entry at every position and two free entries in any order; all factor values, data in {-1,0,1}, random numbers; dispersions '
          'given by the user before the update; 130 latent dimensions with a symbolic window of 2')
BUDGET = {'quick': 300, 'thorough': 780}


def best(order, L, lam, act):
    r = lam[L]
    for l in reversed(order):
        r = tm.ite(act[l], lam[l], r)
    return r


def log_best(order, L, loglam, act):
    r = loglam[L]
    for l in reversed(order):
        r = tm.ite(act[l], loglam[l], r)
    return r


def update(ctx, shape, axis, L, order, free, clamp_small=True, rounds=1):
    m = machine(ctx)
    X = ctx.data('X', shape)
    d = meth(ctx, m, 'add_matrix', X, fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model='MAX-AND')
    fs = list(ctx.attr(layer, 'factors'))
    mat, sib = fs[axis], fs[1 - axis]
    x = ctx.arr(ctx.copy(X))
    if axis:
        x = x.T
    f = None
    for r in range(rounds):
        last = r + 1 == rounds
        Z = ctx.factor('Z%d' % r, (shape[axis], L))
        U = ctx.factor('U%d' % r, (shape[1 - axis], L))
        ctx.setattr(mat, 'val', Z)
        ctx.setattr(sib, 'val', U)
        if clamp_small:
            lam, lt = dispersions(ctx, L, order, 'lbda%d' % r)
        else:
            lam = ctx.reals('lbda%d' % r, (L + 1,), 0, 1, True, True)
            lt = ctx.arr(ctx.copy(lam))
            seq = [lt[i] for i in order]
            for a, b in zip(seq, seq[1:]):
                ctx.assume(tm.le(b, a))
        ctx.setattr(ctx.attr(layer, 'lbda'), 'val', lam)
        cells = list(np.ndindex(shape[axis], L))
        pos = [ctx.choice('pos', cells)] if free == 'each' else [tuple(p) for p in free]
        mk = np.ones((shape[axis], L), dtype=np.int8)
        for p in pos:
            mk[p] = 0
        ctx.setattr(mat, 'fixed_entries', ctx.const(mk))
        z0, u0 = ctx.arr(ctx.copy(Z)), ctx.arr(ctx.copy(U))
        f = ctx.call(mw.get_sampling_fct, mat)
        ctx.setattr(mat, 'sampling_fct', f)
        mark = ctx.mark()
        ctx.call(f, mat)
        if not last:
            continue
        z1 = ctx.arr(ctx.call(mat))
        ctx.observe('Z', ctx.call(mat))
        for i in cells:
            ctx.check(is_pm1(z1[i]), 'entries in {-1,1}')
            if i not in pos:
                ctx.check(tm.eq(z1[i], z0[i]), 'fixed entries unchanged')
        ctx.check_eq(ctx.call(sib), u0, 'other factor unchanged')
        ctx.check_eq(ctx.call(d), ctx.arr(X) if not axis else x.T, 'data unchanged')
        ctx.check_eq(ctx.call(ctx.attr(layer, 'lbda')), lt, 'dispersions unchanged')
        lp = [tm.log(a) for a in lt]
        lm = [tm.log(tm.sub(tm.realc(1), a)) for a in lt]

        def logodds(state, i):
            n, l = i
            s = tm.realc(0)
            for e in range(shape[1 - axis]):
                act = [and_(spec.pos(state[n, k]), spec.pos(u0[e, k])) for k in range(L)]
                hi, low = list(act), list(act)
                hi[l] = spec.pos(u0[e, l])
                low[l] = FALSE
                for lg, v in ((lp, 1), (lm, -1)):
                    c = tm.sub(log_best(order, L, lg, hi), log_best(order, L, lg, low))
                    s = tm.add(s, tm.gate(tm.eq(x[n, e], tm.intc(v)), c))
            return s
        ctx.check(sweep_spec(z0, z1, pos, logodds, ctx.draws(mark)), 'update rule')


def many(ctx, L, w):
    """many latent dimensions with different, concrete dispersions; active ones only in a window"""
    m = machine(ctx)
    X = ctx.data('X', (1, 1))
    d = meth(ctx, m, 'add_matrix', X, fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model='MAX-AND')
    mat, sib = list(ctx.attr(layer, 'factors'))
    lam = np.array([.95 - .9 * k / L for k in range(L)] + [.01])
    if w[0] > w[1]:
        lam[:-1] = lam[:-1][::-1].copy()
    zc = np.full((1, L), -1, dtype=np.int8)
    zs, us = ctx.factor('z', (len(w),)), ctx.factor('u', (len(w),))
    zt, ut = ctx.arr(zs), ctx.arr(us)
    if ctx.symbolic:
        from sx.vals import SA
        a, b = ctx.const(zc), ctx.const(zc)
        for k, i in enumerate(w):
            a.data[0, i] = zs.data[k]
            b.data[0, i] = us.data[k]
        Z, U = SA(a.data, a.dtype), SA(b.data, b.dtype)
    else:
        Z, U = zc.copy(), zc.copy()
        for k, i in enumerate(w):
            Z[0, i], U[0, i] = zs[k], us[k]
    ctx.setattr(mat, 'val', Z)
    ctx.setattr(sib, 'val', U)
    ctx.setattr(ctx.attr(layer, 'lbda'), 'val', ctx.const(lam))
    mk = np.ones((1, L), dtype=np.int8)
    mk[0, w[0]] = 0
    ctx.setattr(mat, 'fixed_entries', ctx.const(mk))
    f = ctx.call(mw.get_sampling_fct, mat)
    mark = ctx.mark()
    ctx.call(f, mat)
    z1 = ctx.arr(ctx.call(mat))
    ctx.observe('Z', ctx.call(mat))
    order = sorted(range(len(w)), key=lambda k: -lam[w[k]])
    ll = [float(lam[i]) for i in w] + [.01]
    lp, lm = [tm.realc(Fraction(math.log(a))) for a in ll], [tm.realc(Fraction(math.log(1 - a))) for a in ll]
    act = [and_(spec.pos(a), spec.pos(b)) for a, b in zip(zt, ut)]
    hi, low = list(act), list(act)
    hi[0], low[0] = spec.pos(ut[0]), FALSE
    s = tm.realc(0)
    x = ctx.arr(X)[0, 0]
    for lg, v in ((lp, 1), (lm, -1)):
        c = tm.sub(log_best(order, len(w), lg, hi), log_best(order, len(w), lg, low))
        s = tm.add(s, tm.gate(tm.eq(x, tm.intc(v)), c))
    # the sign of the log-odds (the table is in single precision, so no claim about thresholds)
    t = tm.ite(spec.pos(zt[0]), s, tm.neg(s))
    ctx.check(is_pm1(z1[0, w[0]]), 'entries in {-1,1}')
    ctx.check(or_(not_(or_(tm.eq(t, tm.realc(0)), tm.lt(t, tm.realc(Fraction(-1, 1000))))), tm.eq(z1[0, w[0]], tm.neg(zt[0]))),
              'sure flips')


def cases(tier):
    out = []
    th = tier == 'thorough'
    for L in (1, 2, 3):
        for order in itertools.permutations(range(L)):
            o = ''.join(map(str, order))
            for ax in (0, 1):
                sh = (2, 1) if ax == 0 else (1, 2)
                if L < 3 or th:
                    sh = (2, 2)
                out.append(case('L=%d order %s factor %d' % (L, o, ax), update, cost=L * 3, shape=sh, axis=ax, L=L, order=order, free='each'))
            if L == 2:
                out.append(case('L=2 order %s two entries' % o, update, cost=5, shape=(1, 1), axis=0, L=2, order=order, free=[(0, 0), (0, 1)]))
                out.append(case('L=2 order %s large clamp' % o, update, cost=5, shape=(1, 2), axis=0, L=2, order=order, free='each', clamp_small=False))
                out.append(case('L=2 order %s twice' % o, update, cost=5, shape=(1, 1), axis=0, L=2, order=order, free='each', rounds=2))
                if th:
                    out.append(case('L=2 order %s D=3' % o, update, cost=5, shape=(1, 3), axis=0, L=2, order=order, free='each'))
    for w in ((0, 129), (129, 0), (60, 128), (128, 5)):
        out.append(case('130 latent dimensions %d %d' % w, many, cost=60, L=130, w=w))
    return out
