"""qL-AND: output and factor updates."""
from .samplers import *
from lom import matrix_update_wrappers as mw
from lom._numba import lom_outputs as lo

BOUNDS = ('output: latent size 1 to 5, all factor rows, thresholds 1 to 6; counts up to 3x3 cells, latent size up to 3; 130 and 260 latent dimensions, concrete but a window of 3.  Updates: layers on 1x2, 2x1, 2x3, 3x2 (thorough 3x3) data, latent size 1 to 3, all values of '
          'factors, data, thresholds 1 to 6 per feature, dispersion >= 0 and random numbers; one free entry at every position, two free '
          'entries in any visiting order, and the mask leaving everything free or fixed')
BUDGET = {'quick': 300, 'thorough': 780}


def out_at_least(cols, q):
    n = tm.intc(0)
    for c in cols:
        n = tm.add(n, tm.b2i(and_(*c)))
    return tm.le(q, n)


def output(ctx, L):
    z, u = ctx.factor('z', (L,)), ctx.factor('u', (L,))
    q = ctx.int('q', 1, 6, np.dtype(np.int8))
    zt, ut = ctx.arr(ctx.copy(z)), ctx.arr(ctx.copy(u))
    r = ctx.call(lo.qL_AND_product, u, z, q)
    ctx.observe('output', r)
    cols = [[spec.pos(a), spec.pos(b)] for a, b in zip(zt, ut)]
    ctx.check(tm.eq(ctx.t(r), spec.pm(out_at_least(cols, ctx.t(q)))), 'output is +1 exactly when at least q dimensions are active')
    ctx.check_eq(z, zt, 'arguments unchanged')
    ctx.check_eq(u, ut, 'arguments unchanged')


def counts(ctx, N, D, L):
    z, u = ctx.factor('z', (N, L)), ctx.factor('u', (D, L))
    g = ctx.const(np.zeros((N, D), dtype=np.int8))
    zt, ut = ctx.arr(ctx.copy(z)), ctx.arr(ctx.copy(u))
    ctx.call(lo.compute_g, z, u, g)
    a = ctx.arr(g)
    ctx.observe('counts', g)
    for n in range(N):
        for d in range(D):
            ctx.check(tm.eq(a[n, d], spec.sum_([tm.b2i(and_(spec.pos(x), spec.pos(y))) for x, y in zip(zt[n], ut[d])])), 'number of active dimensions')
    ctx.check_eq(z, zt, 'arguments unchanged')
    ctx.check_eq(u, ut, 'arguments unchanged')


def large(ctx, L, act):
    """many latent dimensions, active or not but a symbolic window"""
    u, z = window_factors(ctx, 'OR-AND', (1, 1), L, act)
    q = ctx.int('q', *((124, 127) if act else (1, 4)), np.dtype(np.int8))
    ut, zt = ctx.arr(ctx.copy(u)), ctx.arr(ctx.copy(z))
    n = spec.sum_([tm.b2i(and_(spec.pos(x), spec.pos(y))) for x, y in zip(zt[0], ut[0])])
    r = ctx.call(lo.qL_AND_product, ctx.item(u, 0), ctx.item(z, 0), q)
    ctx.observe('output', r)
    ctx.check(tm.eq(ctx.t(r), spec.pm(tm.le(ctx.t(q), n))), 'output is +1 exactly when at least q dimensions are active')
    g = ctx.const(np.zeros((1, 1), dtype=np.int64))
    ctx.call(lo.compute_g, z, u, g)
    ctx.check(tm.eq(ctx.arr(g)[0, 0], n), 'number of active dimensions')


def update(ctx, shape, axis, L, free, rounds=1):
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', ctx.data('X', shape), fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model='qL-AND')
    fs = list(ctx.attr(layer, 'factors'))
    mat, oth = fs[axis], fs[1 - axis]
    qm = ctx.attr(layer, 'q')
    cells = [(i, j) for i in range(shape[axis]) for j in range(L)]
    f = None
    for r in range(rounds):
        vals = []
        for k, (g, n) in enumerate(zip(fs, shape)):
            v = ctx.factor('R%dF%d' % (r, k), (n, L))
            ctx.setattr(g, 'val', v)
            vals.append(ctx.arr(ctx.copy(v)))
        q = ctx.ints('R%dq' % r, (1, shape[1]), 1, 6, np.int8)
        ctx.setattr(qm, 'val', q)
        q0 = ctx.arr(ctx.copy(q))
        lam = ctx.real('R%dlambda' % r, 0)
        ctx.setattr(ctx.attr(layer, 'lbda'), 'val', lam)
        x0 = ctx.arr(ctx.copy(ctx.call(d)))
        pos = [ctx.choice('R%dpos' % r, cells)] if free == 'each' else [tuple(p) for p in free]
        if r + 1 < rounds:
            pos = cells[:1]
        mk = np.ones((shape[axis], L), dtype=np.int8)
        for p in pos:
            mk[p] = 0
        ctx.setattr(mat, 'fixed_entries', ctx.const(mk))
        f = ctx.call(mw.get_sampling_fct, mat)
        ctx.setattr(mat, 'sampling_fct', f)
        mark = ctx.mark()
        ctx.call(f, mat)
        new = ctx.arr(ctx.call(mat))
        ctx.observe('factor', ctx.call(mat))
        ctx.check(new.shape == vals[axis].shape, 'shape')
        for i in cells:
            ctx.check(is_pm1(new[i]), 'entries in {-1,1}')
            if i not in pos:
                ctx.check(tm.eq(new[i], vals[axis][i]), 'fixed entries unchanged')
        ctx.check_eq(ctx.call(oth), vals[1 - axis], 'other factor unchanged')
        ctx.check_eq(ctx.call(d), x0, 'data unchanged')
        ctx.check_eq(ctx.call(qm), q0, 'thresholds unchanged')
        ctx.check_eq(ctx.attr(mat, 'fixed_entries'), mk, 'mask unchanged')
        x = x0 if axis == 0 else x0.T

        def logodds(state, i):
            want = tm.intc(0)
            o = vals[1 - axis]
            for e in range(x.shape[1]):
                th = q0[0, e] if axis == 0 else q0[0, i[0]]
                cols = [[spec.pos(state[i[0], k]), spec.pos(o[e, k])] for k in range(L)]
                cols[i[1]][0] = TRUE
                hi = out_at_least(cols, th)
                cols[i[1]][0] = FALSE
                want = tm.add(want, tm.mul(x[i[0], e], tm.sub(tm.b2i(hi), tm.b2i(out_at_least(cols, th)))))
            return tm.mul(ctx.real_t(lam), tm.to_real(want))
        ctx.check(sweep_spec(vals[axis], new, pos, logodds, ctx.draws(mark)), 'update rule')


def cases(tier):
    th = tier == 'thorough'
    out = [case('output L=%d' % L, output, L=L) for L in ((1, 2, 3, 4, 5) if not th else (1, 2, 3, 4, 5, 6, 7))]
    for N, D, L in ((1, 1, 3), (2, 3, 2), (3, 2, 1)):
        out.append(case('counts %dx%d L=%d' % (N, D, L), counts, N=N, D=D, L=L))
    for L in (130, 260):
        for act in (0, 1):
            out.append(case('L=%d %s' % (L, 'active' if act else 'inactive'), large, cost=5, L=L, act=act))
    for ax in range(2):
        for sh, L in (((2, 3), 2), ((3, 2), 2), ((2, 2), 3)) + ((((3, 3), 3),) if th else ()):
            out.append(case('%dx%d L=%d factor %d' % (*sh, L, ax), update, cost=5, shape=sh, axis=ax, L=L, free='each'))
        sh = (1, 2) if ax == 0 else (2, 1)
        out.append(case('factor %d two entries of a row' % ax, update, cost=5, shape=sh, axis=ax, L=2, free=[(0, 0), (0, 1)]))
        sh = (2, 1) if ax == 0 else (1, 2)
        out.append(case('factor %d two rows' % ax, update, cost=5, shape=sh, axis=ax, L=1, free=[(0, 0), (1, 0)]))
        out.append(case('factor %d all fixed' % ax, update, shape=(2, 2), axis=ax, L=2, free=[]))
        out.append(case('factor %d twice' % ax, update, shape=(2, 2), axis=ax, L=1, free='each', rounds=2))
    return out
