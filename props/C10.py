"""The sampler the package assigns to each factor uses the right data, parameters and state."""
from .samplers import *
from lom import matrix_update_wrappers as mw

BOUNDS = ('layers built by add_matrix/add_layer on data of different axis sizes (2x3, 3x2, 2x1x3, 1x3x2, ...) and of equal axis sizes (2x2, 2x2x2), every factor, all 8 models, '
          'one free entry at every position; all values of factors, data, dispersion, prior and mask-protected entries; the sampler is run once '
          'for each of two different states set by the user (factor, data, dispersion, prior, mask replaced in between); models that '
          'are handled by inverting the data; the OR-AND-IBP second factor.  Latent size 1 and 2 (thorough 3).')
BUDGET = {'quick': 300, 'thorough': 780}

CANON = {'AND-OR': ('OR-AND', True, True)}


def one(ctx, model, shape, axis, L, rounds, inverted=False):
    m = machine(ctx)
    X = ctx.data('X', shape)
    d = meth(ctx, m, 'add_matrix', X, fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model=model)
    fs = list(ctx.attr(layer, 'factors'))
    mat = fs[axis]
    cm = ctx.attr(layer, 'model')
    if cm == 'OR-AND-IBP':
        cm = 'OR-AND'
    if inverted:
        ctx.check(bool(ctx.attr(layer, 'invert_data')), 'data inverted')
    f = None
    order = (axis,) + tuple(k for k in range(len(fs)) if k != axis)
    cells = [(i, j) for i in range(shape[axis]) for j in range(L)]
    for r in range(rounds):
        vals = []
        for k, (g, n) in enumerate(zip(fs, shape)):
            v = ctx.factor('R%dF%d' % (r, k), (n, L))
            ctx.setattr(g, 'val', v)
            vals.append(v)
        lam = ctx.real('R%dlambda' % r, 0, None, True)
        ctx.setattr(ctx.attr(layer, 'lbda'), 'val', lam)
        p = ctx.real('R%dp' % r, 0, 1, True, True)
        ctx.setattr(mat, 'bernoulli_prior', p)
        if r:
            X = ctx.data('R%dX' % r, shape)
            ctx.setattr(d, 'val', X)
        data = ctx.call(d)
        dat0 = ctx.arr(ctx.copy(data))
        pos = ctx.choice('R%dpos' % r, cells) if r + 1 == rounds else cells[0]
        mk = np.ones((shape[axis], L), dtype=np.int8)
        mk[pos] = 0
        M = ctx.const(mk)
        ctx.setattr(mat, 'fixed_entries', M)
        old = [ctx.arr(ctx.copy(v)) for v in vals]
        if f is None:
            f = ctx.call(mw.get_sampling_fct, mat)
            ctx.setattr(mat, 'sampling_fct', f)
        else:
            f = ctx.call(mw.get_sampling_fct, mat)
        mark = ctx.mark()
        ctx.call(f, mat)
        for k, g in enumerate(fs):
            new = ctx.arr(ctx.call(g))
            if new.shape != old[k].shape:
                ctx.check(False, 'shape of factor')
                return
            if k != axis:
                ctx.check_eq(ctx.call(g), old[k], 'other factors unchanged')
                continue
            ctx.observe('factor', ctx.call(g))
            for i in cells:
                if i != pos:
                    ctx.check(tm.eq(new[i], old[k][i]), 'fixed entries unchanged')
            x = np.transpose(dat0, order)

            def logodds(state, i):
                oth = [old[q] for q in range(len(fs)) if q != axis]
                sc = model_score(cm, list(state[i[0]]), i[1], oth, x[i[0]])
                return tm.add(tm.mul(ctx.real_t(lam), tm.to_real(sc)), tm.logit(ctx.real_t(p)))
            ctx.check(sweep_spec(old[k], new, [pos], logodds, ctx.draws(mark)), 'update rule')
        ctx.check_eq(ctx.call(d), dat0, 'data unchanged')
        ctx.check_eq(ctx.attr(mat, 'fixed_entries'), mk, 'mask unchanged')
        ctx.check(tm.eq(ctx.real_t(ctx.call(ctx.attr(layer, 'lbda'))), ctx.real_t(lam)), 'dispersion unchanged')


def cases(tier):
    out = []
    th = tier == 'thorough'
    s2 = [(2, 3), (3, 2)]
    s3 = {0: [(2, 1, 3), (2, 3, 1)], 1: [(1, 2, 3), (3, 2, 1)], 2: [(1, 3, 2), (3, 1, 2)]}
    for k, m in enumerate(MODELS):
        for ax in range(2):
            for sh in (s2 if th else [s2[(k + ax) % 2]]):
                out.append(case('%s %dx%d factor %d' % (m, *sh, ax), one, cost=6, model=m, shape=sh, axis=ax, L=2, rounds=1))
            out.append(case('%s 2x2 factor %d' % (m, ax), one, cost=5, model=m, shape=(2, 2), axis=ax, L=1, rounds=1))
            out.append(case('%s 1x2 factor %d twice' % (m, ax), one, cost=4, model=m, shape=(1, 2), axis=ax, L=1, rounds=2))
        for ax in range(3):
            for sh in (s3[ax] if th else [s3[ax][(k + ax) % 2]]):
                out.append(case('%s %dx%dx%d factor %d' % (m, *sh, ax), one, cost=9, model=m, shape=sh, axis=ax, L=1, rounds=1))
            out.append(case('%s 2x2x2 factor %d' % (m, ax), one, cost=9, model=m, shape=(2, 2, 2), axis=ax, L=1, rounds=1))
            if th:
                out.append(case('%s 3D factor %d L=2' % (m, ax), one, cost=9, model=m, shape=tuple(2 if q == ax else 1 + (q == (ax + 1) % 3) for q in range(3)), axis=ax, L=2, rounds=1))
        if th:
            for ax in range(2):
                out.append(case('%s 2x2 factor %d L=3' % (m, ax), one, cost=9, model=m, shape=(2, 2), axis=ax, L=3, rounds=1))
    for m in ('NOR-AND', 'AND-OR', 'AND-NAND', 'NXOR-XOR', 'AND-NXOR', 'NXOR-AND', 'XOR-OR'):
        out.append(case('%s 2x3 factor 0' % m, one, cost=3, model=m, shape=(2, 3), axis=0, L=1, rounds=1))
        out.append(case('%s 2x3 factor 1' % m, one, cost=3, model=m, shape=(2, 3), axis=1, L=1, rounds=1))
    out.append(case('OR-AND-IBP 2x3 factor 1', one, cost=3, model='OR-AND-IBP', shape=(2, 3), axis=1, L=2, rounds=1))
    out.append(case('OR-AND-IBP 1x2 factor 1 twice', one, cost=3, model='OR-AND-IBP', shape=(1, 2), axis=1, L=1, rounds=2))
    return out
