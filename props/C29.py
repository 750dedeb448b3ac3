"""Row independence of the sweeps."""
from .samplers import *
from .C12 import dispersions
from lom import matrix_update_wrappers as mw

BOUNDS = ('samplers assigned to factors with a child layer (8 models, 2D and 3D, every axis), with one or two parents with and without a child, MAX-AND and qL-AND factors; two or '
          'three rows, one or two latent dimensions; two runs on states that agree in one row and differ arbitrarily in the others, with the same random numbers per '
          'entry; all masks of the form "only this row", "everything free" and one symbolic mask; all data, other factors, dispersions, priors')
BUDGET = {'quick': 300, 'thorough': 780}


def pin(ctx, name, mat, shape):
    ctx.setattr(mat, 'val', ctx.factor(name, shape))


def target(ctx, kind, model, rows, L, axis, others, parents):
    """machine with arbitrary state; returns the matrix to be sampled and the axis along which it is updated in parallel"""
    m = machine(ctx)
    if kind == 'top':
        shape = (rows,) + tuple(others)
        mat = meth(ctx, m, 'add_matrix', shape=shape)
    else:
        shape = list(others)
        shape.insert(axis, rows)
        d = meth(ctx, m, 'add_matrix', ctx.data('X', tuple(shape)), fixed=True)
        layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model=model)
        fs = list(ctx.attr(layer, 'factors'))
        for k, (f, n) in enumerate(zip(fs, shape)):
            if k != axis:
                pin(ctx, 'S%d' % k, f, (n, L))
        mat = fs[axis]
        if model == 'qL-AND':
            ctx.setattr(ctx.attr(layer, 'q'), 'val', ctx.ints('q', (1, shape[1]), 1, 3, np.int8))
        if model == 'MAX-AND':
            lam, _ = dispersions(ctx, L, list(range(L)), 'lbda')
        else:
            lam = ctx.real('lambda', 0, None, True)
        ctx.setattr(ctx.attr(layer, 'lbda'), 'val', lam)
        shape = (rows, L)
    for j, p in enumerate(parents):
        lp = meth(ctx, m, 'add_layer', latent_size=1 + (j == 0), child=mat, model=p)
        for k, (f, n) in enumerate(zip(ctx.attr(lp, 'factors'), shape)):
            pin(ctx, 'P%d_%d' % (j, k), f, (n, 1 + (j == 0)))
        ctx.setattr(ctx.attr(lp, 'lbda'), 'val', ctx.real('lambda_pa%d' % j, 0, None, True))
    ctx.setattr(mat, 'bernoulli_prior', ctx.real('p', 0, 1, True, True))
    return mat, tuple(shape)


def rows_independent(ctx, kind, model, rows=2, L=1, axis=0, others=(2,), parents=(), mask='free'):
    mat, shape = target(ctx, kind, model, rows, L, axis, others, parents)
    n = ctx.choice('row', list(range(rows)))
    mk = np.zeros(shape, dtype=np.int8)
    if mask == 'row':
        mk[...] = 1
        mk[n] = 0
    ctx.setattr(mat, 'fixed_entries', ctx.bits('M', shape) if mask == 'any' else ctx.const(mk))
    A, B = ctx.factor('A', shape), ctx.factor('B', shape)
    if ctx.symbolic:
        B.data[n] = A.data[n]
    else:
        B[n] = A[n]
    a0, b0 = ctx.arr(ctx.copy(A)), ctx.arr(ctx.copy(B))
    f = ctx.call(mw.get_sampling_fct, mat)
    ctx.setattr(mat, 'sampling_fct', f)
    draws = []
    new = []
    for v in (A, B):
        ctx.setattr(mat, 'val', v)
        k = ctx.mark()
        ctx.call(f, mat)
        draws.append(ctx.draws(k))
        new.append(ctx.arr(ctx.copyval(ctx.call(mat))))
    if ctx.symbolic:
        free = a0[n].size if mask == 'row' else a0.size
        if len(draws[0]) != len(draws[1]) or len(draws[0]) % free:
            return          # random numbers cannot be attributed to entries on this path
        # the same random numbers in both runs
        m = {w: u for (_, u), (_, w) in zip(*draws)}
        for w, u in m.items():
            ctx.assume(tm.eq(u, w))
        r = np.empty(shape, dtype=object)
        r.reshape(-1)[...] = tm.rename(list(new[1].reshape(-1)), m)
        new[1] = r
    ok = all(x.shape == shape for x in new)
    ctx.check(ok, 'shape')
    if not ok:
        return
    for i in np.ndindex(*shape[1:]):
        ctx.check(tm.eq(new[0][(n,) + i], new[1][(n,) + i]), 'new row depends only on its own old values')
    if mask == 'row':
        for x, o in zip(new, (a0, b0)):
            for i in np.ndindex(*shape):
                if i[0] != n:
                    ctx.check(tm.eq(x[i], o[i]), 'the update of a row writes only to this row')
    for x in new:
        ctx.observe('Z', tm.b2i(tm.eq(x[(n,) + (0,) * (len(shape) - 1)], tm.intc(1))))


def cases(tier):
    th = tier == 'thorough'
    out = []
    n = len(MODELS)

    def add(name, cost=3, **p):
        for mask in ('free', 'row'):
            out.append(case('%s, %s' % (name, mask), rows_independent, cost, mask=mask, **p))

    for i, a in enumerate(MODELS):
        b, c = MODELS[(i + 1) % n], MODELS[(i + 3) % n]
        for ax in (0, 1):
            add('%s 2D factor %d' % (a, ax), kind='child', model=a, L=2, axis=ax, others=(1,))
        add('%s 2D two cells' % a, kind='child', model=a, axis=i % 2)
        for ax in (0, 1, 2):
            if th or ax == i % 3:
                add('%s 3D factor %d' % (a, ax), kind='child', model=a, L=1 + (ax == 0), axis=ax, others=(1, 1))
        add('%s 2D three rows' % a, kind='child', model=a, rows=3, others=(1,))
        add('no child, parent %s' % a, kind='top', model=None, others=(2,), parents=(a,))
        add('no child, parent %s 3D' % a, kind='top', model=None, others=(1, 2), parents=(a,))
        add('no child, parents %s %s' % (a, b), kind='top', model=None, others=(2,), parents=(a, b))
        add('no child, parents %s %s 3D' % (a, b), kind='top', model=None, others=(1, 2), parents=(a, b))
        add('child %s, parent %s' % (a, c), kind='child', model=a, L=1, others=(2,), parents=(c,))
        add('child %s 3D, parent %s' % (a, c), kind='child', model=a, L=1, others=(1, 1), axis=i % 3, parents=(c,))
        add('child %s, parents %s %s' % (a, b, c), kind='child', model=a, L=1, others=(1,), axis=i % 2, parents=(b, c))
        out.append(case('%s 2D, any mask' % a, rows_independent, 4, kind='child', model=a, others=(1,), L=2, mask='any'))
        if th:
            if a.startswith('XOR'):
                out.append(case('%s 2D 3x2, row' % a, rows_independent, 9, kind='child', model=a, rows=3, L=2, others=(2,), mask='row'))
                add('%s 2D 2x2' % a, cost=9, kind='child', model=a, rows=2, L=2, others=(2,))
            else:
                add('%s 2D 3x2' % a, cost=9, kind='child', model=a, rows=3, L=2, others=(2,))
            add('%s 3D 2x1x2' % a, cost=9, kind='child', model=a, L=2, others=(1, 2))
    for m in ('MAX-AND', 'qL-AND'):
        for ax in (0, 1):
            add('%s factor %d' % (m, ax), kind='child', model=m, L=2, axis=ax, others=(1,))
            add('%s factor %d, two cells' % (m, ax), kind='child', model=m, L=1, axis=ax, others=(2,))
            add('%s factor %d, three rows' % (m, ax), kind='child', model=m, rows=3, L=1, axis=ax, others=(1,))
    return out
