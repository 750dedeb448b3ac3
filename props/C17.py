"""IBP sweeps: structure of the factors, masks and traces."""
from .samplers import *
from lom import matrix_update_wrappers as mw
from lom import lambda_update_wrappers as lw
from lom import machine as M
from lom._numba import matrix_updates_numba as mu

BOUNDS = ('one sweep over 1 to 3 rows, 0 to 3 columns, 1 to 2 features (all factors, data, random numbers; dispersion, concentration and '
          'prior concrete); the same with all Gibbs draws at their extremes; two updates of both factors and the dispersion through '
          'Machine on 2x1 data; traces of 2 samples with 0 to 14 more columns than at allocation')
BUDGET = {'quick': 400, 'thorough': 800}


def is_sub(ctx, Z0, U0, Z2, U2, N, D):
    """final state reachable from the initial one by row updates that remove only columns of their own and append at most two"""
    L0, L2 = Z0.shape[1], Z2.shape[1]
    # candidates: (source column or None, row that created it)
    alts = []

    def search(j, l, news, conj):
        # j: next final column, l: next old column, news: (row, count) of the last group of new columns
        if j == L2:
            alts.append(and_(*conj))
            return
        if news is None:
            for q in range(l, L0):
                # old column q survives as column j: it was used by others whenever a row was updated; columns between l and q are removed
                keep = [tm.eq(U2[d, j], U0[d, q]) for d in range(D)]
                # the first row keeps it only when a later row used it
                keep.append(or_(*[spec.pos(Z0[i, q]) for i in range(1, N)]) if N > 1 else FALSE)
                # the last row keeps it only when an earlier row uses it
                keep.append(or_(*[spec.pos(Z2[i, j]) for i in range(N - 1)]) if N > 1 else FALSE)
                search(j + 1, q + 1, None, conj + keep)
        r0, c0 = news if news is not None else (0, 0)
        for r in range(r0, N):
            c = c0 if r == r0 else 0
            if c == 2:
                continue
            own = []
            for i in range(N):
                if i < r:
                    own.append(not_(spec.pos(Z2[i, j])))      # not used by the rows updated before it was created
                elif i == r:
                    own.append(spec.pos(Z2[i, j]))
            search(j + 1, l, (r, c + 1), conj + own)
    search(0, 0, None, [])
    return or_(*alts)


def sweep(ctx, N, L, D, lbda=1.0, alpha=1.0, prior=0.5, extreme=None):
    # structure only: every draw can have any outcome, whatever its probability
    ctx.option(draw_free=True)
    Z, U, X = ctx.factor('Z', (N, L)), ctx.factor('U', (D, L)), ctx.data('X', (N, D))
    Z0, U0, x0 = [ctx.arr(ctx.copy(a)) for a in (Z, U, X)]
    mark = ctx.mark()
    r = ctx.call(mu.sample_2d_IBP, Z, U, X, lbda, prior, alpha)
    Z2, U2 = ctx.arr(r[0]), ctx.arr(r[1])
    if extreme is not None:
        for g, u in ctx.draws(mark, ('uniform',)):
            ctx.assume(tm.eq(u, tm.realc(0)) if extreme else tm.lt(tm.realc(Fraction(9999, 10000)), u))
    ctx.check(Z2.ndim == 2 and Z2.shape[0] == N, 'number of objects')
    ctx.check(U2.ndim == 2 and U2.shape[0] == D, 'number of features')
    ctx.check(Z2.shape[1] == U2.shape[1], 'common number of columns')
    ctx.check_eq(X, x0, 'data unchanged')
    ctx.observe('Z', r[0])
    ctx.observe('U', r[1])
    for a in list(Z2.reshape(-1)) + list(U2.reshape(-1)):
        ctx.check(is_pm1(a), 'entries in {-1,1}')
    if Z2.shape[1] != U2.shape[1]:
        return
    ctx.check(is_sub(ctx, Z0, U0, Z2, U2, N, D), 'columns')
    L2 = Z2.shape[1]
    if extreme is True:
        # every draw activates: a column survives exactly when a later row than the first uses it, and stays in order
        used = [or_(*[spec.pos(Z0[i, l]) for i in range(1, N)]) if N > 1 else FALSE for l in range(L)]
        alts = []
        for k in range(min(L, L2) + 1):
            for S in itertools.combinations(range(L), k):
                if L2 - k > 2 * N:
                    continue
                conj = [used[l] if l in S else not_(used[l]) for l in range(L)]
                for j, l in enumerate(S):
                    conj += [tm.eq(U2[d, j], U0[d, l]) for d in range(D)] + [spec.pos(Z2[i, j]) for i in range(N)]
                alts.append(and_(*conj))
        ctx.check(or_(*alts), 'columns used by other rows survive with their values')


def through_machine(ctx, shape, L, steps, X):
    m = machine(ctx)
    ctx.option(draw_free=True)
    d = meth(ctx, m, 'add_matrix', ctx.const(np.array(X, dtype=np.int8)), fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model='OR-AND-IBP')
    ctx.setattr(layer, 'alpha', 1.0)
    z, u = list(ctx.attr(layer, 'factors'))
    z0, u0 = ctx.factor('Z', (shape[0], L)), ctx.factor('U', (shape[1], L))
    ctx.setattr(z, 'val', z0)
    ctx.setattr(u, 'val', u0)
    lb = ctx.attr(layer, 'lbda')
    ctx.setattr(lb, 'val', 1.0)
    fz, fu, fl = ctx.call(mw.get_sampling_fct, z), ctx.call(mw.get_sampling_fct, u), ctx.call(lw.get_update_fct, lb)
    for s in steps:
        if s == 'z':
            ctx.call(fz, z)
        elif s == 'u':
            ctx.call(fu, u)
        else:
            ctx.call(fl, lb)
            ctx.setattr(lb, 'val', 1.0)
        za, ua = ctx.arr(ctx.call(z)), ctx.arr(ctx.call(u))
        ctx.check(za.shape[0] == shape[0] and ua.shape[0] == shape[1], 'number of rows')
        ctx.check(za.shape[1] == ua.shape[1], 'common number of columns')
        ctx.check(tuple(ctx.shape(ctx.attr(z, 'fixed_entries'))) == za.shape, 'mask of z has the shape of z')
        ctx.check(tuple(ctx.shape(ctx.attr(u, 'fixed_entries'))) == ua.shape, 'mask of u has the shape of u')
        for a in list(za.reshape(-1)) + list(ua.reshape(-1)):
            ctx.check(is_pm1(a), 'entries in {-1,1}')
    ctx.check_eq(ctx.call(d), np.array([[tm.intc(v) for v in r] for r in X], dtype=object), 'data unchanged')
    ctx.observe('z', ctx.call(z))


def trace(ctx, rows, L, more):
    mat = ctx.call(M.MachineMatrix, shape=(rows, L), child_axis=0)
    meth(ctx, mat, 'allocate_trace_arrays_IBP', len(more))
    vals = []
    for t, k in enumerate(more):
        v = ctx.factor('V%d' % t, (rows, max(0, L + k)))
        ctx.setattr(mat, 'val', v)
        vals.append(ctx.arr(ctx.copy(v)))
        meth(ctx, mat, 'update_trace_IBP')
    tr = ctx.arr(ctx.attr(mat, 'trace'))
    ctx.observe('trace', ctx.attr(mat, 'trace'))
    ctx.check(tr.shape[:2] == (len(more), rows), 'shape of the trace')
    for t, v in enumerate(vals):
        ctx.check(tr.shape[2] >= v.shape[1], 'columns of the trace')
        if tr.shape[2] < v.shape[1]:
            return
        for i in range(rows):
            for l in range(tr.shape[2]):
                ctx.check(tm.eq(tr[t, i, l], v[i, l] if l < v.shape[1] else tm.intc(-1)), 'recorded sample, unused columns -1')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for N, L, D in ((1, 0, 1), (1, 1, 1), (1, 2, 2), (2, 1, 1), (2, 0, 1), (2, 2, 1), (2, 1, 2)) + (((2, 3, 1), (3, 1, 1), (2, 2, 2)) if th else ()):
        out.append(case('sweep %dx%dx%d' % (N, L, D), sweep, cost=N * 5 + L + D, N=N, L=L, D=D))
    for N, L, D in ((2, 2, 1), (2, 1, 2), (3, 1, 1)) + (((2, 3, 1), (3, 2, 1)) if th else ()):
        out.append(case('sweep %dx%dx%d all draws activate' % (N, L, D), sweep, cost=50, N=N, L=L, D=D, extreme=True))
        out.append(case('sweep %dx%dx%d no draw activates' % (N, L, D), sweep, cost=50, N=N, L=L, D=D, extreme=False))
    out.append(case('machine z u', through_machine, cost=100, shape=(2, 1), L=1, steps='zul', X=[[1], [-1]]))
    out.append(case('machine u z u', through_machine, cost=20, shape=(1, 2), L=2, steps='uzu', X=[[1, -1]]))
    out.append(case('machine z z u', through_machine, cost=20, shape=(1, 2), L=1, steps='zzul', X=[[1, 1]]))
    for more in ((0, 0), (3, -1), (11, 0), (0, 12), (14, 13), (-2, 10)):
        out.append(case('trace %s' % (more,), trace, rows=2, L=2, more=more))
    return out
