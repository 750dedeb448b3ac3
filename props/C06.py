"""Scores and counts stay exact beyond the range of narrow integers."""
from .common import *
from .common import window as _window
from lom._numba import matrix_updates_numba as mu
from lom._numba import lambda_updates_numba as lu

BOUNDS = ('scores over 140, 300 and 33000 (thorough 66000) cells in 2D and 12x12, 18x18 and 182x182 cells in 3D, and counts over 15x15, 17x17, '
          '182x182, 6x6x6, 7x7x7 and 33x33x32 cells: all cells push in one direction (both directions tried) except a window of 2 to 4 symbolic '
          'factor entries per factor and data cells, which is decided for all its values; 257 (thorough 129 to 600) latent dimensions all active, or '
          'all inactive, but a symbolic window of 3; all 8 models in 2D and 3D, plus the qL-AND scores and count; thorough: 140, 12x12 and '
          '15x15 cells fully symbolic for the models without XOR')


def _like(model, K):
    return mu.get_posterior_score_fct(fname(model, K))


def expected_score(ctx, model, z, fs, x, shape, l, L):
    want = tm.intc(0)
    for cell in np.ndindex(*shape):
        cols = [[spec.pos(z[k])] + [spec.pos(g[i, k]) for g, i in zip(fs, cell)] for k in range(L)]
        cols[l][0] = TRUE
        hi = spec.model_out(model, cols)
        cols[l][0] = FALSE
        lo = spec.model_out(model, cols)
        if hi is lo:
            continue
        want = tm.add(want, tm.mul(x[cell], tm.sub(tm.b2i(hi), tm.b2i(lo))))
    return want


def score(ctx, model, K, shape, window, base_x=1):
    Z = ctx.factor('Z', (1,))
    if window:
        base = [1, -1] if model.split('-')[1] in ('XOR', 'NXOR') else [1, 1]
        others = [_window(ctx, 'F%d' % k, (n, 1), base[k], window, 'factor') for k, n in enumerate(shape)]
        X = _window(ctx, 'X', tuple(shape), base_x, window)
    else:
        others = [ctx.factor('F%d' % k, (n, 1)) for k, n in enumerate(shape)]
        X = ctx.data('X', tuple(shape))
    a = [ctx.arr(v) for v in [Z] + others + [X]]
    want = expected_score(ctx, model, a[0], a[1:-1], a[-1], shape, 0, 1)
    got = ctx.call(_like(model, K), Z, *others, X, 0)
    ctx.check_eq(got, want, 'score')


def latent(ctx, model, K, L, act):
    """many latent dimensions active at once"""
    inner = model.split('-')[1]
    shape = (1,) * (K - 1)
    # value of the factors that makes a latent dimension active / inactive
    combos = {('AND', 1): (1,) * K, ('AND', 0): (1,) * (K - 1) + (-1,), ('NAND', 1): (1,) * (K - 1) + (-1,), ('NAND', 0): (1,) * K,
              ('XOR', 1): (1,) + (-1,) * (K - 1), ('XOR', 0): (-1,) * K, ('NXOR', 1): (-1,) * K, ('NXOR', 0): (1,) + (-1,) * (K - 1)}
    vec = combos[(inner, act)]
    Z = _window(ctx, 'Z', (L,), vec[0], 3, 'factor')
    others = [_window(ctx, 'F%d' % k, (1, L), vec[k + 1], 3, 'factor') for k in range(K - 1)]
    X = ctx.data('X', shape)
    a = [ctx.arr(v) for v in [Z] + others + [X]]
    cols = [[spec.pos(a[0][k])] + [spec.pos(g[0, k]) for g in a[1:-1]] for k in range(L)]
    out = ctx.call(lu.get_scalar_output_function_2d if K == 2 else lu.get_scalar_output_function_3d, model)
    rows = [Z] + [(o[0, :] if not ctx.symbolic else I_row(o)) for o in others]
    ctx.check_eq(ctx.call(out, *rows), spec.pm(spec.model_out(model, cols)), 'output')
    for l in (0, L - 1):
        want = expected_score(ctx, model, a[0], a[1:-1], a[-1], shape, l, L)
        ctx.check_eq(ctx.call(_like(model, K), Z, *others, X, l), want, 'score')


def I_row(o):
    from sx.vals import SA
    return SA(o.data[0, :], o.dtype)


def count(ctx, model, shape, window):
    K = len(shape)
    if window:
        fs = [_window(ctx, 'F%d' % k, (n, 1), 1, window, 'factor') for k, n in enumerate(shape)]
        base = 1 if spec.model_out(model, [[TRUE] * K]) is TRUE else -1
        X = _window(ctx, 'X', tuple(shape), base, window)
    else:
        fs = [ctx.factor('F%d' % k, (n, 1)) for k, n in enumerate(shape)]
        X = ctx.data('X', tuple(shape))
    a = [ctx.arr(v) for v in fs]
    x = ctx.arr(X)
    want = tm.intc(0)
    for cell in np.ndindex(*shape):
        o = spec.model_out(model, [[spec.pos(g[i, 0]) for g, i in zip(a, cell)]])
        want = tm.add(want, tm.b2i(or_(and_(o, tm.eq(x[cell], tm.intc(1))), and_(not_(o), tm.eq(x[cell], tm.intc(-1))))))
    f = ctx.call(lu.make_correct_predictions_counter, model, K)
    ctx.check_eq(ctx.call(f, *fs, X), want, 'count')


def ql(ctx, D, which):
    Z = ctx.factor('Z', (1,))
    U = _window(ctx, 'U', (D, 1), 1, 3, 'factor')
    X = _window(ctx, 'X', (D,), -1, 3)
    a, u, x = ctx.arr(Z), ctx.arr(U), ctx.arr(X)
    want = spec.sum_([tm.mul(x[d], tm.b2i(spec.pos(u[d, 0]))) for d in range(D)])
    if which == 'Z':
        got = ctx.call(mu.posterior_score_fct_qL_Z, Z, U, X, 0, ctx.const(np.ones((1, D), dtype=np.int8)))
    else:
        got = ctx.call(mu.posterior_score_fct_qL_U, Z, U, X, 0, ctx.const(np.int8(1)) if not ctx.symbolic else np.int8(1))
    ctx.check_eq(got, want, 'score')


def ql_count(ctx, shape):
    fs = [_window(ctx, 'F%d' % k, (n, 1), 1, 3, 'factor') for k, n in enumerate(shape)]
    X = _window(ctx, 'X', tuple(shape), 1, 3)
    q = ctx.const(np.ones(shape[1], dtype=np.int8))
    a = [ctx.arr(v) for v in fs]
    x = ctx.arr(X)
    want = tm.intc(0)
    for c in np.ndindex(*shape):
        o = and_(*[spec.pos(g[i, 0]) for g, i in zip(a, c)])
        want = tm.add(want, tm.b2i(or_(and_(o, tm.eq(x[c], tm.intc(1))), and_(not_(o), tm.eq(x[c], tm.intc(-1))))))
    f = ctx.call(lu.make_correct_predictions_counter, 'qL-AND', 2)
    ctx.check_eq(ctx.call(f, *fs, X, q), want, 'count')


def cases(tier):
    out = []
    th = tier == 'thorough'
    for m in MODELS:
        for b in (1, -1):
            for D in (140, 300) + ((66000,) if th else ()):
                out.append(case('%s score 2D D=%d base %d' % (m, D, b), score, cost=D / 200., model=m, K=2, shape=(D,), window=4, base_x=b))
            for sh in ((12, 12), (18, 18)):
                out.append(case('%s score 3D %dx%d base %d' % (m, *sh, b), score, cost=3, model=m, K=3, shape=sh, window=4, base_x=b))
        for b in ((1, -1) if th else (1,)):
            out.append(case('%s score 2D D=33000 base %d' % (m, b), score, cost=150, model=m, K=2, shape=(33000,), window=3, base_x=b))
            if th or m in ('OR-AND', 'XOR-XOR'):
                out.append(case('%s score 3D 182x182 base %d' % (m, b), score, cost=150, model=m, K=3, shape=(182, 182), window=3, base_x=b))
        for sh in ((15, 15), (17, 17), (6, 6, 6), (7, 7, 7)):
            out.append(case('%s count %s' % (m, 'x'.join(map(str, sh))), count, cost=3, model=m, shape=sh, window=4))
        if th or m in ('OR-AND', 'OR-XOR', 'XOR-XOR'):
            out.append(case('%s count 182x182' % m, count, cost=150, model=m, shape=(182, 182), window=2))
        if th or m == 'OR-AND':
            out.append(case('%s count 33x33x32' % m, count, cost=150, model=m, shape=(33, 33, 32), window=2))
        for K in (2, 3):
            for L in ((257,) if not th else (129, 257, 300, 600)):
                out.append(case('%s latent %dD L=%d active' % (m, K, L), latent, cost=60, model=m, K=K, L=L, act=1))
                out.append(case('%s latent %dD L=%d inactive' % (m, K, L), latent, cost=60, model=m, K=K, L=L, act=0))
    if th:
        for m in ('OR-AND', 'OR-NAND', 'XOR-AND', 'XOR-NAND'):
            out.append(case('%s score 2D D=140 all symbolic' % m, score, cost=50, model=m, K=2, shape=(140,), window=0, base_x=1))
            out.append(case('%s score 3D 12x12 all symbolic' % m, score, cost=50, model=m, K=3, shape=(12, 12), window=0, base_x=1))
            out.append(case('%s count 15x15 all symbolic' % m, count, cost=50, model=m, shape=(15, 15), window=0))
    for w in 'ZU':
        out.append(case('qL score %s D=300' % w, ql, cost=5, D=300, which=w))
        out.append(case('qL score %s D=33000' % w, ql, cost=100, D=33000, which=w))
    out.append(case('qL count 182x182', ql_count, cost=150, shape=(182, 182)))
    return out
