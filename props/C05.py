"""Posterior score == exact change in correct predictions (per model, 2D/3D)."""
from .common import *
from lom._numba import matrix_updates_numba as mu

BOUNDS = ('2D: all rows z, factors U, data in {-1,0,1} for L<=3 latent dimensions, D<=3 cells (all 8 models), plus L up to 6 with '
          'one cell and D up to 6 with one latent dimension; 3D: L<=2, 2x2 cells, L<=3 with 1x2 cells; every latent index l; '
          'thorough: L<=4,D<=4 / 3D L<=3, 2x3.  260 cells or 130 latent dimensions, concrete but a window of 3 per array (more in C06).')


def score(ctx, model, K, shape, L):
    """shape: sizes of the data axes other than the first"""
    f = mu.get_posterior_score_fct(fname(model, K))
    Z = ctx.factor('Z', (L,))
    others = [ctx.factor('F%d' % k, (n, L)) for k, n in enumerate(shape)]
    X = ctx.data('X', tuple(shape))
    args = [Z] + others + [X]
    before = [ctx.arr(ctx.copy(a)) for a in args]
    z, fs, x = before[0], before[1:-1], before[-1]
    for l in range(L):
        got = ctx.call(f, Z, *others, X, l)
        want = tm.intc(0)
        for cell in np.ndindex(*shape):
            cols = [[spec.pos(z[k])] + [spec.pos(g[i, k]) for g, i in zip(fs, cell)] for k in range(L)]
            cols[l][0] = TRUE
            hi = spec.model_out(model, cols)
            cols[l][0] = FALSE
            lo = spec.model_out(model, cols)
            d = tm.sub(tm.b2i(hi), tm.b2i(lo))
            want = tm.add(want, tm.mul(x[cell], d))
        ctx.check_eq(got, want, 'score')
    for a, b in zip(args, before):
        ctx.check_eq(a, b, 'arguments unchanged')


def large(ctx, model, K, shape, L, act):
    """many cells or latent dimensions, concrete but a window"""
    f = mu.get_posterior_score_fct(fname(model, K))
    fs = window_factors(ctx, model, (1,) + shape, L, act)
    X = window(ctx, 'X', shape, 1, 3)
    z = ctx.arr(ctx.copy(fs[0]))[0]
    o = [ctx.arr(ctx.copy(g)) for g in fs[1:]]
    x = ctx.arr(ctx.copy(X))
    for l in sorted({0, L - 1}):
        want = tm.intc(0)
        for cell in np.ndindex(*shape):
            cols = [[spec.pos(z[k])] + [spec.pos(g[i, k]) for g, i in zip(o, cell)] for k in range(L)]
            cols[l][0] = TRUE
            hi = spec.model_out(model, cols)
            cols[l][0] = FALSE
            want = tm.add(want, tm.mul(x[cell], tm.sub(tm.b2i(hi), tm.b2i(spec.model_out(model, cols)))))
        ctx.check_eq(ctx.call(f, ctx.item(fs[0], 0), *fs[1:], X, l), want, 'score')


def cases(tier):
    out = []
    s2 = [((3,), 3), ((1,), 6), ((6,), 1), ((2,), 4)]
    s3 = [((2, 2), 2), ((1, 2), 3), ((3, 2), 1)]
    if tier == 'thorough':
        s2 += [((4,), 4), ((1,), 9), ((2,), 6), ((12,), 1)]
        s3 += [((2, 2), 3), ((2, 3), 2), ((1, 1), 6), ((3, 4), 1)]
    for m in MODELS:
        for act in (0, 1):
            for sh, L in (((130,), 1), ((260,), 2), ((1,), 64), ((1,), 130), ((1, 130), 1), ((130, 2), 1), ((1, 1), 130)):
                out.append(case('%s large %s L=%d %d' % (m, sh, L, act), large, cost=9, model=m, K=len(sh) + 1, shape=sh, L=L, act=act))
        for sh, L in s2:
            out.append(case('%s 2D D=%d L=%d' % (m, sh[0], L), score, cost=L * sh[0], model=m, K=2, shape=sh, L=L))
        for sh, L in s3:
            out.append(case('%s 3D %dx%d L=%d' % (m, sh[0], sh[1], L), score, cost=L * sh[0] * sh[1] * 2, model=m, K=3, shape=sh, L=L))
    return out
