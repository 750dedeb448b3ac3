"""Crisp model outputs == logical definition (scalar functions and generated arrays)."""
from .common import *
from lom import auxiliary_functions as aux
from lom._numba import lambda_updates_numba as lu
from lom._numba import matrix_updates_numba as mu

BOUNDS = ('scalar outputs (likelihood and parent versions): all factor vectors in {-1,1} of latent size 1..8 (quick) / 1..16 (thorough), '
          '8 models, 2D and 3D; arrays: all factors for 3x2 and 2x3x2 data with L<=3 (thorough 4x3, 3x2x3, L<=4), and 130 or 300 rows with L=1; one cell with 64, 130, 258 (thorough 128, 129, 257, 300) latent dimensions, all active or all inactive but a symbolic window of 3')


def scalar(ctx, model, K, L):
    fs = [ctx.factor('F%d' % k, (L,)) for k in range(K)]
    before = [ctx.arr(ctx.copy(f)) for f in fs]
    want = spec.pm(spec.model_out(model, [[spec.pos(b[l]) for b in before] for l in range(L)]))
    like = (lu.get_scalar_output_function_2d if K == 2 else lu.get_scalar_output_function_3d)
    ctx.check_eq(ctx.call(ctx.call(like, model), *fs), want, 'likelihood output')
    par = ctx.call(mu.get_parent_score_fct, fname(model, K))
    ctx.check_eq(ctx.call(par, *fs), want, 'parent output')
    for f, b in zip(fs, before):
        ctx.check_eq(f, b, 'arguments unchanged')


def array(ctx, model, shape, L):
    K = len(shape)
    fs = [ctx.factor('F%d' % k, (n, L)) for k, n in enumerate(shape)]
    before = [ctx.arr(ctx.copy(f)) for f in fs]
    want = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        want[i] = spec.pm(spec.model_out(model, cols_of(before, i)))
    got = ctx.call(aux.lom_generate_data_fast, list(fs), model)
    ctx.check_eq(got, want, 'generated array')
    mk = lu.make_output_function_2d if K == 2 else lu.make_output_function_3d
    ctx.check_eq(ctx.call(ctx.call(mk, model), *fs), want, 'output array')
    for f, b in zip(fs, before):
        ctx.check_eq(f, b, 'arguments unchanged')


def large(ctx, model, K, L, act):
    """many latent dimensions active, or inactive, but a symbolic window"""
    fs = window_factors(ctx, model, (1,) * K, L, act)
    want = spec.pm(spec.model_out(model, cols_of([ctx.arr(f) for f in fs], (0,) * K)))
    rows = [ctx.item(f, 0) for f in fs]
    like = (lu.get_scalar_output_function_2d if K == 2 else lu.get_scalar_output_function_3d)
    ctx.check_eq(ctx.call(ctx.call(like, model), *rows), want, 'likelihood output')
    ctx.check_eq(ctx.call(ctx.call(mu.get_parent_score_fct, fname(model, K)), *rows), want, 'parent output')
    ctx.check_eq(ctx.arr(ctx.call(aux.lom_generate_data_fast, list(fs), model)).reshape(-1)[0], want, 'generated array')
    mk = lu.make_output_function_2d if K == 2 else lu.make_output_function_3d
    ctx.check_eq(ctx.arr(ctx.call(ctx.call(mk, model), *fs)).reshape(-1)[0], want, 'output array')


def cases(tier):
    out = []
    Ls = (1, 2, 3, 5, 8) if tier == 'quick' else (1, 2, 3, 4, 6, 8, 12, 16)
    sh = [((3, 2), 3), ((2, 3, 2), 2), ((130, 1), 1), ((1, 130), 1), ((1, 1, 130), 1)]
    if tier == 'thorough':
        sh += [((4, 3), 4), ((3, 2, 3), 4), ((300, 1), 1), ((1, 300), 1), ((1, 300, 1), 1), ((130, 1, 1), 1)]
    for m in MODELS:
        for K in (2, 3):
            for L in Ls:
                out.append(case('%s %dD scalar L=%d' % (m, K, L), scalar, cost=L, model=m, K=K, L=L))
            for L in (64, 130, 258) + ((128, 129, 257, 300) if tier == 'thorough' else ()):
                for act in (0, 1):
                    out.append(case('%s %dD L=%d %s' % (m, K, L, 'active' if act else 'inactive'), large, cost=20, model=m, K=K, L=L, act=act))
        for s, L in sh:
            out.append(case('%s array %s L=%d' % (m, 'x'.join(map(str, s)), L), array, cost=20, model=m, shape=s, L=L))
    return out
