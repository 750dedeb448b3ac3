"""Canonicalisation: requested model == canonical model with the reported inversions."""
from .common import *
from lom import auxiliary_functions as aux

BOUNDS = ('all 36 operator-pair names, 2 and 3 factors, all factor vectors of latent size 1..3 (thorough 5); data: all arrays in '
          '{-1,0,1} of shape 2x2 and 2x1x2, through Machine.add_layer and canonise_model')


def equivalence(ctx, model, K, L):
    shape = (2, 2) if K == 2 else (2, 1, 2)
    X = ctx.data('X', shape)
    x0 = ctx.arr(ctx.copy(X))
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', X, fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=2, child=d, model=model)
    canon = ctx.attr(layer, 'model')
    inv_d = bool(ctx.attr(layer, 'invert_data'))
    inv_f = bool(ctx.attr(layer, 'invert_factors'))
    ctx.check(canon in MODELS, 'canonical model is implemented')
    if canon not in ALL36:
        return
    cols = [[tm.var('f%d_%d' % (k, l), 'B') for k in range(K)] for l in range(L)]
    for c in cols:
        ctx.inputs.extend(c)
    a = spec.model_out(model, cols)
    b = spec.model_out(canon, [[not_(e) if inv_f else e for e in c] for c in cols])
    ctx.check(tm.iff(a, not_(b) if inv_d else b), 'same model')
    ctx.check(ctx.attr(layer, 'child') is d, 'child kept')
    seen = ctx.call(ctx.attr(layer, 'child'))
    for i in np.ndindex(*shape):
        ctx.check(tm.eq(ctx.arr(seen)[i], tm.neg(x0[i]) if inv_d else x0[i]), 'data seen by the layer')
    ctx.observe('seen', seen)
    ctx.check_eq(X, x0, 'caller array unchanged')
    ctx.check(ctx.attr(ctx.attr(layer, 'child'), 'val').dtype == np.int8, 'data stays int8')


def direct(ctx, model):
    """canonise_model called directly on a matrix object"""
    X = ctx.data('X', (2, 2))
    x0 = ctx.arr(ctx.copy(X))
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', X, fixed=True)
    canon, inv_d, inv_f = ctx.call(aux.canonise_model, model, d)
    ctx.check(canon in MODELS, 'canonical model is implemented')
    seen = ctx.arr(ctx.call(d))
    for i in np.ndindex(2, 2):
        ctx.check(tm.eq(seen[i], tm.neg(x0[i]) if inv_d else x0[i]), 'data seen')
    ctx.observe('seen', ctx.call(d))
    cols = [[tm.var('f%d_%d' % (k, l), 'B') for k in range(2)] for l in range(2)]
    for c in cols:
        ctx.inputs.extend(c)
    b = spec.model_out(canon, [[not_(e) if inv_f else e for e in c] for c in cols])
    ctx.check(tm.iff(spec.model_out(model, cols), not_(b) if inv_d else b), 'same model')


def cases(tier):
    out = []
    for m in ALL36:
        for K in (2, 3):
            for L in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)):
                out.append(case('%s %dD L=%d' % (m, K, L), equivalence, cost=L, model=m, K=K, L=L))
        out.append(case('%s canonise_model' % m, direct, model=m))
    return out
