"""Sampling a matrix with one or two parent layers."""
from .samplers import *
from lom._numba import matrix_updates_numba as mu
from lom import matrix_update_wrappers as mw

BOUNDS = ('matrix of shape 2x2 (tensor 2x1x2), parents with one or two latent dimensions, child data 2x2 (3D 2x1x1); one free entry at '
          'every position and two free entries in any order; all values of all factors, data, dispersions, prior; every one of the 8 models '
          'as parent (2D and 3D), as child (2D and 3D) and, for two parents, every model against a different one, in both positions '
          '(thorough: all 64 pairs, parents with up to 3 latent dimensions); matrices with 260 rows or columns, parents or child layers with 130 latent dimensions and child data with 260 columns, concrete but a window of 3 per array (there dispersion <= 1 and prior in [1/64, 63/64]); the sampler is the one get_sampling_fct assigns')
ASSUMPTIONS = ['a three-factor layer whose factor has two parents is not implemented by the package (NotImplementedError) and not covered']
BUDGET = {'quick': 300, 'thorough': 780}


def _pin(ctx, name, mat, shape, base=None):
    v = ctx.factor(name, shape) if base is None else window(ctx, name, shape, base, 3, 'factor')
    ctx.setattr(mat, 'val', v)
    return v


def hier(ctx, shape, child, axis, parents, Lp, free, act=None):
    """shape: shape of the sampled matrix; child: (model, other sizes) or None; parents: list of models.
    act: everything is concrete, and makes the latent dimensions active or not, but a window of 3 per array"""
    m = machine(ctx)
    top = None if act is None else 1
    zb = None if act is None else (1 if child is None else act_values(child[0], len(child[1]) + 1, act)[0])
    K = len(shape)
    snap = []
    if child is not None:
        cmodel, others = child
        N, L = shape
        dshape = list(others)
        dshape.insert(axis, N)
        X = ctx.data('X', tuple(dshape)) if act is None else window(ctx, 'X', tuple(dshape), 1, 3)
        d = meth(ctx, m, 'add_matrix', X, fixed=True)
        layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model=cmodel)
        fs = list(ctx.attr(layer, 'factors'))
        mat = fs[axis]
        sib = [f for k, f in enumerate(fs) if k != axis]
        sv = [None] * len(sib) if act is None else act_values(cmodel, len(fs), act)[1:]
        sibv = [_pin(ctx, 'S%d' % k, f, (n, L), b) for k, (f, n, b) in enumerate(zip(sib, others, sv))]
        lam = ctx.real('lambda', 0, top, True)
        ctx.setattr(ctx.attr(layer, 'lbda'), 'val', lam)
        snap += [('data', lambda: ctx.call(d), ctx.arr(ctx.copy(X)))]
        snap += [('other factors', (lambda f=f: ctx.call(f)), ctx.arr(ctx.copy(v))) for f, v in zip(sib, sibv)]
        order = (axis,) + tuple(k for k in range(len(fs)) if k != axis)
        x = np.transpose(ctx.arr(ctx.copy(X)), order)
        sf = [ctx.arr(ctx.copy(v)) for v in sibv]
    else:
        mat = meth(ctx, m, 'add_matrix', shape=tuple(shape))
    pl, pf = [], []
    for j, pm in enumerate(parents):
        lp = meth(ctx, m, 'add_layer', latent_size=Lp[j], child=mat, model=pm)
        ff = list(ctx.attr(lp, 'factors'))
        pv = [None] * len(ff) if act is None else act_values(pm, len(ff), act)
        vals = [_pin(ctx, 'P%d_%d' % (j, k), f, (n, Lp[j]), b) for k, (f, n, b) in enumerate(zip(ff, shape, pv))]
        pf.append([ctx.arr(ctx.copy(v)) for v in vals])
        l = ctx.real('lambda_pa%d' % j, 0, top, True)
        ctx.setattr(ctx.attr(lp, 'lbda'), 'val', l)
        pl.append(ctx.real_t(l))
        snap += [('parent factors', (lambda f=f: ctx.call(f)), ctx.arr(ctx.copy(v))) for f, v in zip(ff, vals)]
    Z = _pin(ctx, 'Z', mat, tuple(shape), zb)
    p = ctx.real('p', 0, 1, True, True) if act is None else ctx.real('p', Fraction(1, 64), Fraction(63, 64))
    ctx.setattr(mat, 'bernoulli_prior', p)
    pt = tm.logit(ctx.real_t(p))
    if free == 'each':
        pos = [ctx.choice('pos', list(np.ndindex(*shape)))]
    else:
        pos = [tuple(q) for q in free]
    mk = np.ones(tuple(shape), dtype=np.int8)
    for q in pos:
        mk[q] = 0
    ctx.setattr(mat, 'fixed_entries', ctx.const(mk))
    z0 = ctx.arr(ctx.copy(Z))
    f = ctx.call(mw.get_sampling_fct, mat)
    mark = ctx.mark()
    ctx.call(f, mat)
    z1 = ctx.arr(ctx.call(mat))
    ctx.observe('Z', ctx.call(mat))
    ctx.check(z1.shape == z0.shape, 'shape')
    for i in np.ndindex(*shape):
        ctx.check(is_pm1(z1[i]), 'entries in {-1,1}')
        if i not in pos:
            ctx.check(tm.eq(z1[i], z0[i]), 'fixed entries unchanged')
    for name, get, want in snap:
        ctx.check_eq(get(), want, name + ' unchanged')
    ctx.check_eq(ctx.attr(mat, 'fixed_entries'), mk, 'mask unchanged')

    def logodds(state, i):
        s = pt
        if child is not None:
            s = tm.add(s, tm.mul(ctx.real_t(lam), tm.to_real(model_score(cmodel, list(state[i[0]]), i[1], sf, x[i[0]]))))
        for pm, lp, fs_, in zip(parents, pl, pf):
            cols = [[spec.pos(g[q, k]) for g, q in zip(fs_, i)] for k in range(fs_[0].shape[1])]
            s = tm.add(s, tm.mul(lp, tm.to_real(spec.pm(spec.model_out(pm, cols)))))
        return s
    ctx.check(sweep_spec(z0, z1, pos, logodds, ctx.draws(mark)), 'update rule')


def three_parents(ctx):
    m = machine(ctx)
    mat = meth(ctx, m, 'add_matrix', shape=(2, 2))
    for k in range(3):
        meth(ctx, m, 'add_layer', latent_size=1, child=mat, model='OR-AND')
    e = ctx.raises(mw.get_sampling_fct, mat)
    ctx.check(isinstance(e, NotImplementedError), 'a third parent is rejected')


def two_parents_of_3d_factor(ctx):
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', ctx.data('X', (2, 1, 1)), fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=2, child=d, model='OR-AND')
    mat = ctx.attr(layer, 'factors')[0]
    for k in range(2):
        meth(ctx, m, 'add_layer', latent_size=1, child=mat, model='OR-AND')
    e = ctx.raises(mw.get_sampling_fct, mat)
    ctx.check(isinstance(e, NotImplementedError), 'a factor of a three-factor layer with two parents is rejected')


def cases(tier):
    out = []
    th = tier == 'thorough'
    n = len(MODELS)
    two = [(0, 0), (0, 1)]
    for i, a in enumerate(MODELS):
        b = MODELS[(i + 1) % n]
        c = MODELS[(i + 3) % n]
        kw = dict(child=None, axis=0, Lp=[2])
        out.append(case('no child, parent %s' % a, hier, cost=2, shape=(2, 2), parents=[a], free='each', **kw))
        out.append(case('no child, parent %s 3D' % a, hier, cost=4, shape=(2, 1, 2), parents=[a], free='each', **kw))
        out.append(case('no child, parent %s, two entries' % a, hier, cost=2, shape=(2, 2), parents=[a], free=two, **kw))
        out.append(case('child %s parent %s' % (a, b), hier, cost=4, shape=(2, 2), child=(a, (2,)), axis=0, parents=[b], Lp=[2], free='each'))
        out.append(case('child %s parent %s second factor' % (b, a), hier, cost=4, shape=(2, 2), child=(b, (2,)), axis=1, parents=[a], Lp=[2],
                        free='each'))
        out.append(case('child %s 3D parent %s' % (a, c), hier, cost=6, shape=(2, 2), child=(a, (1, 1)), axis=i % 3, parents=[c], Lp=[1],
                        free='each'))
        out.append(case('child %s parent %s two entries' % (a, c), hier, cost=8, shape=(1, 2), child=(a, (1,)), axis=0, parents=[c], Lp=[1],
                        free=two))
        for act in (0, 1):
            w = 'active' if act else 'inactive'
            out.append(case('parent %s with 130 dimensions %s' % (a, w), hier, cost=6, shape=(1, 1), child=None, axis=0, parents=[a], Lp=[130], free='each', act=act))
            out.append(case('3D parent %s with 130 dimensions %s' % (a, w), hier, cost=6, shape=(1, 1, 1), child=None, axis=0, parents=[a], Lp=[130], free='each', act=act))
            out.append(case('child %s with 130 dimensions %s, parent %s' % (a, w, b), hier, cost=6, shape=(1, 130), child=(a, (1,)), axis=0, parents=[b], Lp=[1], free=[(0, 129)], act=act))
            out.append(case('child %s 1x260 %s, parent %s' % (a, w, c), hier, cost=6, shape=(1, 1), child=(a, (260,)), axis=0, parents=[c], Lp=[1], free='each', act=act))
        out.append(case('parent %s of 260 rows' % a, hier, cost=6, shape=(260, 1), child=None, axis=0, parents=[a], Lp=[1], free=[(259, 0)], act=1))
        out.append(case('parents %s, %s of 1x260' % (a, b), hier, cost=6, shape=(1, 260), child=None, axis=0, parents=[a, b], Lp=[1, 1], free=[(0, 259)], act=1))
        pairs = [(a, b), (a, c)] if not th else [(a, q) for q in MODELS]
        for q, r in pairs:
            out.append(case('no child, parents %s, %s' % (q, r), hier, cost=3, shape=(2, 2), child=None, axis=0, parents=[q, r], Lp=[2, 1],
                            free='each'))
            out.append(case('no child, parents %s, %s 3D' % (q, r), hier, cost=4, shape=(1, 2, 2), child=None, axis=0, parents=[q, r],
                            Lp=[1, 2], free='each'))
            out.append(case('child %s parents %s, %s' % (c, q, r), hier, cost=5, shape=(2, 2), child=(c, (1,)), axis=0, parents=[q, r],
                            Lp=[1, 2], free='each'))
        if th:
            out.append(case('no child, parent %s L=3' % a, hier, cost=4, shape=(3, 2), child=None, axis=0, parents=[a], Lp=[3], free='each'))
            for q in MODELS:
                out.append(case('child %s, parent %s all' % (a, q), hier, cost=4, shape=(2, 2), child=(a, (2,)), axis=0, parents=[q],
                                Lp=[2], free='each'))
                out.append(case('child %s 3D, parent %s all' % (a, q), hier, cost=6, shape=(2, 2), child=(a, (1, 2)), axis=1, parents=[q],
                                Lp=[2], free='each'))
    out.append(case('three parents', three_parents))
    out.append(case('two parents of a factor of a three-factor layer', two_parents_of_3d_factor))
    return out
