"""MAX-AND outputs."""
import itertools
from fractions import Fraction
from .samplers import *
from lom._numba import lom_outputs as lo
from lom._numba import lom_outputs_fuzzy as lf

BOUNDS = ('1 to 3 latent dimensions (thorough 4), 2x2 and 1x2 cells, all factor values or all factor probabilities in [0,1], all dispersions '
          'strictly between 0 and 1 in every weak order with the clamped one smallest; through layer.output(point_estimate, factor_map, factor_mean, mc '
          'with 2 samples) and through the product functions; 130 (thorough 258) latent dimensions, concrete but a small window')
BUDGET = {'quick': 300, 'thorough': 780}


def dispersions(ctx, L, order, name='lbda'):
    """L+1 dispersions in the given weak order (descending), the last one smallest"""
    v = ctx.reals(name, (L + 1,), 0, 1, True, True)
    t = ctx.arr(ctx.copy(v))
    seq = [t[i] for i in order] + [t[L]]
    for a, b in zip(seq, seq[1:]):
        ctx.assume(tm.le(b, a))
    return v, t


def crisp_out(order, L, lam, active):
    """term: largest dispersion of the active dimensions, clamped one when none is"""
    r = lam[L]
    for l in reversed(order):
        r = tm.ite(active[l], lam[l], r)
    return r


def mean_out(order, L, lam, p):
    r, none = tm.realc(0), tm.realc(1)
    # enumeration of the subsets, largest dispersion of the subset
    for sub in itertools.product((0, 1), repeat=L):
        w = tm.realc(1)
        for l in range(L):
            w = tm.mul(w, p[l] if sub[l] else tm.sub(tm.realc(1), p[l]))
        best = next((l for l in order if sub[l]), L)
        r = tm.add(r, tm.mul(w, lam[best]))
    return r


def crisp_fn(ctx, N, D, L, order):
    Z, U = ctx.factor('Z', (N, L)), ctx.factor('U', (D, L))
    lam, lt = dispersions(ctx, L, order)
    z, u = ctx.arr(ctx.copy(Z)), ctx.arr(ctx.copy(U))
    out = ctx.call(lo.MAX_AND_product_2d, [Z, U], lam)
    o = ctx.arr(out)
    ctx.check(o.shape == (N, D), 'shape')
    ctx.observe('out', out)
    for n in range(N):
        for d in range(D):
            act = [and_(spec.pos(z[n, l]), spec.pos(u[d, l])) for l in range(L)]
            ctx.check(ctx.eq(o[n, d], crisp_out(order, L, lt, act)), 'largest active dispersion')
    unchanged(ctx, Z, z, 'factor')
    unchanged(ctx, U, u, 'factor')
    unchanged(ctx, lam, lt, 'dispersions')


def mean_fn(ctx, N, D, L, order):
    Z, U = ctx.reals('Z', (N, L), 0, 1), ctx.reals('U', (D, L), 0, 1)
    lam, lt = dispersions(ctx, L, order)
    z, u = ctx.arr(ctx.copy(Z)), ctx.arr(ctx.copy(U))
    out = ctx.call(lf.MAX_AND_product_fuzzy, Z, U, lam)
    o = ctx.arr(out)
    ctx.check(o.shape == (N, D), 'shape')
    ctx.observe('out', out)
    for n in range(N):
        for d in range(D):
            p = [tm.mul(z[n, l], u[d, l]) for l in range(L)]
            ctx.check(ctx.eq(o[n, d], mean_out(order, L, lt, p)), 'expected dispersion')


def large(ctx, L, act, down):
    """many latent dimensions, active or not but a symbolic window; distinct concrete dispersions"""
    Z, U = window_factors(ctx, 'OR-AND', (1, 1), L, act)
    order = list(range(L)) if down else [(7 * i) % L for i in range(L)]
    val = np.zeros(L + 1)
    for k, l in enumerate(order):
        val[l] = (512 - k) / 1024.0
    val[L] = 1 / 1024.0
    z, u = ctx.arr(ctx.copy(Z)), ctx.arr(ctx.copy(U))
    out = ctx.arr(ctx.call(lo.MAX_AND_product_2d, [Z, U], ctx.const(val)))
    lt = [tm.realc(Fraction(v)) for v in val]
    a = [and_(spec.pos(z[0, l]), spec.pos(u[0, l])) for l in range(L)]
    ctx.check(ctx.eq(out[0, 0], crisp_out(order, L, lt, a)), 'largest active dispersion')
    pz = [np.full((1, L), float(v)) for v in ((1, 1) if act else (0, 1))]
    w = ctx.reals('P', (2, 2), 0, 1)
    for k in range(2):
        a = ctx.const(pz[k])
        for j, l in enumerate((0, L - 1)):
            (a.data if ctx.symbolic else a)[0, l] = (w.data if ctx.symbolic else w)[k, j]
        pz[k] = a
    p = [ctx.arr(ctx.copy(v)) for v in pz]
    out = ctx.arr(ctx.call(lf.MAX_AND_product_fuzzy, pz[0], pz[1], ctx.const(val)))
    want, rest = tm.realc(0), tm.realc(1)
    for l in order:
        q = tm.mul(p[0][0, l], p[1][0, l])
        want = tm.add(want, tm.mul(rest, tm.mul(q, lt[l])))
        rest = tm.mul(rest, tm.sub(tm.realc(1), q))
    want = tm.add(want, tm.mul(rest, lt[L]))
    ctx.check(ctx.eq(out[0, 0], want), 'expected dispersion')


def layer_out(ctx, technique, N, D, L, order, T=0):
    m = machine(ctx)
    X = ctx.const(np.ones((N, D), dtype=np.int8))
    d = meth(ctx, m, 'add_matrix', X, fixed=True)
    layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model='MAX-AND')
    fs = list(ctx.attr(layer, 'factors'))
    val = [ctx.factor('F%d' % k, (n, L)) for k, (f, n) in enumerate(zip(fs, (N, D)))]
    lam, lt = dispersions(ctx, L, order)
    for f, v in zip(fs, val):
        ctx.setattr(f, 'val', v)
    lb = ctx.attr(layer, 'lbda')
    ctx.setattr(lb, 'val', lam)
    tr, ltr, orders = None, None, None
    if T:
        tr = [ctx.factor('T%d' % k, (T, n, L)) for k, n in enumerate((N, D))]
        for f, v in zip(fs, tr):
            ctx.setattr(f, 'trace', v)
        rows = [dispersions(ctx, L, order, 'lbda%d' % t) for t in range(T)]
        lr = np.empty((T, L + 1), dtype=object)
        for t in range(T):
            lr[t] = rows[t][1]
        if ctx.symbolic:
            from sx.vals import SA
            tv = SA(lr.copy(), np.float64)
        else:
            tv = np.stack([r[0] for r in rows])
        ctx.setattr(lb, 'trace', tv)
        tt = [ctx.arr(ctx.copy(v)) for v in tr]
    vv = [ctx.arr(ctx.copy(v)) for v in val]
    out = meth(ctx, layer, 'output', technique=technique)
    o = ctx.arr(out)
    ctx.check(o.shape == (N, D), 'shape')
    ctx.observe('out', out)
    for n in range(N):
        for e in range(D):
            idx = (n, e)
            if technique == 'mc':
                want = tm.realc(0)
                for t in range(T):
                    act = [and_(spec.pos(tt[0][t, n, l]), spec.pos(tt[1][t, e, l])) for l in range(L)]
                    want = tm.add(want, crisp_out(order, L, lr[t], act))
                want = tm.scale(want, __import__('fractions').Fraction(1, T))
            elif T and technique == 'factor_map':
                mp = [[tm.lt(tm.intc(0), spec.sum_([v[t, q, l] for t in range(T)])) for l in range(L)] for v, q in zip(tt, idx)]
                want = crisp_out(order, L, lt, [and_(a, b) for a, b in zip(*mp)])
            elif T and technique == 'factor_mean':
                from fractions import Fraction
                half = Fraction(1, 2 * T)
                mean = [[tm.add(tm.scale(tm.to_real(spec.sum_([v[t, q, l] for t in range(T)])), half), tm.realc(Fraction(1, 2)))
                         for l in range(L)] for v, q in zip(tt, idx)]
                lm = [tm.scale(spec.sum_([lr[t][l] for t in range(T)], True), Fraction(1, T)) for l in range(L + 1)]
                want = mean_out(order, L, lm, [tm.mul(a, b) for a, b in zip(*mean)])
            else:
                act = [and_(spec.pos(vv[0][n, l]), spec.pos(vv[1][e, l])) for l in range(L)]
                want = crisp_out(order, L, lt, act)
            ctx.check(ctx.eq(o[n, e], want), 'output')
            ctx.check(tm.le(o[n, e], tm.realc(1)) if ctx.symbolic else True, 'at most one')
    for f, v in zip(fs, vv):
        ctx.check_eq(ctx.call(f), v, 'factors unchanged')
    ctx.check_eq(ctx.call(lb), lt, 'dispersions unchanged')
    ctx.check_eq(ctx.call(d), np.ones((N, D), dtype=np.int8), 'data unchanged')


def cases(tier):
    out = []
    Ls = (1, 2, 3) + ((4,) if tier == 'thorough' else ())
    for L in Ls:
        for order in itertools.permutations(range(L)):
            o = ''.join(map(str, order))
            out.append(case('crisp L=%d order %s' % (L, o), crisp_fn, cost=L, N=2, D=2 if L < 4 else 1, L=L, order=order))
            out.append(case('mean L=%d order %s' % (L, o), mean_fn, cost=2 * L, N=1, D=2 if L < 3 else 1, L=L, order=order))
    for L in (130, 258) if tier == 'thorough' else (130,):
        for act in (0, 1):
            for down in (0, 1):
                out.append(case('L=%d %s %d' % (L, 'active' if act else 'inactive', down), large, cost=5, L=L, act=act, down=down))
    for order in ((0, 1), (1, 0)):
        o = ''.join(map(str, order))
        for t in ('point_estimate', 'factor_map', 'factor_mean'):
            out.append(case('layer %s no trace %s' % (t, o), layer_out, cost=4, technique=t, N=1, D=2, L=2, order=order))
        for t in ('point_estimate', 'factor_map', 'factor_mean', 'mc'):
            for T in ((2,) if tier == 'quick' else (2, 3)):
                out.append(case('layer %s trace %d %s' % (t, T, o), layer_out, cost=6, technique=t, N=1, D=2, L=2, order=order, T=T))
    return out
