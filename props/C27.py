"""Machine.add_matrix / add_layer: well-formed factors, caller's data intact."""
from .common import *
from lom import machine as M

SPECIAL = ['MAX-AND', 'OR-AND-IBP', 'qL-AND']
BOUNDS = ('all 36 operator-pair names plus MAX-AND, OR-AND-IBP, qL-AND; data of shape 2x3 and 2x1x2 (all values in {-1,0,1}; '
          'int8, int64, float64), latent size 1..3, all values of the random initialisation; one or two machines on one array; no shared storage among the members of two layers on 2x2 and 2x2x2 data')


def check_layer(ctx, layer, child, shape, L, K=None):
    fs = list(ctx.attr(layer, 'factors'))
    ctx.check(len(fs) == len(shape), 'one factor per axis')
    for k, f in enumerate(fs):
        v = ctx.call(f)
        ctx.check(ctx.shape(v) == (shape[k], L), 'factor shape')
        ctx.check(np.dtype(v.dtype) == np.int8, 'factor dtype')
        ctx.check(and_(*[is_pm1(t) for t in ctx.arr(v).reshape(-1)]), 'entries in {-1,1}')
        fe = ctx.attr(f, 'fixed_entries')
        ctx.check_eq(fe, np.zeros((shape[k], L), dtype=np.int8), 'no fixed entries')
        ctx.check(ctx.attr(f, 'child_axis') == k, 'axis')
        ctx.check(ctx.attr(f, 'layer') is layer, 'layer of factor')
        ctx.check(not ctx.attr(f, 'fixed'), 'factor not fixed')
    ctx.check(ctx.attr(layer, 'size') == L, 'latent size')
    c = ctx.attr(layer, 'child')
    if child is not None:
        ctx.check(c is child, 'attached to the given child')
    ctx.check(ctx.attr(c, 'parents')[-1] is layer, 'child knows the layer')
    ctx.check(ctx.shape(ctx.call(c)) == tuple(shape), 'child shape')


def build(ctx, model, shape, L, dtype, twice):
    X = ctx.data('X', shape, np.dtype(dtype))
    x0 = ctx.arr(ctx.copy(X))
    for rep in range(2 if twice else 1):
        m = machine(ctx)
        d = meth(ctx, m, 'add_matrix', X, fixed=True)
        ctx.check(np.dtype(ctx.call(d).dtype) == np.int8, 'data is int8')
        for i in np.ndindex(*shape):
            ctx.check(tm.eq(tm.to_int(ctx.arr(ctx.call(d))[i]) if False else tm.to_real(ctx.arr(ctx.call(d))[i]),
                            tm.to_real(x0[i])), 'matrix holds the values')
        layer = meth(ctx, m, 'add_layer', latent_size=L, child=d, model=model)
        check_layer(ctx, layer, d, shape, L)
        ctx.check(list(ctx.attr(m, 'layers')) == [layer], 'layer registered')
        ctx.check(ctx.attr(layer, 'machine') is m, 'machine of layer')
        ctx.check_eq(X, x0, 'caller array unchanged')
        inv = bool(ctx.attr(layer, 'invert_data'))
        seen = ctx.arr(ctx.call(d))
        for i in np.ndindex(*shape):
            r = tm.to_real(x0[i])
            ctx.check(tm.eq(tm.to_real(seen[i]), tm.neg(r) if inv else r), 'data after building')
        mem = ctx.attr(m, 'members')
        ctx.check(all(any(f is g for g in mem) for f in ctx.attr(layer, 'factors')) and any(d is g for g in mem), 'members')


def from_shape(ctx, model, shape, L):
    m = machine(ctx)
    layer = meth(ctx, m, 'add_layer', latent_size=L, shape=shape, model=model)
    check_layer(ctx, layer, None, shape, L)


def put(ctx, a, i, v):
    """write one entry of an array in place"""
    if ctx.symbolic:
        a.data[i] = tm.intc(v)
    else:
        a[i] = v


def independent(ctx, model, shape, L):
    """no two members share storage: an entry written in one array shows up nowhere else"""
    X = ctx.data('X', shape)
    Y = ctx.data('Y', shape)
    m = machine(ctx)
    arrs = [('caller', X), ('caller', Y)]
    for k, x in enumerate((X, Y)):
        d = meth(ctx, m, 'add_matrix', x, fixed=True)
        lay = meth(ctx, m, 'add_layer', latent_size=L, child=d, model=model)
        for f in list(ctx.attr(lay, 'factors')):
            arrs.append(('factor', ctx.call(f)))
            arrs.append(('mask', ctx.attr(f, 'fixed_entries')))
        if model == 'qL-AND':
            arrs.append(('thresholds', ctx.call(ctx.attr(lay, 'q'))))
    for j, (n, a) in enumerate(arrs):
        before = [ctx.arr(ctx.copy(b)) for _, b in arrs]
        i = (0,) * before[j].ndim
        put(ctx, a, i, 7)
        for k, (q, b) in enumerate(arrs):
            if k != j:
                ctx.check_eq(b, before[k], '%s does not share storage with %s' % (q, n))


def density(ctx, shape):
    """matrix initialised with a given density"""
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', shape=shape)
    v = ctx.call(d)
    ctx.check(ctx.shape(v) == tuple(shape), 'shape')
    ctx.check(np.dtype(v.dtype) == np.int8, 'dtype')
    ctx.check(and_(*[is_pm1(t) for t in ctx.arr(v).reshape(-1)]), 'entries in {-1,1}')
    ctx.observe('random matrix', v)


def cases(tier):
    out = []
    for m in ALL36 + SPECIAL:
        two = [((2, 3), 2)] + ([((2, 1, 2), 2)] if m not in SPECIAL else [])
        for s, L in two:
            n = 'x'.join(map(str, s))
            out.append(case('%s build %s int8 twice' % (m, n), build, model=m, shape=s, L=L, dtype='int8', twice=True))
            out.append(case('%s shape %s' % (m, n), from_shape, model=m, shape=s, L=L))
            if tier == 'thorough':
                out.append(case('%s build %s L=3 once' % (m, n), build, model=m, shape=s, L=3, dtype='int8', twice=False))
                out.append(case('%s build %s L=1 int32' % (m, n), build, model=m, shape=s, L=1, dtype='int32', twice=True))
        out.append(case('%s build 2x2 float' % m, build, model=m, shape=(2, 2), L=1, dtype='float64', twice=True))
        for s in ((2, 2), (2, 2, 2)):
            if len(s) == 2 or m not in SPECIAL:
                out.append(case('%s independent arrays %s' % (m, 'x'.join(map(str, s))), independent, model=m, shape=s, L=2))
        out.append(case('%s build 1x3 int64' % m, build, model=m, shape=(1, 3), L=3, dtype='int64', twice=False))
    out.append(case('random matrix 2x3', density, shape=(2, 3)))
    return out
