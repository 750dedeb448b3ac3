"""Data coding helpers and generators of random matrices."""
from fractions import Fraction
from .common import *
from sx import vals as V
from lom import auxiliary_functions as aux

BOUNDS = ('check_binary_coding: arrays of up to 6 entries in {0,1}, {-1,1} and {-1,0,1}, 2D and 3D, integer, Boolean and float types; set_to_map: traces of 1 to 3 samples (130 and 300, concrete but a window of 3), 2x2 factors '
          'and tensors; random matrices up to 2x2; generate_orm_product up to 3 rows and columns and 2 latent dimensions with up to one rejected proposal in total; '
          'disjointness test on matrices up to 3x3')
BUDGET = {'quick': 300, 'thorough': 780}
ONE, MINUS, ZERO = tm.intc(1), tm.intc(-1), tm.intc(0)


def coding(ctx, shape, dtype, vals):
    """vals: '01', '-11', '-101'"""
    dt = np.dtype(dtype)
    if dt == bool:
        x = ctx.bits('X', shape, bool)
    elif vals == '01':
        x = ctx.bits('X', shape, np.int8)
    else:
        x = ctx.data('X', shape, zeros=vals == '-101')
    x0 = ctx.arr(ctx.copy(x))
    cells = list(np.ndindex(*shape))
    if dt not in (np.dtype(bool), np.dtype(np.int8)):
        x = V.astype(x, dt) if ctx.symbolic else x.astype(dt)
    keep = [ctx.arr(ctx.copy(x))[c] for c in cells]
    y = ctx.call(aux.check_binary_coding, x)
    a = ctx.arr(y)
    ctx.check(a.shape == tuple(shape), 'shape')
    if a.shape != tuple(shape):
        return
    ctx.check(np.dtype(y.dtype) == np.int8, '8-bit integers')
    ctx.observe('coded', y)
    coded = or_(*[tm.eq(x0[c], MINUS) for c in cells]) if dt != bool else FALSE
    one = (lambda c: x0[c]) if dt == bool else (lambda c: tm.eq(x0[c], ONE))
    for c in cells:
        mapped = tm.eq(a[c], tm.ite(one(c), ONE, MINUS))
        ctx.check(or_(coded, mapped), '0/1 data are mapped to -1/1')
        if dt != bool:
            ctx.check(or_(not_(coded), tm.eq(a[c], x0[c])), 'coded data are unchanged')
    ctx.check(and_(*[ctx.eq(ctx.arr(x)[c], k) for c, k in zip(cells, keep)]), 'input unchanged')
    z = ctx.call(aux.check_binary_coding, y)
    ctx.check(np.dtype(z.dtype) == np.int8, '8-bit integers')
    ctx.check_eq(z, a, 'idempotent')


def to_map(ctx, shape, T, real, long=None):
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', ctx.factor('F', shape))
    tr = None
    if T:
        tr = window(ctx, 'T', (T,) + shape, long, 3, 'factor') if long is not None else ctx.reals('T', (T,) + shape, -1, 1) if real else ctx.factor('T', (T,) + shape)
        ctx.setattr(d, 'trace', tr)
        t0 = ctx.arr(ctx.copy(tr))
    f0 = ctx.arr(ctx.copy(ctx.call(d)))
    meth(ctx, d, 'set_to_map')
    v = ctx.call(d)
    a = ctx.arr(v)
    ctx.check(a.shape == shape, 'shape')
    if a.shape != shape:
        return
    ctx.check(np.dtype(v.dtype) == np.int8, '8-bit integers')
    ctx.observe('map', v)
    for i in np.ndindex(*shape):
        s = spec.sum_([tm.to_real(t0[(t,) + i]) for t in range(T)], True) if T else tm.to_real(f0[i])
        ctx.check(tm.eq(a[i], tm.ite(tm.lt(tm.realc(0), s), ONE, MINUS)), '+1 where the posterior mean is positive, else -1')
    if T:
        ctx.check_eq(ctx.attr(d, 'trace'), t0, 'trace unchanged')


def random_matrix(ctx, shape):
    p = ctx.real('p', 0, 1)
    mk = ctx.mark()
    v = ctx.call(aux.random_machine_matrix, p, shape)
    a = ctx.arr(v)
    ctx.check(a.shape == tuple(shape), 'shape')
    if a.shape != tuple(shape):
        return
    ctx.observe('random matrix', v)
    us = ctx.draws(mk)
    pt = tm.to_real(ctx.t(p))
    ctx.check(len(us) == a.size, 'a random number for each entry')
    for e, (g, u) in zip(a.reshape(-1), us):
        ctx.check(is_pm1(e), 'entries in {-1,1}')
        # +1 for a set of random numbers of measure p
        ctx.check(or_(tm.iff(tm.eq(e, ONE), tm.lt(u, pt)), tm.iff(tm.eq(e, ONE), tm.le(tm.sub(tm.realc(1), pt), u)), tm.iff(tm.eq(e, ONE), tm.lt(tm.sub(tm.realc(1), pt), u))),
                  'entries are +1 with the given probability')


def covered(f, i, j):
    """column j covers column i"""
    return and_(*[or_(not_(f[k][i]), f[k][j]) for k in range(len(f))])


def disjoint(ctx, shape):
    x = ctx.bits('M', shape)
    a = ctx.arr(ctx.copy(x))
    r = ctx.call(aux.all_columsn_are_disjoint, x)
    f = [[tm.eq(e, ONE) for e in row] for row in a]
    L = shape[1]
    want = not_(or_(*[covered(f, i, j) for i in range(L) for j in range(L) if i != j]))
    t = ctx.t(r)
    ctx.observe('disjoint', tm.b2i(t))
    ctx.check(tm.iff(t, want), 'no column is covered by another')
    ctx.check_eq(x, a, 'input unchanged')


def product(ctx, N, D, L, cut):
    ctx.option(max_draws=(N + D) * L + cut)
    U, Z, X = ctx.call(aux.generate_orm_product, N=N, D=D, L=L)
    u, z, x = ctx.arr(U), ctx.arr(Z), ctx.arr(X)
    ok = u.shape == (D, L) and z.shape == (N, L) and x.shape == (N, D)
    ctx.check(ok, 'shapes')
    if not ok:
        return
    ctx.observe('X', X)
    ctx.check(and_(*[is_pm1(e) for m in (u, z, x) for e in m.reshape(-1)]), 'entries in {-1,1}')
    for n in range(N):
        for d in range(D):
            ctx.check(tm.iff(spec.pos(x[n, d]), or_(*[and_(spec.pos(z[n, l]), spec.pos(u[d, l])) for l in range(L)])), 'X is the Boolean product')
    for m, r in ((u, D), (z, N)):
        f = [[spec.pos(e) for e in row] for row in m]
        for i in range(L):
            for j in range(L):
                if i != j:
                    ctx.check(not_(covered(f, i, j)), 'no column covers another')



def cases(tier):
    th = tier == 'thorough'
    out = []

    def add(name, fn, cost=2, **p):
        out.append(case(name, fn, cost, **p))

    for shape in ((1, 1), (1, 3), (2, 2), (3, 2), (1, 2, 2)):
        n = 'x'.join(map(str, shape))
        add('coding 0/1 bool %s' % n, coding, shape=shape, dtype='bool', vals='01')
        for dt in ('int8', 'int64', 'float64', 'int32'):
            for vals in ('01', '-11', '-101'):
                add('coding %s %s %s' % (vals, dt, n), coding, shape=shape, dtype=dt, vals=vals)
    for shape in ((1, 1), (2, 2), (1, 3), (1, 2, 2)):
        n = 'x'.join(map(str, shape))
        for T in (0, 1, 2, 3):
            add('map %s, %d samples' % (n, T), to_map, shape=shape, T=T, real=False)
        add('map %s, one sample of any value' % n, to_map, shape=shape, T=1, real=True)
    for T in (130, 300):
        for base in (1, -1):
            add('map, %d samples %d' % (T, base), to_map, shape=(1, 1), T=T, real=False, long=base)
    for shape in ((1, 1), (1, 2), (2, 2)):
        add('random matrix %dx%d' % shape, random_matrix, shape=shape)
    for shape in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3)):
        add('disjoint %dx%d' % shape, disjoint, shape=shape)
    for N, D, L, cut in ((1, 1, 1, 0), (2, 1, 1, 0), (2, 2, 2, 4), (2, 3, 2, 6), (3, 2, 2, 6), (3, 3, 2, 12)) + (((3, 3, 3, 9), (4, 2, 2, 8), (4, 4, 2, 16)) if th else ()):
        add('product %dx%d L=%d' % (N, D, L), product, 10, N=N, D=D, L=L, cut=cut)
    return out
