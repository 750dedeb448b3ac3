"""General data generator: every operator pair, arity 2..4."""
from .common import *
from lom import auxiliary_functions as aux

OPS = ['AND', 'NAND', 'OR', 'NOR', 'XOR', 'NXOR']
ALL36 = ['%s-%s' % (a, b) for a in OPS for b in OPS]
BOUNDS = ('all 36 operator pairs; 1x1 data with 257 and 258 latent dimensions all active, or all inactive, but a window of 3; all factors in {-1,1}; 2x2 and 3x1 data with L<=3, 2x1x2 with L=2, 1x2x1x2 with L=2, 1x1 with L=5 '
          '(thorough: 3x3 L=3, 2x2x2 L=3, 2x1x2x2 L=2, 1x1 L=8, 1x1x1x1x1 L=3); boolean_tensor_product on all bool / 0-1 arrays 2x2x2, L=2 and 1x2x1, L=4')


def gen(ctx, model, shape, L):
    fs = [ctx.factor('F%d' % k, (n, L)) for k, n in enumerate(shape)]
    before = [ctx.arr(ctx.copy(f)) for f in fs]
    want = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        want[i] = spec.pm(spec.model_out(model, cols_of(before, i)))
    ctx.check_eq(ctx.call(aux.lom_generate_data, list(fs), model), want, 'general generator')
    ctx.check_eq(ctx.call(aux.lom_generate_data_fast, list(fs), model), want, 'fast generator')
    for f, b in zip(fs, before):
        ctx.check_eq(f, b, 'arguments unchanged')


def large(ctx, model, L, act):
    """many latent dimensions active, or inactive, but a symbolic window of 3"""
    a = {('AND', 1): (1, 1), ('AND', 0): (1, -1), ('NAND', 1): (1, -1), ('NAND', 0): (1, 1), ('OR', 1): (1, -1), ('OR', 0): (-1, -1), ('NOR', 1): (-1, -1),
         ('NOR', 0): (1, -1), ('XOR', 1): (1, -1), ('XOR', 0): (1, 1), ('NXOR', 1): (1, 1), ('NXOR', 0): (1, -1)}[model.split('-')[1], act]
    fs = [window(ctx, 'F%d' % k, (1, L), v, 3, 'factor') for k, v in enumerate(a)]
    want = spec.pm(spec.model_out(model, cols_of([ctx.arr(f) for f in fs], (0, 0))))
    ctx.check_eq(ctx.arr(ctx.call(aux.lom_generate_data, list(fs), model))[0, 0], want, 'general generator')


def btp(ctx, shape, L, dtype):
    fs = [ctx.bits('F%d' % k, (n, L), dtype) for k, n in enumerate(shape)]
    before = [ctx.arr(ctx.copy(f)) for f in fs]

    def b(t):
        return t if t.sort == 'B' else tm.eq(t, tm.intc(1))
    got = ctx.call(aux.boolean_tensor_product, *fs)
    want = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        want[i] = or_(*[and_(*[b(f[k, l]) for f, k in zip(before, i)]) for l in range(L)])
    g = ctx.arr(got)
    ctx.check(g.shape == tuple(shape), 'tensor product shape')
    ctx.observe('tensor product', got)
    for i in np.ndindex(*shape):
        ctx.check(tm.iff(b(g[i]), want[i]), 'tensor product')
    for f, b0 in zip(fs, before):
        ctx.check_eq(f, b0, 'arguments unchanged')


def cases(tier):
    out = []
    sh = [((2, 2), 3), ((2, 1, 2), 2), ((1, 2, 1, 2), 2), ((1, 1), 5), ((3, 1), 1)]
    if tier == 'thorough':
        sh += [((3, 3), 3), ((2, 2, 2), 3), ((2, 1, 2, 2), 2), ((1, 1), 8), ((1, 1, 1, 1, 1), 3), ((1, 2), 4)]
    for m in ALL36:
        for s, L in sh:
            out.append(case('%s %s L=%d' % (m, 'x'.join(map(str, s)), L), gen, cost=np.prod(s) * L, model=m, shape=s, L=L))
        for L in (257, 258) + ((129, 130) if tier == 'thorough' else ()):
            for act in (0, 1):
                out.append(case('%s L=%d %s' % (m, L, 'active' if act else 'inactive'), large, cost=20, model=m, L=L, act=act))
    for dt in ('bool', 'int8'):
        for s, L in [((2, 2, 2), 2), ((1, 2, 1), 4), ((3, 1, 2), 1)]:
            out.append(case('tensor product %s %s L=%d' % (dt, s, L), btp, cost=20, shape=s, L=L, dtype=dt))
    return out
