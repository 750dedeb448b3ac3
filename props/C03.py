"""Fuzzy outputs == exact probability of a 1 under independent factor entries."""
from .common import *
from .C02 import ALL36, OPS
from lom import auxiliary_functions as aux
from lom._numba import lambda_updates_numba as lu

BOUNDS = ('all probabilities in [0,1]: scalar outputs for L<=3 (2D) / L<=2 (3D) of the 8 implemented models (thorough L<=4 / L<=3); '
          'array generators 2x2 with L=2, 2x1x2 with L=2, 1x2x1 with L=1; general operators on vectors of length 1..4 (thorough 6); '
          'lom_generate_data_fuzzy for all 36 operator pairs, arity 2 and 3, L<=2.  Polynomial identity over the reals, plus the '
          'agreement with the crisp model at all 0/1 corners and 0<=p<=1 for the general operators')


def scalar(ctx, model, K, L, crisp=False):
    if crisp:
        fs = [ctx.bits('B%d' % k, (L,), np.float64) for k in range(K)]
    else:
        fs = [ctx.reals('p%d' % k, (L,), 0, 1) for k in range(K)]
    before = [ctx.arr(ctx.copy(f)) for f in fs]
    like = (lu.get_scalar_output_function_2d if K == 2 else lu.get_scalar_output_function_3d)
    got = ctx.call(ctx.call(like, model, True), *fs)
    cols = [[tm.to_real(b[l]) for b in before] for l in range(L)]
    if crisp:
        want = tm.to_real(tm.b2i(spec.model_out(model, [[tm.eq(x, tm.realc(1)) for x in c] for c in cols])))
        ctx.check_eq(got, want, 'crisp corner')
    else:
        ctx.check_eq(got, spec.prob_model(model, cols), 'probability')
    for f, b in zip(fs, before):
        ctx.check_eq(f, b, 'arguments unchanged')


def fast(ctx, model, shape, L):
    fs = [ctx.reals('p%d' % k, (n, L), 0, 1) for k, n in enumerate(shape)]
    before = [ctx.arr(ctx.copy(f)) for f in fs]
    want = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        want[i] = spec.prob_model(model, [[b[r, l] for b, r in zip(before, i)] for l in range(L)])
    got = ctx.call(aux.lom_generate_data_fast, list(fs), model, fuzzy=True)
    ctx.check_eq(got, want, 'fuzzy array')


def general(ctx, model, shape, L):
    fs = [ctx.reals('m%d' % k, (n, L), -1, 1) for k, n in enumerate(shape)]
    before = [ctx.arr(ctx.copy(f)) for f in fs]
    half = tm.realc(tm.norm_num(__import__('fractions').Fraction(1, 2)))
    want = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        p = spec.prob_model(model, [[tm.mul(half, tm.add(b[r, l], tm.realc(1))) for b, r in zip(before, i)] for l in range(L)])
        want[i] = tm.sub(tm.mul(tm.realc(2), p), tm.realc(1))
    got = ctx.call(aux.lom_generate_data_fuzzy, list(fs), model)
    ctx.check_eq(got, want, 'general fuzzy array')
    for f, b in zip(fs, before):
        ctx.check_eq(f, b, 'arguments unchanged')


def operator(ctx, op, n):
    x = ctx.reals('p', (n,), 0, 1)
    b = ctx.arr(ctx.copy(x))
    f = ctx.call(aux.get_fuzzy_lop, op)
    got = ctx.call(f, x)
    ctx.check_eq(got, spec.prob_lop(op, list(b)), 'fuzzy operator')
    g = ctx.real_t(got)
    if n <= 3:
        ctx.check(and_(tm.le(tm.realc(0), g), tm.le(g, tm.realc(1))), 'in [0,1]')


def cases(tier):
    out = []
    th = tier == 'thorough'
    for m in MODELS:
        for K in (2, 3):
            for L in range(1, (4 if K == 2 else 3) + (1 if th else 0)):
                out.append(case('%s %dD scalar L=%d' % (m, K, L), scalar, cost=L ** K, model=m, K=K, L=L))
            for L in (3, 5) if th else (3,):
                out.append(case('%s %dD crisp corners L=%d' % (m, K, L), scalar, cost=4, model=m, K=K, L=L, crisp=True))
        out.append(case('%s fast 2x2 L=2' % m, fast, cost=5, model=m, shape=(2, 2), L=2))
        out.append(case('%s fast 2x1x2 L=2' % m, fast, cost=9, model=m, shape=(2, 1, 2), L=2))
        out.append(case('%s fast 1x3x2 L=1' % m, fast, cost=5, model=m, shape=(1, 3, 2), L=1))
    for m in ALL36:
        if m not in MODELS:
            out.append(case('%s fast 2x2 L=2' % m, fast, cost=5, model=m, shape=(2, 2), L=2))
            out.append(case('%s fast 1x2x1 L=2' % m, fast, cost=5, model=m, shape=(1, 2, 1), L=2))
        out.append(case('%s general 2x1 L=2' % m, general, cost=3, model=m, shape=(2, 1), L=2))
        out.append(case('%s general 1x2x1 L=2' % m, general, cost=3, model=m, shape=(1, 2, 1), L=2))
        if th:
            out.append(case('%s general 1x1x1x1 L=2' % m, general, cost=3, model=m, shape=(1, 1, 1, 1), L=2))
            out.append(case('%s general 1x1 L=4' % m, general, cost=3, model=m, shape=(1, 1), L=4))
    for op in OPS:
        for n in (1, 2, 3, 4) + ((5, 6) if th else ()):
            out.append(case('%s operator n=%d' % (op, n), operator, cost=n, op=op, n=n))
    return out
