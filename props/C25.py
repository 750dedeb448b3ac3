"""Noise functions."""
import itertools
from .common import *
from lom import auxiliary_functions as aux

BOUNDS = ('matrices of up to 4 cells and tensors of up to 4 cells (identity of unobserved entries and absence of other values: 6 and 8 cells), entries in {-1,0,1}, Boolean tensors, all '
          'flip probabilities in [0,1], all random numbers, any association of random numbers to cells; seeds 0 to 2')
BUDGET = {'quick': 300, 'thorough': 780}


def data(ctx, shape, kind):
    if kind == 'bool':
        return ctx.bits('X', shape, bool)
    return ctx.data('X', shape, dtype=np.dtype(kind))


def functions(ctx, fn):
    """code under test and the flip probability of each entry"""
    if fn == 'biased':
        p, q = ctx.real('p_plus', 0, 1), ctx.real('p_minus', 0, 1)
        a, b = tm.to_real(ctx.t(p)), tm.to_real(ctx.t(q))
        return (lambda x, **k: ctx.call(aux.add_bernoulli_noise_2d_biased, x, p, q, **k)), lambda e: tm.ite(tm.eq(e, tm.intc(1)), a, b)
    p = ctx.real('p', 0, 1)
    a = tm.to_real(ctx.t(p))
    f = aux.add_bernoulli_noise_2d if fn == '2d' else aux.add_bernoulli_noise
    return (lambda x, **k: ctx.call(f, x, p, **k)), lambda e: a


def neg(e):
    return not_(e) if e.sort == 'B' else tm.neg(e)


def noise(ctx, which, shape, kind='int8', flips=True, seed=None):
    x = data(ctx, shape, kind)
    b = ctx.arr(ctx.copy(x))
    f, prob = functions(ctx, which)
    mk = ctx.mark()
    y = f(x, **({} if seed is None else {'seed': seed}))
    a = ctx.arr(y)
    ctx.check(a.shape == b.shape, 'shape')
    if a.shape != b.shape:
        return
    ctx.check(np.dtype(y.dtype) == np.dtype(x.dtype), 'type')
    ctx.observe('noisy', y)
    cells = list(np.ndindex(*shape))
    for i in cells:
        ctx.check(or_(ctx.eq(a[i], b[i]), ctx.eq(a[i], neg(b[i]))), 'entries are unchanged or negated')
        if kind != 'bool':
            ctx.check(or_(not_(tm.eq(b[i], tm.intc(0))), tm.eq(a[i], tm.intc(0))), 'unobserved entries stay unobserved')
    ctx.check_eq(x, b, 'input unchanged')
    if not flips:
        return
    us = ctx.draws(mk, ('uniform',))
    obs = [i for i in cells if kind == 'bool' or tm.eq(b[i], tm.intc(0)) is not TRUE]
    seen = {i: TRUE if kind == 'bool' else not_(tm.eq(b[i], tm.intc(0))) for i in obs}
    ctx.check(tm.le(spec.sum_([tm.b2i(seen[i]) for i in obs]), spec.sum_([tm.b2i(g) for g, u in us])), 'a random number for each observed entry')
    ways = []
    for js in sorted(set(itertools.permutations(list(range(len(us))) + [-1] * (len(obs) - len(us)), len(obs)))):
        c = []
        for i, j in zip(obs, js):
            if j < 0:
                c.append(not_(seen[i]))
                continue
            g, u = us[j]
            flipped = ctx.eq(a[i], neg(b[i]))
            c.append(or_(not_(seen[i]), and_(g, tm.iff(flipped, tm.lt(u, prob(b[i]))))))
        ways.append(and_(*c))
    ctx.check(or_(*ways), 'each entry is negated exactly when its own random number is below the flip probability')


def repeat(ctx, which, shape, seed):
    """the same seed gives the same noise"""
    x = data(ctx, shape, 'int8')
    f, prob = functions(ctx, which)
    y = ctx.arr(f(x, seed=seed))
    y2 = f(x, seed=seed)
    ctx.check_eq(y2, y, 'noise repeats with the same seed')


def cases(tier):
    th = tier == 'thorough'
    out = []

    def add(name, fn, cost=2, **p):
        out.append(case(name, fn, cost, **p))

    for fn in ('2d', 'biased'):
        for shape in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3)):
            add('%s %dx%d' % ((fn,) + shape), noise, 3, which=fn, shape=shape)
        add('%s 2x3, values' % fn, noise, 3, which=fn, shape=(2, 3), flips=False)
        for s in (0, 1, 2):
            add('%s 2x1 with seed %d' % (fn, s), noise, 3, which=fn, shape=(2, 1), seed=s)
            add('%s repeated with seed %d' % (fn, s), repeat, 3, which=fn, shape=(1, 2), seed=s)
        add('%s 64 bit' % fn, noise, 3, which=fn, shape=(1, 2), kind='int64')
        add('%s 32 bit' % fn, noise, 3, which=fn, shape=(1, 2), kind='int32')
    for kind in ('bool', 'int8', 'int64'):
        for shape in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (1, 2, 2), (1, 1, 3)):
            add('3d %s %s' % (kind, 'x'.join(map(str, shape))), noise, 3, which='3d', shape=shape, kind=kind)
        add('3d %s 2x2x2, values' % kind, noise, 3, which='3d', shape=(2, 2, 2), kind=kind, flips=False)
    if th:
        for fn in ('2d', 'biased'):
            add('%s 1x5' % fn, noise, 30, which=fn, shape=(1, 5))
            add('%s 3x3, values' % fn, noise, 5, which=fn, shape=(3, 3), flips=False)
            add('%s 2x2 repeated' % fn, repeat, 5, which=fn, shape=(2, 2), seed=7)
        add('3d bool 1x5x1', noise, 30, which='3d', shape=(1, 5, 1), kind='bool')
        add('3d 5x1x1', noise, 30, which='3d', shape=(5, 1, 1))
    return out
