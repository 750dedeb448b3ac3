"""Train/test splits."""
from fractions import Fraction
from .common import *
from lom import auxiliary_functions as aux
from lom import experiments as ex

BOUNDS = ('matrices up to 2x3 and tensors up to 2x2x2 with entries in {-1,0,1} (also 0/1 coding for split_test_train), all outcomes of the random choices; fractions 1/8, 1/4, 1/2 '
          'and 1 (dyadic, so that exact arithmetic agrees with floating point); balanced splits of up to 6 cells')
BUDGET = {'quick': 300, 'thorough': 780}


def zero(t):
    return tm.eq(t, tm.intc(0))


def truth(t):
    return t if t.sort == 'B' else not_(tm.eq(t, tm.intc(0)))


def count(cs):
    return spec.sum_([tm.b2i(c) for c in cs])


def structure(ctx, x, arr, before, tr, mask):
    """training data = data with the entries of the mask set to zero; mask covers observed entries"""
    t, k = ctx.arr(tr), ctx.arr(mask)
    ok = t.shape == before.shape and k.shape == before.shape
    ctx.check(ok, 'shapes')
    if not ok:
        return None
    ctx.observe('mask', mask)
    ctx.observe('training data', tr)
    for i in np.ndindex(*before.shape):
        h = truth(k[i])
        ctx.check(ctx.eq(t[i], tm.ite(h, tm.intc(0), before[i])), 'training data are the data with the test entries set to 0')
        ctx.check(or_(not_(h), not_(zero(before[i]))), 'only observed entries are hidden')
    ctx.check_eq(arr, before, 'input unchanged')
    return k


def split(ctx, shape, frac, zeros=True, pattern=None):
    ctx.option(draw_free=True)
    x = ctx.data('X', shape, zeros=zeros) if pattern is None else signs(ctx, shape, pattern)
    before = ctx.arr(ctx.copy(x))
    n = count([not_(zero(e)) for e in before.reshape(-1)])
    ctx.assume(tm.lt(tm.intc(0), n))
    # the fraction of all entries must not exceed the fraction of observed ones
    ctx.assume(tm.le(tm.realc(Fraction(frac) * int(np.prod(shape))), tm.to_real(n)))
    tr, mask = ctx.call(ex.split_train_test, x, split=frac)
    structure(ctx, x, x, before, tr, mask)


def signs(ctx, shape, pattern):
    """data with a fixed pattern of observed entries"""
    x = ctx.factor('X', shape)
    a = np.array(pattern).reshape(shape)
    if ctx.symbolic:
        for i in np.ndindex(*shape):
            if not a[i]:
                x.data[i] = 0
        return x
    return (x * a).astype(np.int8)


def balanced(ctx, shape, frac, pattern):
    x = signs(ctx, shape, pattern)
    before = ctx.arr(ctx.copy(x))
    cells = list(np.ndindex(*shape))
    n = sum(1 for v in np.array(pattern).reshape(-1) if v)
    S = int(n * frac * .5)
    pos = count([tm.eq(before[i], tm.intc(1)) for i in cells])
    neg = count([tm.eq(before[i], tm.intc(-1)) for i in cells])
    ctx.assume(tm.le(tm.intc(S), pos))
    ctx.assume(tm.le(tm.intc(S), neg))
    ctx.assume(and_(tm.lt(tm.intc(0), pos), tm.lt(tm.intc(0), neg)))
    tr, mask = ctx.call(ex.split_train_test, x, split=frac, balanced=True)
    k = structure(ctx, x, x, before, tr, mask)
    if k is None:
        return
    for v, lab in ((1, 'positive'), (-1, 'negative')):
        hid = count([and_(truth(k[i]), tm.eq(before[i], tm.intc(v))) for i in cells])
        ctx.check(tm.eq(hid, tm.intc(S)), 'number of hidden %s entries' % lab)


def matrix(ctx, shape, frac, coding, pattern=None):
    """split_test_train"""
    cells = list(np.ndindex(*shape))
    if coding == '01':
        x = ctx.bits('X', shape)
        before = ctx.arr(ctx.copy(x))
        want = np.empty(shape, dtype=object)
        for i in cells:
            want[i] = tm.sub(tm.scale(before[i], 2), tm.intc(1))
    else:
        x = signs(ctx, shape, pattern)
        before = want = ctx.arr(ctx.copy(x))
        ctx.assume(or_(*[tm.eq(e, tm.intc(-1)) for e in before.reshape(-1)]))
    S = int(len(cells) * frac / 2)
    pos = count([tm.eq(want[i], tm.intc(1)) for i in cells])
    neg = count([tm.eq(want[i], tm.intc(-1)) for i in cells])
    ctx.assume(tm.le(tm.intc(S), pos))
    ctx.assume(tm.le(tm.intc(S), neg))
    if S == 0:
        ctx.assume(and_(tm.lt(tm.intc(0), pos), tm.lt(tm.intc(0), neg)))
    r = ctx.call(aux.split_test_train, x, frac)
    t = ctx.arr(r)
    ctx.check(t.shape == tuple(shape), 'shape')
    if t.shape != tuple(shape):
        return
    ctx.observe('training data', r)
    for i in cells:
        ctx.check(or_(zero(t[i]), tm.eq(t[i], want[i])), 'entries are kept or hidden')
    for v, lab in ((1, 'positive'), (-1, 'negative')):
        hid = count([and_(zero(t[i]), tm.eq(want[i], tm.intc(v))) for i in cells])
        ctx.check(tm.eq(hid, tm.intc(S)), 'number of hidden %s entries' % lab)
    ctx.check_eq(x, before, 'input unchanged')


def old(ctx, shape, frac):
    x = ctx.data('X', shape, zeros=False)
    before = ctx.arr(ctx.copy(x))
    tr, mask = ctx.call(ex.split_tensor_train_test_old, x, split=frac)
    k = structure(ctx, x, x, before, tr, mask)
    if k is not None:
        ctx.check(tm.eq(count([truth(e) for e in k.reshape(-1)]), tm.intc(int(frac * int(np.prod(shape))))), 'number of hidden entries')


def cases(tier):
    th = tier == 'thorough'
    out = []

    def add(name, fn, cost=2, **p):
        out.append(case(name, fn, cost, **p))

    for shape, fr in (((1, 2), .5), ((2, 2), .25), ((2, 2), .5), ((1, 2, 1), .5)):
        add('split %s, %s' % ('x'.join(map(str, shape)), fr), split, 10, shape=shape, frac=fr)
    for shape, fr in (((2, 2), .25), ((2, 2), .5), ((2, 3), .5), ((2, 2, 2), .125), ((1, 2, 2), 1.0)):
        add('split of complete data %s, %s' % ('x'.join(map(str, shape)), fr), split, 4, shape=shape, frac=fr, zeros=False)
    add('split 2x2x2 with missing data', split, 4, shape=(2, 2, 2), frac=.25, pattern=[1, 1, 0, 1, 1, 0, 1, 1])
    add('split 2x3 with missing data', split, 4, shape=(2, 3), frac=.25, pattern=[1, 1, 0, 1, 0, 1])
    for shape, fr, pat in (((2, 2), .5, [1, 1, 1, 1]), ((2, 2), 1., [1, 1, 1, 1]), ((2, 3), .5, [1, 1, 0, 1, 1, 0]), ((1, 2, 2), .5, [1, 1, 1, 1]),
                           ((2, 1, 2), 1., [1, 0, 1, 1]), ((2, 2), .25, [1, 1, 1, 1]), ((1, 6), .5, [1, 1, 1, 0, 1, 1])):
        add('balanced %s, %s, %s' % ('x'.join(map(str, shape)), fr, ''.join(map(str, pat))), balanced, 8, shape=shape, frac=fr, pattern=pat)
    for shape, fr in (((2, 2), .5), ((2, 2), 1.), ((2, 2), .25), ((1, 3), .75), ((2, 3), .5)):
        add('0/1 matrix %s, %s' % ('x'.join(map(str, shape)), fr), matrix, 8, shape=shape, frac=fr, coding='01')
    for shape, fr, pat in (((2, 2), .5, [1, 1, 1, 1]), ((2, 2), 1., [1, 1, 1, 1]), ((2, 3), .5, [1, 1, 1, 1, 1, 1])):
        add('matrix %s, %s' % ('x'.join(map(str, shape)), fr), matrix, 8, shape=shape, frac=fr, coding='pm', pattern=pat)
    for shape, fr in (((2, 2), .25), ((2, 2), .5), ((1, 2, 1), .5)):
        add('old split %s, %s' % ('x'.join(map(str, shape)), fr), old, 8, shape=shape, frac=fr)
    if th:
        add('balanced 3x2', balanced, 60, shape=(3, 2), frac=.75, pattern=[1] * 6)
        add('split 2x3', split, 40, shape=(2, 3), frac=.25)
        add('balanced 2x2x2', balanced, 60, shape=(2, 2, 2), frac=.5, pattern=[1, 1, 0, 1, 1, 0, 1, 1])
        add('0/1 matrix 3x2, 0.75', matrix, 60, shape=(3, 2), frac=.75, coding='01')
        add('old split 2x3', old, 40, shape=(2, 3), frac=.5)
    return out
