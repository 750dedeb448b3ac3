"""Tables of log-odds of binomial and beta-binomial counts; small numeric helpers."""
from fractions import Fraction
import math
from math import comb
from .common import *
from sx.harness import NonFiniteMark
from lom import auxiliary_functions as aux

BOUNDS = ('tables for up to 5 draws (thorough: 8), padded length up to 3 more, any success probability in (0,1), increments 1 to 3, beta parameters up to 10 (thorough: any '
          'positive ones in quarters); expit and logit of any real, logsumexp of up to 3 reals; lists of up to 5 items')
BUDGET = {'quick': 300, 'thorough': 780}
ONE, ZERO = tm.realc(1), tm.realc(0)
NEG = float('-inf')


def same(ctx, got, want, label):
    """want: the odds, or None for -inf"""
    if want is None or isinstance(got, NonFiniteMark):
        ctx.check(want is None and isinstance(got, NonFiniteMark) and got.v == NEG, label)
    else:
        e = tm.exp(tm.to_real(got)) if ctx.symbolic else tm.realc(Fraction(math.exp(float(ctx._num(got)))))
        ctx.check(and_(tm.lt(ZERO, want), ctx.eq(e, want)), label)


def binom(ctx, n, pad, tau):
    q = ctx.real('q', 0, 1)
    t = tm.to_real(ctx.t(q))
    ctx.assume(and_(tm.lt(ZERO, t), tm.lt(t, ONE)))
    r = ctx.call(aux.compute_bp, q, n, n + pad, **({} if tau == 1 else {'tau': tau}))
    a = ctx.arr(r)
    ctx.check(a.shape == (n + pad,), 'length')
    if a.shape != (n + pad,):
        return
    ctx.observe('log odds', r)
    odds = tm.div(t, tm.sub(ONE, t))
    for k in range(n + pad):
        num, den = n - k * tau, k * tau + 1
        if k < n and num > 0:
            if tau == 1:
                assert Fraction(num, den) == Fraction(comb(n, k + 1), comb(n, k))
            same(ctx, a[k], tm.mul(odds, tm.realc(Fraction(num, den))), 'log-odds of one more success')
        else:
            same(ctx, a[k], None, 'impossible counts')


def betabinom(ctx, n, hi, den):
    a, b = ctx.real('a', 0, hi), ctx.real('b', 0, hi)
    at, bt = tm.to_real(ctx.t(a)), tm.to_real(ctx.t(b))
    ctx.assume(and_(tm.lt(ZERO, at), tm.lt(ZERO, bt)))
    r = ctx.call(aux.compute_bbp, n, a, b)
    x = ctx.arr(r)
    ctx.check(x.shape == (n + 1,), 'length')
    if x.shape != (n + 1,):
        return
    ctx.observe('log odds', r)
    for k in range(n):
        # B(k+1+a, n-k-1+b) / B(k+a, n-k+b) = (k+a) / (n-k-1+b)
        want = tm.mul(tm.div(tm.add(at, tm.realc(k)), tm.add(bt, tm.realc(n - k - 1))), tm.realc(Fraction(comb(n, k + 1), comb(n, k))))
        same(ctx, x[k], want, 'log-odds of one more success')
    same(ctx, x[n], None, 'impossible counts')


def uniq(ctx, n, m):
    v = ctx.ints('v', (n,), 0, m)
    a = ctx.arr(ctx.copy(v))
    seq = [v[i] for i in range(n)] if not ctx.symbolic else [ctx.item(v, i) for i in range(n)]
    r = ctx.call(aux.unique_ordered, seq)
    r = [ctx.t(e) for e in (r if isinstance(r, list) else ctx.call(list, r))]
    ctx.observe('unique', [e for e in r] and ctx.t(r[0]) or tm.intc(0))
    for i in range(len(r)):
        ctx.check(and_(*[not_(tm.eq(r[i], r[j])) for j in range(i)]), 'no repetition')
    for e in a:
        ctx.check(or_(*[tm.eq(e, x) for x in r]), 'every item is kept')
    # order of first occurrence
    first = [and_(*[not_(tm.eq(a[j], a[i])) for j in range(i)]) for i in range(n)]
    for k in range(len(r)):
        for i in range(n):
            before = spec.sum_([tm.b2i(first[j]) for j in range(i)])
            ctx.check(or_(not_(first[i]), not_(tm.eq(before, tm.intc(k))), tm.eq(r[k], a[i])), 'order of first occurrence')
    ctx.check(tm.eq(spec.sum_([tm.b2i(f) for f in first]), tm.intc(len(r))), 'number of distinct items')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for n in range(1, 9 if th else 6):
        for pad in (0, 1, 3):
            for tau in (1, 2, 3):
                out.append(case('binomial n=%d N=%d tau=%d' % (n, n + pad, tau), binom, 1, n=n, pad=pad, tau=tau))
        out.append(case('beta-binomial n=%d' % n, betabinom, 1, n=n, hi=10, den=4))
    for n in range(0, 5 if th else 4):
        out.append(case('unique %d' % n, uniq, 2, n=n, m=2))
    return out
