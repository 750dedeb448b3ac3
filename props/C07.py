"""Flip rules of the single-entry updates."""
from .samplers import *
from lom._numba import matrix_updates_numba as mu

BOUNDS = 'all real log-odds and all probabilities strictly between 0 and 1, both current values, all uniform random numbers; no bound'


def metropolised(ctx, kind):
    z = ctx.factor('z', (1,))
    zt = ctx.arr(ctx.copy(z))[0]
    zv = ctx.item(z, 0)
    m = ctx.mark()
    if kind == 'logit':
        s = ctx.real('s')
        new = ctx.call(mu.flip_metropolised_gibbs_numba, s, zv)
        st = ctx.real_t(s)
    else:
        p = ctx.real('p', 0, 1, True, True)
        new = ctx.call(mu.flip_metropolised_gibbs_numba_classic, p, zv)
    nt = ctx.t(new)
    ctx.observe('new', new)
    ctx.check(is_pm1(nt), 'result is -1 or +1')
    if kind == 'logit':
        ctx.check(flip_spec(zt, nt, st, ctx.draws(m)), 'flip probability')
        return
    pt = ctx.real_t(p)
    one = tm.realc(1)
    up = spec.pos(zt)
    flips, keeps = tm.eq(nt, tm.neg(zt)), tm.eq(nt, zt)
    q = tm.ite(up, tm.sub(one, pt), pt)      # probability of the other value
    r = tm.sub(one, q)
    certain = tm.le(r, q)
    some = or_(*[and_(g, or_(and_(tm.lt(tm.mul(u, r), q), flips), and_(tm.lt(q, tm.mul(u, r)), keeps),
                             and_(tm.eq(tm.mul(u, r), q), or_(flips, keeps)))) for g, u in ctx.draws(m)])
    ctx.check(or_(and_(certain, flips), and_(not_(certain), some)), 'flip probability')


def gibbs(ctx):
    p = ctx.real('p', 0, 1)
    pt = ctx.real_t(p)
    m = ctx.mark()
    new = ctx.call(mu.flip_gibbs_numba, p)
    nt = ctx.t(new)
    ctx.observe('new', new)
    ctx.check(is_pm1(nt), 'result is -1 or +1')
    some = or_(*[and_(g, or_(and_(tm.lt(u, pt), spec.pos(nt)), and_(tm.lt(pt, u), not_(spec.pos(nt))), tm.eq(u, pt)))
                 for g, u in ctx.draws(m)])
    sure = or_(and_(tm.eq(pt, tm.realc(1)), spec.pos(nt)), and_(tm.eq(pt, tm.realc(0)), not_(spec.pos(nt))))
    ctx.check(or_(some, sure), 'draws +1 with probability p')


def cases(tier):
    return [case('log-odds rule', metropolised, kind='logit'), case('probability rule', metropolised, kind='prob'),
            case('Gibbs', gibbs)]
