"""Inversion of the expected density."""
from fractions import Fraction
from .common import *
from .C26 import prob
from sx import vals as V, npm, engine as E
from lom import auxiliary_functions as aux
import scipy.optimize

BOUNDS = ('all models, latent size and number of factors (1,1), (2,1) and (1,2) (thorough: also (2,2), (3,1) and (1,3)), every requested density, any answer in [0,1] of the root finder '
          '(scipy.optimize.fsolve is replaced by its contract) at each start')
BUDGET = {'quick': 300, 'thorough': 780}


def inverse(ctx, model, L, K, starts):
    outer, inner = model.split('-')
    X = ctx.real('X', 0, 1)
    x = tm.to_real(ctx.t(X))
    pool = [ctx.real('s%d' % i, 0, 1) for i in range(starts)]
    got = []
    def dens(t):
        return prob(outer, prob(inner, t, K), L)

    if ctx.symbolic:
        # one path for every order of the mismatches
        ds = [tm.sub(dens(tm.to_real(ctx.t(s))), x) for s in pool]
        gaps = [tm.neg(d) if E.decide(tm.lt(d, tm.realc(0)), 'sign') else d for d in ds]
        for i in range(starts):
            for j in range(i):
                E.decide(tm.lt(gaps[i], gaps[j]), 'order')
    real = scipy.optimize.fsolve

    def fsolve(func, x0, *a, **k):
        i = len(got) % starts
        s = pool[i]
        got.append(i)
        if ctx.symbolic:
            E.require_guard('fsolve')
            v = npm.asarray([s])
        else:
            v = np.array([s], dtype=float)
        r = ctx.call(func, ctx.copyval(v))
        st = tm.to_real(ctx.t(s))
        d = tm.sub(dens(st), x)
        q = ctx.arr(r).reshape(-1) if hasattr(r, 'shape') else [ctx.t(r)]
        ctx.check(len(q) == 1, 'one equation')
        q = tm.to_real(q[0])
        # the function whose root is searched vanishes where the expected density is the requested one
        ctx.check(or_(ctx.eq(q, d), ctx.eq(q, tm.neg(d))), 'mismatch of the densities')
        return v
    fsolve._sx_native = True
    scipy.optimize.fsolve = fsolve
    try:
        r = ctx.call(aux.factor_density, model, L, K, X)
    finally:
        scipy.optimize.fsolve = real
    ctx.observe('factor density', r)
    t = tm.to_real(ctx.t(r))
    used = sorted(set(got))
    ctx.check(len(got) > 1, 'several starts')
    ss = [tm.to_real(ctx.t(pool[i])) for i in used]
    ctx.check(or_(*[tm.eq(t, s) for s in ss]), 'one of the answers')

    def gap(u):
        d = tm.sub(dens(u), x)
        return tm.ite(tm.lt(d, tm.realc(0)), tm.neg(d), d)
    best = gap(t)
    for s in ss:
        ctx.check(tm.le(best, tm.add(gap(s), tm.realc(0 if ctx.symbolic else Fraction(1, 10**9)))), 'no other answer is closer')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for m in ALL36:
        for L, K in ((1, 1), (2, 1), (1, 2)) + (((2, 2), (3, 1), (1, 3)) if th else ()):
            out.append(case('%s L=%d K=%d' % (m, L, K), inverse, L * K, model=m, L=L, K=K, starts=(4 if th else 3) if L * K == 1 else 2))
    return out
