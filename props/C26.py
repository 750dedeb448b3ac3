"""Expected densities."""
from fractions import Fraction
from math import comb
from .common import *
from lom import auxiliary_functions as aux
from lom import experiments as ex

BOUNDS = ('expected_density for all 36 models, latent size 1 to 4, 2 to 4 factors (thorough: 1 to 6, 2 to 5), every factor density in [0,1]; generate_random_tensor for '
          'latent sizes 1 and 2, tensors of up to 4 cells, requested densities with exact roots, all random numbers')
BUDGET = {'quick': 300, 'thorough': 780}
ONE = tm.realc(1)


def truth_of(op, k, n):
    """value of the operator for k ones among n inputs"""
    r = {'AND': k == n, 'OR': k > 0, 'XOR': k == 1}[op[1:] if op in ('NAND', 'NOR', 'NXOR') else op]
    return not r if op in ('NAND', 'NOR', 'NXOR') else r


def power(t, n):
    r = ONE
    for _ in range(n):
        r = tm.mul(r, t)
    return r


def prob(op, p, n):
    """probability of op over n independent inputs that are 1 with probability p"""
    q = tm.sub(ONE, p)
    r = tm.realc(0)
    for k in range(n + 1):
        if truth_of(op, k, n):
            r = tm.add(r, tm.scale(tm.mul(power(p, k), power(q, n - k)), comb(n, k)))
    return r


def density(ctx, model, L, K):
    f = ctx.real('f', 0, 1)
    t = tm.to_real(ctx.t(f))
    outer, inner = model.split('-')
    r = ctx.call(aux.expected_density, model, L, K, f)
    want = prob(outer, prob(inner, t, K), L)
    ctx.observe('density', r)
    ctx.check(ctx.eq(tm.to_real(ctx.t(r)), want), 'expected density')


def tensor(ctx, L, dims, dens, noise):
    """random tensors: factors of the right density, product and noise"""
    p = ctx.real('noise', 0, 1) if noise else 0
    mk = ctx.mark()
    Xn, X, fs, fd = ctx.call(ex.generate_random_tensor, L, dims, p, dens)
    fd_t = tm.to_real(ctx.t(fd))
    d = 1 - (1 - float(ctx._num(fd_t) if not ctx.symbolic else tm.evaluate(fd_t, {})) ** 3) ** L
    ctx.check(abs(d - dens) < 1e-9, 'factor density gives the requested tensor density')
    F = [ctx.arr(f) for f in fs]
    x, xn = ctx.arr(X), ctx.arr(Xn)
    ok = all(f.shape == (n, L) for f, n in zip(F, dims)) and len(F) == 3 and x.shape == tuple(dims) == xn.shape
    ctx.check(ok, 'shapes')
    if not ok:
        return
    us = ctx.draws(mk, ('uniform', 'binomial'))
    n = sum(f.size for f in F)
    ctx.check(len(us) >= n, 'a random number for each factor entry')
    cells = [e for f in F for e in f.reshape(-1)]
    # each factor entry is 1 with probability factor density: decided by its own uniform number
    for e, (g, u) in zip(cells, us):
        ctx.check(or_(tm.iff(e, tm.lt(tm.sub(ONE, fd_t), u)), tm.iff(e, tm.lt(u, fd_t)), tm.iff(e, tm.le(tm.sub(ONE, fd_t), u)), tm.iff(e, tm.le(u, fd_t))),
                  'factor entries have the factor density')
    ctx.observe('tensor', X)
    ctx.observe('noisy tensor', Xn)
    for i in np.ndindex(*dims):
        want = or_(*[and_(*[f[k, l] for f, k in zip(F, i)]) for l in range(L)])
        ctx.check(tm.iff(x[i], want), 'Boolean product of the factors')
        ctx.check(or_(tm.iff(xn[i], x[i]), tm.iff(xn[i], not_(x[i]))), 'noisy tensor')
        if not noise:
            ctx.check(tm.iff(xn[i], x[i]), 'no noise')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for model in ALL36:
        for L in range(1, 7 if th else 5):
            for K in range(2, 6 if th else 5):
                out.append(case('%s L=%d K=%d' % (model, L, K), density, L * K, model=model, L=L, K=K))
    for L, dims, d in ((1, (1, 1, 1), .125), (1, (2, 1, 2), .125), (2, (1, 2, 1), .234375), (1, (1, 1, 2), 1.), (2, (2, 1, 1), .5), (3, (1, 1, 1), .3)):
        for noise in (False, True):
            out.append(case('tensor %s L=%d density %s%s' % ('x'.join(map(str, dims)), L, d, ', noise' if noise else ''), tensor, 5, L=L, dims=dims, dens=d, noise=noise))
    return out
