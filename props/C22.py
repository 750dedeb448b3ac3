"""Convergence test."""
from fractions import Fraction
from .common import *
from .C20 import half_test
from lom import auxiliary_functions as aux

BOUNDS = ('single traces of 2 to 8 values (thorough 16), traces of 1 to 3 dispersions with 2 to 5 values (thorough 9), matrices and parameters, all real values and '
          'thresholds; single and double precision arrays')
BUDGET = {'quick': 200, 'thorough': 780}


def is_bool(ctx, r):
    """term of a truth value"""
    t = ctx.t(r)
    return t if t.sort == 'B' else not_(tm.eq(t, tm.intc(0)))


def single(ctx, n, dtype='float64', lim=None):
    tr = ctx.reals('t', (n,), *(lim or (None, None)), dtype=np.dtype(dtype))
    if dtype == 'float32':
        ctx.tol = 1e-6
    eps = ctx.real('eps')
    v = ctx.arr(ctx.copy(tr))
    e = tm.to_real(ctx.t(eps))
    r = ctx.call(aux.check_convergence_single_trace, tr, eps)
    ctx.observe('converged', r)
    ctx.check(tm.iff(is_bool(ctx, r), half_test([tm.to_real(x) for x in v], e)), 'result')
    ctx.check_eq(tr, v, 'trace unchanged')


def method(ctx, n, L, kind):
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', ctx.data('X', (1, 1)), fixed=True)
    lay = meth(ctx, m, 'add_layer', latent_size=1, child=d, model='MAX-AND' if L else 'OR-AND')
    lb = ctx.attr(lay, 'lbda')
    tr = ctx.reals('t', (n, L) if L else (n,), -20, 20)
    v = ctx.arr(ctx.copy(tr))
    eps = ctx.real('eps', 0, 1)
    e = tm.to_real(ctx.t(eps))
    ctx.setattr(lb, 'trace', tr)
    r = meth(ctx, lb, 'check_convergence', **{'eps': eps}) if kind else meth(ctx, lb, 'check_convergence', eps)
    ctx.observe('converged', r)
    cols = [[tm.to_real(x) for x in v[:, l]] for l in range(L)] if L else [[tm.to_real(x) for x in v]]
    ctx.check(tm.iff(is_bool(ctx, r), and_(*[half_test(c, e) for c in cols])), 'every dispersion passes')
    ctx.check_eq(ctx.attr(lb, 'trace'), v, 'trace unchanged')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for n in range(2, 17 if th else 9):
        out.append(case('single trace of %d' % n, single, 1, n=n))
    out.append(case('single precision', single, 1, n=5, dtype='float32'))
    out.append(case('moderate values', single, 1, n=6, lim=(-8, 8)))
    for n in range(2, 10 if th else 6):
        for L in (0, 1, 2, 3):
            out.append(case('parameter, %d values, %s' % (n, '%d dispersions' % L if L else 'scalar'), method, 2, n=n, L=L, kind=n % 2))
    return out
