"""Traces and sweeps of Machine.infer."""
from fractions import Fraction
from .common import *
from .inference import Log, build, free_names, split_sweeps

BOUNDS = ('machines of one or two layers (OR-AND, qL-AND with thresholds, MAX-AND, OR-AND-IBP; 2D and 3D), with a free data matrix, a further matrix outside of '
          'layers, any combination of fixed members named in the cases; 1 to 4 samples after 0 to 2 burn-in sweeps, one or two runs; samplers replaced by '
          'scripts that write arbitrary states; one case with the real samplers on 1x1 data')
BUDGET = {'quick': 300, 'thorough': 780}


def check_run(ctx, log, start, mats, lbdas, init, fm, fl, k, ibp=False):
    calls = log.calls[start:]
    sweeps = split_sweeps([c[0] for c in calls], fm, fl)
    ctx.check(sweeps is not None, 'every sweep updates each free matrix once, then each free dispersion')
    ctx.check(all(c[1] for c in calls), 'sampling function called for its own member')
    if sweeps is None:
        return
    if fm or fl:
        ctx.check(len(sweeps) >= k, 'number of sweeps')
        if len(sweeps) < k:
            return
    for name, o in list(mats.items()) + list(lbdas.items()):
        val = ctx.attr(o, 'val')
        mine = [c[3] for c in calls if c[0] == name]
        if name not in fm + fl:
            ctx.check(not mine, 'fixed member not updated')
            ctx.check_eq(val, init[name], 'fixed member keeps its value')
            ctx.check_eq(meth(ctx, o, 'mean'), init[name], 'mean of a member without trace is its value')
            continue
        ctx.check_eq(val, mine[-1], 'current value is the last state')
        tr = ctx.attr(o, 'trace')
        a = ctx.arr(tr)
        ctx.check(a.shape[0] == k, 'number of recorded samples')
        if a.shape[0] != k:
            continue
        want = [ctx.arr(v) for v in mine[-k:]]
        if ibp and name in mats:
            sh = want[0].shape
            a = a[:, :sh[0], :sh[1]]
        ctx.check(a.shape[1:] == want[0].shape, 'shape of the trace')
        if a.shape[1:] != want[0].shape:
            continue
        ctx.observe('trace of ' + name, tr)
        for t in range(k):
            for i in np.ndindex(*want[t].shape):
                ctx.check(ctx.eq(a[(t,) + i], want[t][i]), 'trace holds the visited states in order')
        if not ibp:
            mean = ctx.arr(meth(ctx, o, 'mean'))
            for i in np.ndindex(*want[0].shape):
                w = tm.scale(spec.sum_([tm.to_real(want[t][i]) for t in range(k)], True), Fraction(1, k))
                ctx.check(ctx.eq(mean[i], w), 'mean is the average of the trace')


def run(ctx, k=2, b=1, b_max=None, fixed=(), fixed_lbda=(), data_fixed=True, again=None, ibp=False, layers=1, **kw):
    ctx.tol = 1e-6           # dispersion traces are stored in single precision
    log = Log()
    m, mats, lbdas, lays = build(ctx, log, layers=layers, fixed=fixed, fixed_lbda=fixed_lbda, data_fixed=data_fixed, **kw)
    fm, fl = free_names(mats, lbdas, fixed, fixed_lbda, data_fixed)
    init = {n: ctx.copyval(ctx.attr(o, 'val')) for n, o in list(mats.items()) + list(lbdas.items())}
    for kk in [k] + ([] if again is None else [again]):
        start = len(log.calls)
        meth(ctx, m, 'infer', no_samples=kk, burn_in_min=b, burn_in_max=b if b_max is None else b_max)
        check_run(ctx, log, start, mats, lbdas, init, fm, fl, kk, ibp)


def real_samplers(ctx, k, b, shape=(1, 1), fixed=()):
    """recorded dispersions belong to the recorded factors of the same sweep"""
    ctx.tol = 1e-6
    ctx.option(draw_free=True)
    m = machine(ctx)
    x = ctx.data('X', shape)
    x0 = ctx.arr(ctx.copy(x))
    d = meth(ctx, m, 'add_matrix', x, fixed=True)
    lay = meth(ctx, m, 'add_layer', latent_size=1, child=d, model='OR-AND')
    fs = list(ctx.attr(lay, 'factors'))
    for i, f in enumerate(fs):
        ctx.setattr(f, 'val', ctx.factor('F%d' % i, (shape[i], 1)))
        if i in fixed:
            ctx.setattr(f, 'fixed', True)
    lb = ctx.attr(lay, 'lbda')
    ctx.setattr(lb, 'val', ctx.real('lambda', 0, 5))
    meth(ctx, m, 'infer', no_samples=k, burn_in_min=b, burn_in_max=b)
    tr = [np.array([ctx.arr(ctx.attr(f, 'val'))] * k, dtype=object) if i in fixed else ctx.arr(ctx.attr(f, 'trace')) for i, f in enumerate(fs)]
    lt = ctx.arr(ctx.attr(lb, 'trace'))
    for f, a in zip(fs, tr):
        v = ctx.arr(ctx.attr(f, 'val'))
        for i in np.ndindex(*v.shape):
            ctx.check(ctx.eq(a[(k - 1,) + i], v[i]), 'last recorded state is the current one')
    ctx.check(ctx.eq(lt[k - 1], tm.to_real(ctx.t(ctx.attr(lb, 'val')))), 'last recorded dispersion is the current one')
    n_obs = spec.sum_([tm.b2i(not_(tm.eq(e, tm.intc(0)))) for e in x0.reshape(-1)])
    for t in range(k):
        p = tm.intc(0)
        for idx in np.ndindex(*shape):
            one = and_(*[spec.pos(a[t, i, 0]) for a, i in zip(tr, idx)])
            p = tm.add(p, tm.b2i(or_(and_(one, tm.eq(x0[idx], tm.intc(1))), and_(not_(one), tm.eq(x0[idx], tm.intc(-1))))))
        for nn in range(int(np.prod(shape)) + 1):
            for pp in range(nn + 1):
                f = Fraction(pp + 1, nn + 2)
                if f <= Fraction(1, 2):
                    want = 0.0
                else:
                    want = float(np.log(float(f / (1 - f))))
                here = and_(tm.eq(n_obs, tm.intc(nn)), tm.eq(p, tm.intc(pp)))
                lo, hi = tm.realc(Fraction(want - 1e-5)), tm.realc(Fraction(want + 1e-5))
                ctx.check(or_(not_(here), and_(tm.le(lo, lt[t]), tm.le(lt[t], hi))), 'recorded dispersion belongs to the recorded factors')


def cases(tier):
    th = tier == 'thorough'
    out = []

    def add(name, cost=2, **p):
        out.append(case(name, run, cost, **p))

    add('one layer, 2 samples, 1 burn-in sweep', k=2, b=1)
    add('one layer, 3 samples, no burn-in', k=3, b=0)
    add('one layer, 1 sample, 2 burn-in sweeps', k=1, b=2)
    add('larger maximum than minimum', k=1, b=0, b_max=2)
    add('two runs, fewer samples', k=2, b=0, again=1)
    add('two runs, more samples', k=1, b=0, again=2)
    add('latent size 2 on 2x1 data', k=2, b=0, L=2, shape=(2, 1))
    add('unfixed data', k=2, b=0, data_fixed=False, cost=5)
    add('further matrix', k=2, b=0, extra=True, cost=5)
    add('further matrix, fixed', k=2, b=0, extra=True, fixed=('e',))
    add('fixed factor', k=3, b=1, fixed=('f00',))
    add('other fixed factor', k=3, b=1, fixed=('f01',))
    add('fixed dispersion', k=2, b=1, fixed_lbda=('l0',))
    add('only the dispersion free', k=3, b=1, fixed=('f00', 'f01'))
    add('only one factor free', k=3, b=1, fixed=('f00',), fixed_lbda=('l0',))
    add('three factors', k=2, b=0, shape=(1, 1, 1), cost=8)
    add('three factors, XOR-XOR', k=2, b=0, shape=(1, 2, 1), model='XOR-XOR', fixed=('f01',), cost=5)
    add('qL-AND with thresholds', k=2, b=0, model='qL-AND', shape=(1, 2), cost=6)
    add('qL-AND with fixed thresholds', k=2, b=1, model='qL-AND', shape=(1, 2), fixed=('q0',))
    add('MAX-AND, vector of dispersions', k=3, b=0, model='MAX-AND', L=2)
    add('MAX-AND, vector of dispersions, 1 burn-in sweep', k=2, b=1, model='MAX-AND', L=1, shape=(2, 1))
    add('OR-AND-IBP', k=2, b=1, model='OR-AND-IBP', L=2, ibp=True)
    add('two layers', k=2, b=0, layers=2, fixed=('f01',), cost=10)
    add('two layers, fixed parameters', k=2, b=0, layers=2, fixed=('f00', 'f11'), fixed_lbda=('l1',), cost=4)
    add('two layers, fixed parameters of the first', k=2, b=1, layers=2, fixed=('f01', 'f10'), fixed_lbda=('l0',), cost=4)
    add('arrays replaced by the samplers', k=3, b=1, replace=True)
    out.append(case('real samplers, 1x1, 1 sample', real_samplers, 20, k=1, b=0))
    out.append(case('real samplers, 1x1', real_samplers, 20, k=2, b=0, fixed=(0,)))
    if th:
        add('one layer, 4 samples, 2 burn-in sweeps', k=4, b=2, cost=20)
        add('two layers, all free', k=2, b=0, layers=2, cost=40)
        add('three factors, 3 samples', k=3, b=0, shape=(1, 1, 1), cost=30)
        add('unfixed data and further matrix', k=2, b=0, data_fixed=False, extra=True, cost=40)
        add('qL-AND, 3 samples', k=3, b=0, model='qL-AND', shape=(1, 2), cost=30)
        out.append(case('real samplers, 1x1, burn-in', real_samplers, 30, k=2, b=1))
        out.append(case('real samplers, 1x2', real_samplers, 60, k=1, b=1, shape=(1, 2)))
    return out
