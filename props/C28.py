"""Held-out evaluation."""
import multiprocessing
from fractions import Fraction
import pandas
import sklearn.metrics
from .common import *
from sx import engine as E, interp as I, npm, vals as V
from lom import auxiliary_functions as aux
from lom import experiments as ex

BOUNDS = ('area under the ROC curve for matrices of 2 to 4 cells with up to 3 hidden ones (all observed data, all hidden sets that include both classes, all predictions in [0,1]); '
          'LOM_predictive for all 36 models on 2 to 4 cells in 2D and 3D, latent size 1 and 2, 1 or 2 recorded samples per factor (Machine.infer replaced by a script that leaves '
          'arbitrary traces), all data, training data and held-out cells; grid search over up to 4 configurations, worker pool and table replaced by sequential stand-ins')
BUDGET = {'quick': 300, 'thorough': 780}
HALF = tm.realc(Fraction(1, 2))


@npm.model(sklearn.metrics.roc_auc_score)
def _roc(y_true, y_score, **k):
    """fraction of (positive, negative) pairs that are ranked correctly, ties count half"""
    y, s = npm.asarray(y_true), npm.asarray(y_score)
    if y.data.shape != s.data.shape:
        raise ValueError('Found input variables with inconsistent numbers of samples')
    y = [V.tB(e) if y.dtype == bool else tm.eq(V.tI(e), tm.intc(1)) for e in y.data]
    s = [tm.to_real(V.tR(e)) for e in s.data]
    r, _ = pairs(y, s)
    n = spec.sum_([tm.b2i(e) for e in y])
    k = tm.mul(n, tm.sub(tm.intc(len(y)), n))
    E.require_guard('roc')
    return V.box(tm.div(r, tm.to_real(k)), np.dtype(float))


def pairs(y, s):
    r = tm.realc(0)
    for i in range(len(y)):
        for j in range(len(y)):
            if i != j:
                c = and_(y[i], not_(y[j]))
                r = tm.add(r, tm.ite(and_(c, tm.lt(s[j], s[i])), tm.realc(1), tm.ite(and_(c, tm.eq(s[i], s[j])), HALF, tm.realc(0))))
    return r, None


def auc(ctx, shape, hide):
    """hide: flattened positions of the hidden cells"""
    x = ctx.factor('X', shape)
    p = ctx.reals('P', shape, 0, 1)
    x0, p0 = ctx.arr(ctx.copy(x)), ctx.arr(ctx.copy(p))
    tr = ctx.copy(x)
    cells = list(np.ndindex(*shape))
    hidden = [cells[i] for i in hide]
    for c in hidden:
        if ctx.symbolic:
            tr.data[c] = 0
        else:
            tr[c] = 0
    t0 = ctx.arr(ctx.copy(tr))
    y = [spec.pos(x0[c]) for c in hidden]
    ctx.assume(and_(or_(*y), not_(and_(*y))))
    r = ctx.call(aux.get_roc_auc, x, tr, p)
    ctx.observe('auc', r)
    num, _ = pairs(y, [tm.to_real(p0[c]) for c in hidden])
    n = spec.sum_([tm.b2i(e) for e in y])
    k = tm.to_real(tm.mul(n, tm.sub(tm.intc(len(y)), n)))
    ctx.check(ctx.eq(tm.mul(tm.to_real(ctx.t(r)), k), num), 'area under the ROC curve of the hidden cells')
    ctx.check_eq(x, x0, 'data unchanged')
    ctx.check_eq(tr, t0, 'training data unchanged')
    ctx.check_eq(p, p0, 'prediction unchanged')


class Infer(object):
    """stand-in for Machine.infer: leaves arbitrary traces"""

    def __init__(self, ctx, T):
        self.ctx, self.T, self.runs = ctx, T, []

    def install(self):
        ctx, T, runs = self.ctx, self.T, self.runs

        def infer(m, *a, **k):
            if ctx.symbolic:
                E.require_guard('infer')
            r = len(runs)
            lay = ctx.attr(m, 'layers')[0]
            d = ctx.call(lay.child)
            lb = ctx.attr(lay, 'lbda')
            rec = dict(layer=lay, model=ctx.attr(lay, 'model'), inv=ctx.attr(lay, 'invert_data'), data=ctx.arr(ctx.copyval(ctx.call(lay.child))), lbda=ctx.t(ctx.call(lb)),
                       anneal=ctx.attr(m, 'anneal'), fixed=[ctx.attr(f, 'fixed') for f in ctx.attr(m, 'matrices')], means=[], n=len(ctx.attr(m, 'layers')), traces=[])
            runs.append(rec)
            for i, f in enumerate(ctx.attr(lay, 'factors')):
                n, L = ctx.shape(ctx.attr(f, 'val'))
                rec['L'] = L
                t = ctx.factor('run%d.f%d' % (r, i), (T, n, L))
                ctx.setattr(f, 'trace', t)
                a = ctx.arr(ctx.copyval(t))
                rec['traces'].append(a)
                mean = np.empty((n, L), dtype=object)
                for c in np.ndindex(n, L):
                    mean[c] = tm.scale(spec.sum_([tm.to_real(a[(s,) + c]) for s in range(T)], True), Fraction(1, T))
                rec['means'].append(mean)
            ctx.setattr(lb, 'trace', ctx.reals('run%d.l' % r, (T,)))
        infer._sx_native = True
        self.saved = M0.Machine.infer
        M0.Machine.infer = infer
        return self

    def remove(self):
        M0.Machine.infer = self.saved


def agreement(rec, x0, cells):
    """number of the given cells where the thresholded output agrees with the data"""
    n = []
    for c in cells:
        p = spec.prob_model(rec['model'], [[tm.scale(tm.add(m[i, l], tm.realc(1)), Fraction(1, 2)) for m, i in zip(rec['means'], c)]
                                           for l in range(rec['L'])])
        truth = tm.eq(x0[c], tm.intc(-1 if rec['inv'] else 1))
        n.append(tm.b2i(tm.iff(tm.lt(HALF, p), truth)))
    return spec.sum_(n)


def held_out(ctx, shape, mask):
    m = np.zeros(shape, dtype=bool)
    cells = list(np.ndindex(*shape))
    for i in mask:
        m[cells[i]] = True
    return ctx.const(m), [cells[i] for i in mask]


def predictive(ctx, model, shape, L, mask, T=1, anneal=False, ret=True):
    x = ctx.data('X', shape)
    tr = ctx.data('train', shape)
    mk, cells = held_out(ctx, shape, mask)
    lam = ctx.real('lambda')
    x0, t0 = ctx.arr(ctx.copy(x)), ctx.arr(ctx.copy(tr))
    inf = Infer(ctx, T).install()
    try:
        out = ctx.call(ex.LOM_predictive, [x, tr, mk, model, L, 0, lam, anneal], **({} if ret else {'return_machine': False}))
    finally:
        inf.remove()
    ctx.check(len(inf.runs) == 1, 'one model is fitted')
    if len(inf.runs) != 1:
        return
    rec = inf.runs[0]
    row = out[0] if ret else out
    if ret:
        ctx.check(len(out) == 2 and len(out[1]) == len(shape), 'posterior means of the factors')
        for o, w in zip(out[1], rec['means']):
            ctx.check_eq(o, w, 'posterior means of the factors')
    examine(ctx, rec, row, model, L, x0, t0, cells, lam, anneal)
    ctx.check_eq(x, x0, 'data unchanged')
    ctx.check_eq(tr, t0, 'training data unchanged')


def examine(ctx, rec, row, model, L, x0, t0, cells, lam, anneal):
    ctx.check(len(row) == 3 and row[1] == model and row[2] == L, 'configuration is returned')
    ctx.check(rec['n'] == 1 and rec['L'] == L, 'a single layer of the given size')
    ctx.check(ctx.eq(rec['lbda'], ctx.t(lam)), 'initial dispersion')
    ctx.check(bool(rec['anneal']) == anneal, 'annealing')
    want = np.empty(t0.shape, dtype=object)
    for c in np.ndindex(*t0.shape):
        want[c] = tm.neg(t0[c]) if rec['inv'] else t0[c]
    ctx.check(rec['data'].shape == t0.shape and and_(*[tm.eq(rec['data'][c], want[c]) for c in np.ndindex(*t0.shape)]), 'fitted to the training data')
    ctx.observe('accuracy', row[0])
    ctx.check(ctx.eq(tm.scale(tm.to_real(ctx.t(row[0])), len(cells)), tm.to_real(agreement(rec, x0, cells))), 'accuracy on the held-out cells')


def grid(ctx, machines, Ls, shape=(1, 2), mask=(0,), idxs=(0,), anneal=True):
    x = ctx.factor('X', shape)
    tr = ctx.data('train', shape)
    mk, cells = held_out(ctx, shape, mask)
    x0, t0 = ctx.arr(ctx.copy(x)), ctx.arr(ctx.copy(tr))
    calls = []

    def split(t, split=.1, balanced=False):
        calls.append(1)
        return tr, mk
    split._sx_native = True

    def run(f, e):
        return I.call(f, [e], {}) if ctx.symbolic else f(e)

    def pmap(f, seq, *a, **k):
        return [run(f, e) for e in seq]

    def nothing(*a, **k):
        return None
    pmap._sx_native = nothing._sx_native = True

    class FakePool(object):
        pass

    def Pool(*a, **k):
        p = FakePool()
        p.map = pmap
        p.imap = pmap
        p.close = p.join = p.terminate = nothing
        return p
    Pool._sx_native = True

    def Frame(data=None, *a, **k):
        return ('frame', list(data), list(k.get('columns') or (a[1] if len(a) > 1 else ())))
    Frame._sx_native = True
    saved = (ex.split_train_test, multiprocessing.Pool, pandas.DataFrame)
    ex.split_train_test, multiprocessing.Pool, pandas.DataFrame = split, Pool, Frame
    inf = Infer(ctx, 1).install()
    lam = ctx.real('lambda')
    try:
        k = {} if machines is None else {'machines': list(machines)}
        out = ctx.call(ex.LOM_hyperparms_parallel_gridsearch, x, L_inits=list(Ls), random_idxs=list(idxs), lbda_init=lam, anneal=anneal, **k)
    finally:
        inf.remove()
        ex.split_train_test, multiprocessing.Pool, pandas.DataFrame = saved
    ms = MODELS if machines is None else machines
    want = [(a, b) for a in ms for b in Ls for i in idxs]
    ctx.check(len(out) == 2 and out[0][2] == ['test accuracy', 'LOM', 'L'], 'columns of the table')
    rows, means = list(out[0][1]), list(out[1])
    ok = len(rows) == len(want) == len(inf.runs) == len(means)
    ctx.check(ok, 'a row for each configuration')
    if not ok:
        return
    ctx.check(sorted((r[1], r[2]) for r in rows) == sorted(want), 'each configuration once')
    # the runs are made in the order of the rows
    for r, rec, mn in zip(rows, inf.runs, means):
        examine(ctx, rec, r, r[1], r[2], x0, t0, cells, lam, anneal)
        for o, w in zip(mn, rec['means']):
            ctx.check_eq(o, w, 'posterior means of the factors')
    ctx.check_eq(x, x0, 'data unchanged')


def cases(tier):
    th = tier == 'thorough'
    out = []

    def add(name, fn, cost=3, **p):
        out.append(case(name, fn, cost, **p))

    for shape, hides in (((1, 2), [(0, 1)]), ((2, 1), [(0, 1)]), ((1, 3), [(0, 2), (0, 1, 2)]), ((2, 2), [(0, 1), (1, 2), (0, 3), (0, 1, 3), (1, 2, 3)]),
                         ((2, 3), [(0, 4), (1, 3, 5)])) + ((((2, 2), [(0, 1, 2, 3)]), ((3, 2), [(1, 2, 4, 5)])) if th else ()):
        for h in hides:
            add('roc %dx%d hidden %s' % (shape + (','.join(map(str, h)),)), auc, 3, shape=shape, hide=h)
    for i, model in enumerate(ALL36):
        for shape, L, mask in (((1, 2), 1, (0,)), ((2, 1), 2, (0, 1)), ((1, 2, 1), 1, (1,))) + ((((2, 2), 1, (0, 3)), ((2, 1, 2), 1, (0, 1, 2)), ((2, 2), 2, (1, 2, 3))) if th else ()):
            add('predictive %s %s L=%d' % (model, 'x'.join(map(str, shape)), L), predictive, 4, model=model, shape=shape, L=L, mask=mask, anneal=bool(i % 2), T=1 + (i % 3 == 0),
                ret=i % 4 != 1)
    add('grid, two models', grid, 8, machines=('OR-AND', 'AND-NAND'), Ls=(1, 2))
    add('grid, all implemented models', grid, 12, machines=None, Ls=(1,))
    add('grid, repeats', grid, 6, machines=('NXOR-AND',), Ls=(2, 1), idxs=(0, 1), anneal=False)
    return out
