"""Clean-up of redundant latent dimensions."""
import itertools
from .common import *
from .inference import Log, build, free_names, split_sweeps
from lom import auxiliary_functions as aux

BOUNDS = ('layers of 2 factors with 1 to 3 rows and of 3 factors with 1 or 2 rows, latent size 1 to 4 (thorough 5), all factor values and masks of fixed entries, all MAX-AND '
          'dispersions; factors with 130 and 300 rows, concrete but a window of 4; burn-in with automatic clean-up: 1x1 and 2x1 data, latent size 2, windows of 2, at most 4 sweeps, samplers replaced by scripts')
BUDGET = {'quick': 300, 'thorough': 780}


def dead(fs, l):
    """all -1 in some factor"""
    return or_(*[and_(*[not_(spec.pos(e)) for e in f[:, l]]) for f in fs])


def same(fs, a, b):
    """equal in some factor"""
    return or_(*[and_(*[tm.eq(f[i, a], f[i, b]) for i in range(f.shape[0])]) for f in fs])


def redundant(fs, L):
    return or_(*([dead(fs, l) for l in range(L)] + [same(fs, a, b) for a in range(L) for b in range(a)]))


def equal(ctx, xs, ys):
    """Bool term: lists of arrays of terms are equal"""
    c = []
    for x, y in zip(xs, ys):
        if x.shape != y.shape:
            return FALSE
        c.extend(ctx.eq(x[i], y[i]) for i in np.ndindex(*x.shape))
    return and_(*c)


def setup(ctx, shape, L, model, mask, base=None):
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', ctx.data('X', shape), fixed=True)
    lay = meth(ctx, m, 'add_layer', latent_size=L, child=d, model=model)
    fs = list(ctx.attr(lay, 'factors'))
    for k, (f, n) in enumerate(zip(fs, shape)):
        ctx.setattr(f, 'val', ctx.factor('F%d' % k, (n, L)) if base is None else window(ctx, 'F%d' % k, (n, L), base, min(4, n * L), 'factor'))
        if mask:
            ctx.setattr(f, 'fixed_entries', ctx.bits('M%d' % k, (n, L)))
    lb = ctx.attr(lay, 'lbda')
    if model == 'MAX-AND':
        ctx.setattr(lb, 'val', ctx.reals('lambda', (L + 1,), 0, 1, True, True))
    else:
        ctx.setattr(lb, 'val', ctx.real('lambda'))
    return m, d, lay, fs, lb


def state(ctx, fs, lb):
    return ([ctx.arr(ctx.copyval(ctx.attr(f, 'val'))) for f in fs], [ctx.arr(ctx.copyval(ctx.attr(f, 'fixed_entries'))) for f in fs],
            ctx.arr(ctx.copyval(ctx.attr(lb, 'val'))))


def survivors(ctx, old, new, S, model):
    """the new state consists of the dimensions S of the old one"""
    S = list(S)
    L = old[0][0].shape[1]
    v = [f[:, S] for f in old[0]]
    k = [f[:, S] for f in old[1]]
    lam = old[2]
    if model == 'MAX-AND':
        lam = lam[S + [L]]
    return equal(ctx, v + k + [lam], new[0] + new[1] + [new[2]])


def truth(ctx, r):
    t = ctx.t(r)
    return t if t.sort == 'B' else not_(tm.eq(t, tm.intc(0)))


def remove(ctx, shape, L, model='OR-AND', mask=True, base=None):
    m, d, lay, fs, lb = setup(ctx, shape, L, model, mask, base)
    old = state(ctx, fs, lb)
    r = ctx.call(aux.clean_up_codes, lay, False, True)
    ctx.observe('result', r)
    new = state(ctx, fs, lb)
    ctx.check(ctx.attr(lay, 'size') == new[0][0].shape[1], 'size')
    n = new[0][0].shape[1]
    ctx.check(all(f.shape == (o.shape[0], n) for f, o in zip(new[0] + new[1], old[0] + old[1])), 'shape of factors and masks')
    if not all(f.shape == (o.shape[0], n) for f, o in zip(new[0] + new[1], old[0] + old[1])):
        return
    for f, v in zip(fs, new[0]):
        ctx.check(np.dtype(ctx.dtype(ctx.attr(f, 'val'))) == np.int8, 'type')
        ctx.observe('factor', ctx.attr(f, 'val'))
    ctx.check(not_(redundant(new[0], n)), 'no redundant dimension is left')
    red = redundant(old[0], L)
    ctx.check(or_(red, survivors(ctx, old, new, range(L), model)) if n == L else red, 'untouched without redundant dimensions')
    ctx.check(tm.iff(truth(ctx, r), red), 'return value')
    ways = []
    for S in itertools.combinations(range(L), n):
        gone = [l for l in range(L) if l not in S]
        ways.append(and_(survivors(ctx, old, new, S, model), *[or_(dead(old[0], l), *[same(old[0], l, s) for s in S]) for l in gone]))
    ctx.check(or_(*ways), 'surviving dimensions keep values, order, association, masks and dispersions')


def reset(ctx, shape, L, model='OR-AND', mask=False, kw=None, base=None):
    m, d, lay, fs, lb = setup(ctx, shape, L, model, mask, base)
    old = state(ctx, fs, lb)
    r = ctx.call(aux.clean_up_codes, lay, **(kw or {}))
    ctx.observe('result', r)
    new = state(ctx, fs, lb)
    if not all(a.shape == b.shape for a, b in zip(old[0] + old[1] + [old[2]], new[0] + new[1] + [new[2]])):
        ctx.check(False, 'sizes are kept')
        return
    ctx.check(equal(ctx, old[1] + [old[2]], new[1] + [new[2]]), 'masks and dispersions are kept')
    ctx.check(tm.iff(truth(ctx, r), redundant(old[0], L)), 'return value')

    def off(l):
        return and_(*[tm.eq(e, tm.intc(-1)) for f in new[0] for e in f[:, l]])
    for f in fs:
        ctx.observe('factor', ctx.attr(f, 'val'))
    for l in range(L):
        kept = equal(ctx, [f[:, l] for f in old[0]], [f[:, l] for f in new[0]])
        ctx.check(or_(off(l), kept), 'a dimension is reset or unchanged')
        ctx.check(or_(off(l), not_(dead(new[0], l))), 'dead dimensions are reset')
        for k in range(l):
            ctx.check(or_(off(l), off(k), not_(same(new[0], l, k))), 'duplicates are reset')
        ctx.check(or_(kept, dead(old[0], l), *[and_(not_(off(k)), same(old[0], k, l)) for k in range(L) if k != l]), 'only redundant dimensions are reset')


def auto(ctx, shape, L, bmax, W=2, model='OR-AND', mode='clean', fixed=('f00',)):
    """burn-in with automatic clean-up of a layer whose samplers write arbitrary states"""
    ctx.tol = 1e-6
    log = Log()
    m, mats, lbdas, lays = build(ctx, log, shape=shape, L=L, model=model, fixed=fixed, replace=True, lbda_range=(-6, 6), watch_mats=True)
    lay = lays[0]
    ctx.setattr(lay, 'auto_' + mode, True)
    fs = [mats['f0%d' % i] for i in range(len(shape))]
    meth(ctx, m, 'infer', no_samples=1, burn_in_min=0, burn_in_max=bmax, convergence_window=W, convergence_eps=ctx.real('eps', 0, 1))
    names = [n for n in ('f00', 'f01') if n not in fixed]
    sweeps = split_sweeps([c[0] for c in log.calls], names, ['l0'])
    ctx.check(sweeps is not None, 'sweeps')
    if sweeps is None:
        return
    S = len(sweeps) - 1
    ctx.check(S <= bmax, 'at most burn_in_max sweeps')
    ctx.check(ctx.attr(m, 'burn_in_iters') == S, 'burn_in_iters is the number of sweeps')
    # state seen by the first sampler call after the burn-in
    seen = [ctx.arr(v) for v in log.calls[sweeps[-1][0][0]][2]]
    n = seen[0].shape[1]
    ctx.check(all(f.shape[1] == n for f in seen), 'factors agree in size')
    ctx.observe('sweeps', tm.intc(S))
    if not all(f.shape[1] == n for f in seen):
        return
    if mode == 'clean':
        if S < bmax:
            ctx.check(not_(redundant(seen, n)), 'burn-in converges only without redundant dimensions')
    else:
        ctx.check(not_(redundant(seen, n)), 'no redundant dimension after burn-in')


def cases(tier):
    th = tier == 'thorough'
    out = []

    def add(name, fn, cost=2, **p):
        out.append(case(name, fn, cost, **p))

    for shape, Ls in (((2, 2), (1, 2, 3)), ((1, 2), (2, 3, 4)), ((3, 2), (2, 3)), ((1, 1), (3, 4)), ((1, 2, 1), (2, 3)), ((2, 1, 2), (2,)), ((2, 2, 2), (2,))):
        for L in Ls:
            add('remove, %s, size %d' % ('x'.join(map(str, shape)), L), remove, L ** 3, shape=shape, L=L)
    for L in (1, 2, 3):
        add('remove, MAX-AND, size %d' % L, remove, L ** 3, shape=(2, 2), L=L, model='MAX-AND')
    for shape, Ls in (((2, 2), (1, 2, 3)), ((2, 1), (2, 3)), ((3, 2), (3,)), ((1, 2, 1), (2, 3)), ((2, 2, 2), (2,))):
        for L in Ls:
            add('reset, %s, size %d' % ('x'.join(map(str, shape)), L), reset, L ** 3, shape=shape, L=L, mask=L == 2)
    add('reset, positional default', reset, 3, shape=(2, 2), L=2, kw={'reset': True, 'clean': False})
    add('reset, both requested', reset, 3, shape=(2, 2), L=2, kw={'reset': True, 'clean': True})
    add('reset, MAX-AND', reset, 3, shape=(2, 2), L=2, model='MAX-AND')
    for shape in ((130, 1), (300, 2)):
        for base in (1, -1):
            n = '%dx%d %d' % (*shape, base)
            add('remove, ' + n, remove, 9, shape=shape, L=2, mask=False, base=base)
            add('reset, ' + n, reset, 9, shape=shape, L=2, base=base)
    for mode in ('clean', 'reset'):
        add('burn-in with automatic %s' % mode, auto, 8, shape=(1, 1), L=2, bmax=4, mode=mode)
        add('burn-in with automatic %s, 2x1' % mode, auto, 8, shape=(2, 1), L=2, bmax=3, mode=mode)
        add('burn-in with automatic %s, other factor' % mode, auto, 8, shape=(1, 2), L=2, bmax=3, mode=mode, fixed=('f01',))
        add('burn-in with automatic %s, MAX-AND' % mode, auto, 8, shape=(1, 1), L=2, bmax=3, mode=mode, model='MAX-AND')
    if th:
        add('remove, 2x3, size 4', remove, 100, shape=(2, 3), L=4)
        add('remove, 2x2x2, size 3', remove, 50, shape=(2, 2, 2), L=3)
        add('remove, 3x3, size 3', remove, 50, shape=(3, 3), L=3)
        add('remove, 1x2, size 5', remove, 100, shape=(1, 2), L=5)
        add('remove, XOR-NXOR', remove, 30, shape=(2, 2), L=3, model='XOR-NXOR')
        add('reset, 3x3, size 4', reset, 60, shape=(3, 3), L=4)
    return out
