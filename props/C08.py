"""Sweep of a factor with one child layer."""
from .samplers import *
from lom._numba import matrix_updates_numba as mu

BOUNDS = ('2D and 3D, all 8 models; all values of the factor being updated, the other factors, data in {-1,0,1}, dispersion > 0, prior '
          'log-odds and random numbers.  One free entry at every position of a 2x2 factor (D=2; 3D: 2x1 cells); two free entries in any '
          'visiting order in a 1x2 (D=1) and 2x1 factor; all masks on 1x2, 3x1 and (3D) 2x1 factors for what must not change.  One free entry with 130 latent dimensions, 260 data columns or 260 rows (thorough 258, 300, 400), everything else concrete but a window of 3 per array (there dispersion <= 1 and prior log-odds within 5, so that no exponential leaves double precision).  Thorough: 3x2, 2x3 factors, D=3, 3D 2x2')
BUDGET = {'quick': 300, 'thorough': 780}


def setup(ctx, K, N, L, shape):
    Z = ctx.factor('Z', (N, L))
    fs = [ctx.factor('F%d' % k, (n, L)) for k, n in enumerate(shape)]
    X = ctx.data('X', (N,) + tuple(shape))
    lam = ctx.real('lambda', 0, None, True)
    pri = ctx.real('prior')
    return Z, fs, X, lam, pri


def run(ctx, model, K, N, L, shape, free):
    """free: list of positions that are not fixed; 'each' = every single one in turn; 'mask' = symbolic mask"""
    Z, fs, X, lam, pri = setup(ctx, K, N, L, shape)
    if free == 'mask':
        M = ctx.bits('M', (N, L))
        pos = None
    else:
        if free == 'each':
            pos = [ctx.choice('pos', [(i, j) for i in range(N) for j in range(L)])]
        else:
            pos = [tuple(p) for p in free]
        m = np.ones((N, L), dtype=np.int8)
        for p in pos:
            m[p] = 0
        M = ctx.const(m)
    z0, m0, x0 = ctx.arr(ctx.copy(Z)), ctx.arr(ctx.copy(M)), ctx.arr(ctx.copy(X))
    f0 = [ctx.arr(ctx.copy(f)) for f in fs]
    mark = ctx.mark()
    f = ctx.call(mu.make_sampling_fct_onechild, fname(model, K))
    r = ctx.call(f, Z, M, *fs, X, lam, pri)
    z1 = ctx.arr(Z)
    ctx.observe('Z', Z)
    ctx.check_eq(M, m0, 'mask unchanged')
    ctx.check_eq(X, x0, 'data unchanged')
    for a, b in zip(fs, f0):
        ctx.check_eq(a, b, 'other factors unchanged')
    for i in np.ndindex(N, L):
        ctx.check(is_pm1(z1[i]), 'entries in {-1,1}')
        ctx.check(or_(tm.eq(m0[i], tm.intc(0)), tm.eq(z1[i], z0[i])), 'fixed entries unchanged')
    if pos is None:
        return
    lt, pt = ctx.real_t(lam), ctx.real_t(pri)

    def logodds(state, i):
        sc = model_score(model, list(state[i[0]]), i[1], f0, x0[i[0]])
        return tm.add(tm.mul(lt, tm.to_real(sc)), pt)
    ctx.check(sweep_spec(z0, z1, pos, logodds, ctx.draws(mark)), 'update rule')


def large(ctx, model, N, L, shape, act, free):
    """many rows, latent dimensions or data columns, concrete but a window of the factors and of the data; one free entry"""
    K = len(shape) + 1
    fs = window_factors(ctx, model, (N,) + tuple(shape), L, act)
    Z, fs = fs[0], fs[1:]
    X = window(ctx, 'X', (N,) + tuple(shape), 1, 3)
    lam = ctx.real('lambda', 0, 1, True)
    pri = ctx.real('prior', -5, 5)
    pos = [tuple(free)]
    m = np.ones((N, L), dtype=np.int8)
    m[pos[0]] = 0
    z0, x0 = ctx.arr(ctx.copy(Z)), ctx.arr(ctx.copy(X))
    f0 = [ctx.arr(ctx.copy(f)) for f in fs]
    mark = ctx.mark()
    ctx.call(ctx.call(mu.make_sampling_fct_onechild, fname(model, K)), Z, ctx.const(m), *fs, X, lam, pri)
    z1 = ctx.arr(Z)
    ctx.observe('Z', Z)
    for i in np.ndindex(N, L):
        if i != pos[0]:
            ctx.check(tm.eq(z1[i], z0[i]), 'fixed entries unchanged')
    lt, pt = ctx.real_t(lam), ctx.real_t(pri)

    def logodds(state, i):
        return tm.add(tm.mul(lt, tm.to_real(model_score(model, list(state[i[0]]), i[1], f0, x0[i[0]]))), pt)
    ctx.check(sweep_spec(z0, z1, pos, logodds, ctx.draws(mark)), 'update rule')


def cases(tier):
    out = []
    th = tier == 'thorough'
    for m in MODELS:
        out.append(case('%s 2D single' % m, run, cost=5, model=m, K=2, N=2, L=2, shape=(2,), free='each'))
        out.append(case('%s 3D single' % m, run, cost=8, model=m, K=3, N=2, L=2, shape=(2, 1), free='each'))
        out.append(case('%s 2D same row' % m, run, cost=5, model=m, K=2, N=1, L=2, shape=(1,), free=[(0, 0), (0, 1)]))
        out.append(case('%s 2D two rows' % m, run, cost=5, model=m, K=2, N=2, L=1, shape=(1,), free=[(0, 0), (1, 0)]))
        out.append(case('%s 3D same row' % m, run, cost=8, model=m, K=3, N=1, L=2, shape=(1, 1), free=[(0, 0), (0, 1)]))
        out.append(case('%s 2D mask 1x2' % m, run, cost=5, model=m, K=2, N=1, L=2, shape=(1,), free='mask'))
        out.append(case('%s 2D mask 3x1' % m, run, cost=5, model=m, K=2, N=3, L=1, shape=(2,), free='mask'))
        out.append(case('%s 3D mask 2x1' % m, run, cost=5, model=m, K=3, N=2, L=1, shape=(1, 2), free='mask'))
        for K in (2, 3):
            one = (1,) * (K - 2)
            for act in (0, 1):
                w = 'active' if act else 'inactive'
                for L in (130, 258) if th else (130,):
                    out.append(case('%s %dD L=%d %s' % (m, K, L, w), large, cost=9, model=m, N=1, L=L, shape=(1,) + one, act=act, free=(0, L - 1)))
                    out.append(case('%s %dD L=%d %s first' % (m, K, L, w), large, cost=9, model=m, N=1, L=L, shape=(1,) + one, act=act, free=(0, 0)))
                for D in (260, 300) if th else (260,):
                    out.append(case('%s %dD D=%d %s' % (m, K, D, w), large, cost=9, model=m, N=1, L=1, shape=(D,) + one, act=act, free=(0, 0)))
                    if K == 3:
                        out.append(case('%s 3D last D=%d %s' % (m, D, w), large, cost=9, model=m, N=1, L=1, shape=(1, D), act=act, free=(0, 0)))
            for N in (260, 400) if th else (260,):
                out.append(case('%s %dD N=%d' % (m, K, N), large, cost=9, model=m, N=N, L=1, shape=(1,) + one, act=1, free=(N - 1, 0)))
        if th and m in ('OR-AND', 'OR-NAND', 'XOR-AND'):
            out.append(case('%s 2D mask 2x2' % m, run, cost=50, model=m, K=2, N=2, L=2, shape=(2,), free='mask'))
        if th:
            out.append(case('%s 2D 3x2 single' % m, run, cost=5, model=m, K=2, N=3, L=2, shape=(3,), free='each'))
            out.append(case('%s 2D 2x3 single' % m, run, cost=5, model=m, K=2, N=2, L=3, shape=(2,), free='each'))
            out.append(case('%s 3D 2x2 single' % m, run, cost=9, model=m, K=3, N=2, L=2, shape=(2, 2), free='each'))
            out.append(case('%s 2D same row D=2' % m, run, cost=9, model=m, K=2, N=1, L=2, shape=(2,), free=[(0, 0), (0, 1)]))
            out.append(case('%s 2D three entries' % m, run, cost=9, model=m, K=2, N=1, L=3, shape=(1,), free=[(0, 0), (0, 1), (0, 2)]))
    return out
