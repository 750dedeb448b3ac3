"""The ready-made tensor factorisation of lom.experiments."""
from fractions import Fraction
from .common import *
from .C28 import Infer
from sx import vals as V
from lom import experiments as ex

BOUNDS = ('three-way tensors of up to 4 cells, latent size 1 and 2, 1 to 3 recorded samples with any values (inference itself is replaced by arbitrary traces); data '
          'coded as 0/1 (Boolean, 8- and 64-bit integers, float), -1/1 and -1/0/1')
BUDGET = {'quick': 300, 'thorough': 780}
HALF = tm.realc(Fraction(1, 2))
ONE, MINUS = tm.intc(1), tm.intc(-1)


def reconstruct(ctx, shape, L, T, dtype, vals, layer):
    dt = np.dtype(dtype)
    if vals == '01':
        x = ctx.bits('X', shape, bool if dt == bool else np.int8)
    else:
        x = ctx.data('X', shape, zeros=vals == '-101')
    cells = list(np.ndindex(*shape))
    raw = ctx.arr(ctx.copy(x))
    if dt not in (np.dtype(bool), np.dtype(np.int8)):
        x = V.astype(x, dt) if ctx.symbolic else x.astype(dt)
    keep = ctx.arr(ctx.copy(x))
    coded = or_(*[tm.eq(raw[c], MINUS) for c in cells]) if dt != bool else FALSE
    if vals == '-101':
        ctx.assume(coded)
    inf = Infer(ctx, T).install()
    try:
        out = ctx.call(ex.tensorm_reconstruct, x, L, **({'return_layer': True} if layer else {}))
    finally:
        inf.remove()
    ctx.check(len(inf.runs) == 1, 'one model is fitted')
    if len(inf.runs) != 1:
        return
    rec = inf.runs[0]
    ctx.check(rec['n'] == 1 and rec['L'] == L and rec['model'] == 'OR-AND' and not rec['inv'], 'a single OR-AND layer of the given size')
    ctx.check(rec['data'].shape == tuple(shape), 'shape of the data')
    for c in cells:
        one = raw[c] if dt == bool else tm.eq(raw[c], ONE)
        ctx.check(or_(coded, tm.eq(rec['data'][c], tm.ite(one, ONE, MINUS))), 'fitted to the data in -1/1 coding')
        if dt != bool:
            ctx.check(or_(not_(coded), tm.eq(rec['data'][c], raw[c])), 'coded data are fitted as they are')
    ctx.check(and_(*[ctx.eq(ctx.arr(x)[c], keep[c]) for c in cells]), 'input unchanged')
    lay = rec['layer']
    ctx.check(bool(ctx.attr(ctx.attr(lay, 'child'), 'fixed')) and not any(bool(ctx.attr(f, 'fixed')) for f in ctx.attr(lay, 'factors')), 'data are fixed, factors are free')
    if layer:
        ctx.check(out is rec['layer'], 'the layer is returned')
        ctx.observe('mean', meth(ctx, ctx.attr(out, 'factors')[0], 'mean'))
        return
    r, fs, p = out
    a, b = ctx.arr(r), ctx.arr(p)
    ctx.check(a.shape == tuple(shape) and b.shape == tuple(shape) and len(fs) == 3, 'shapes')
    if a.shape != tuple(shape) or b.shape != tuple(shape) or len(fs) != 3:
        return
    for f, w in zip(fs, rec['means']):
        ctx.check_eq(f, w, 'posterior means of the factors')
    ctx.observe('reconstruction', r)
    ctx.observe('plugin reconstruction', p)
    for c in cells:
        ps = [[tm.scale(tm.add(m[i, l], tm.realc(1)), Fraction(1, 2)) for m, i in zip(rec['means'], c)] for l in range(L)]
        ctx.check(ctx.eq(tm.to_real(a[c]), spec.prob_model('OR-AND', ps)), 'reconstruction from the posterior means')
        on = or_(*[and_(*[tm.lt(HALF, q) for q in col]) for col in ps])
        ctx.check(tm.eq(b[c], tm.b2i(on)) if b[c].sort == 'I' else ctx.eq(b[c], tm.to_real(tm.b2i(on))), 'plugin reconstruction from the thresholded means')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for shape in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (1, 1, 2), (2, 1, 2)) + (((2, 2, 1), (1, 2, 2), (1, 3, 1)) if th else ()):
        for i, (dt, v) in enumerate((('bool', '01'), ('int8', '01'), ('int64', '01'), ('float64', '01'), ('int8', '-11'), ('int8', '-101'), ('float64', '-101'), ('int64', '-11'))):
            L = 1 + i % 2
            T = 1 + i % 3 if np.prod(shape) < 4 or i % 2 == 0 else 1
            out.append(case('%s L=%d T=%d %s %s' % ('x'.join(map(str, shape)), L, T, dt, v), reconstruct, int(np.prod(shape)) * L, shape=shape, L=L, T=T, dtype=dt, vals=v, layer=False))
        out.append(case('%s layer' % 'x'.join(map(str, shape)), reconstruct, 2, shape=shape, L=1, T=1, dtype='bool', vals='01', layer=True))
    return out
