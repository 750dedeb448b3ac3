"""Machines whose samplers are replaced by scripts, to observe the control flow of burn-in and inference.

The sampling function of a matrix or parameter can be assigned in advance (get_sampling_fct / get_update_fct return it), so the
inference code of the package runs unchanged on samplers that record each call and write arbitrary (symbolic) new states.
"""
from .common import *
from lom import machine as M


class Log(object):
    def __init__(self):
        self.calls = []       # (name, called with its own member, watched values at the call, new state)


def _write(ctx, o, new, replace=False):
    """in place, as the samplers do"""
    v = ctx.attr(o, 'val')
    if replace or ctx.shape(new) == ():
        ctx.setattr(o, 'val', new)
        return
    if ctx.symbolic:
        v.data[...] = new.data
    else:
        v[...] = new


def scripted(ctx, log, name, obj, kind, watch=(), size=None, replace=False, rng=(None, None)):
    """sampling function that writes fresh symbolic values"""
    count = [0]

    def f(o):
        if ctx.symbolic:
            from sx import engine as E
            E.require_guard('sampler')
        t = count[0]
        count[0] += 1
        seen = [ctx.copyval(ctx.attr(w, 'val')) for w in watch]
        if kind == 'mat':
            new = ctx.factor('%s.%d' % (name, t), tuple(ctx.shape(ctx.attr(obj, 'val'))))
        elif kind == 'vec':
            new = ctx.reals('%s.%d' % (name, t), tuple(ctx.shape(ctx.attr(obj, 'val'))), 0, 1)
        else:
            new = ctx.real('%s.%d' % (name, t), *rng)
        _write(ctx, obj, new, replace)
        log.calls.append((name, o is obj, seen, ctx.copyval(new)))
    f._sx_native = True
    ctx.setattr(obj, 'sampling_fct', f)
    return f


def build(ctx, log, layers=1, shape=(1, 1), L=1, model='OR-AND', data_fixed=True, fixed=(), fixed_lbda=(), extra=False, watch_lbda=False,
          replace=False, lbda_range=(None, None), watch_mats=False):
    """machine with scripted members; returns (machine, {name: member}, {name: parameter})"""
    m = machine(ctx)
    d = meth(ctx, m, 'add_matrix', ctx.data('X', shape), fixed=data_fixed)
    mats = {'x': d}
    lbdas = {}
    child = d
    lays = []
    for k in range(layers):
        lay = meth(ctx, m, 'add_layer', latent_size=L, child=child, model=model)
        fs = list(ctx.attr(lay, 'factors'))
        for i, f in enumerate(fs):
            mats['f%d%d' % (k, i)] = f
        if model == 'qL-AND':
            mats['q%d' % k] = ctx.attr(lay, 'q')
        lbdas['l%d' % k] = ctx.attr(lay, 'lbda')
        child = fs[0]
        lays.append(lay)
    if extra:
        mats['e'] = meth(ctx, m, 'add_matrix', ctx.factor('E', (1, 2)))
    for n, o in mats.items():
        if n in fixed:
            ctx.setattr(o, 'fixed', True)
    for n, o in lbdas.items():
        if n in fixed_lbda:
            ctx.setattr(o, 'fixed', True)
    watch = list(lbdas.values()) if watch_lbda else [o for n, o in mats.items() if n[0] == 'f'] if watch_mats else ()
    for n, o in mats.items():
        if n[0] != 'x':
            ctx.setattr(o, 'val', ctx.factor('init.' + n, tuple(ctx.shape(ctx.attr(o, 'val')))))
        scripted(ctx, log, n, o, 'mat', watch, replace=replace)
    for n, o in lbdas.items():
        size = L + 1 if model == 'MAX-AND' else None
        ctx.setattr(o, 'val', ctx.reals('init.' + n, (size,), 0, 1) if size else ctx.real('init.' + n, *lbda_range))
        scripted(ctx, log, n, o, 'vec' if size else 'par', watch, size, replace=replace, rng=lbda_range)
    return m, mats, lbdas, lays


def free_names(mats, lbdas, fixed, fixed_lbda, data_fixed):
    fm = [n for n in mats if n not in fixed and not (n == 'x' and data_fixed)]
    fl = [n for n in lbdas if n not in fixed_lbda]
    return fm, fl


def split_sweeps(names, fm, fl, frozen=lambda i: False):
    """sequence of calls as sweeps [(matrix calls, parameter calls)] (positions), or None; frozen(i): sweep i leaves out the parameters"""
    i, out = 0, []
    if not fm and not fl:
        return None if names else []
    while i < len(names):
        j = i + len(fm)
        if sorted(names[i:j]) != sorted(fm):
            return None
        k = j
        if not frozen(len(out)):
            k = j + len(fl)
            if sorted(names[j:k]) != sorted(fl):
                return None
        out.append((range(i, j), range(j, k)))
        i = k
    return out
