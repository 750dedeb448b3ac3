import numpy as np
from sx import terms as tm
from sx import spec
from sx.terms import TRUE, FALSE, and_, or_, not_
from lom import machine as M0

MODELS = ['OR-AND', 'OR-NAND', 'OR-XOR', 'NAND-XOR', 'XOR-AND', 'XOR-NAND', 'XOR-NXOR', 'XOR-XOR']


def case(name, fn, cost=1, **params):
    d = {'name': name, 'fn': fn, 'params': params, 'cost': cost}
    if 'budget' in params:
        d['budget'] = params.pop('budget')
    return d


def fname(model, K):
    return '%s_%dD' % (model.replace('-', '_'), K)


def cols_of(fs, idx):
    """cols[l] = [entry of each factor] as Bool, for data cell idx"""
    L = fs[0].shape[1]
    return [[spec.pos(f[i, l]) for f, i in zip(fs, idx)] for l in range(L)]


def unchanged(ctx, after, before, label):
    ctx.check_eq(after, before, label + ' unchanged')


# ---- machines
def machine(ctx):
    M = M0
    return ctx.call(M.Machine)


def meth(ctx, o, name, *a, **k):
    return ctx.call(ctx.attr(o, name), *a, **k)


def is_pm1(t):
    return or_(tm.eq(t, tm.intc(1)), tm.eq(t, tm.intc(-1)))


ALL36 = ['%s-%s' % (a, b) for a in ('AND', 'NAND', 'OR', 'NOR', 'XOR', 'NXOR')
         for b in ('AND', 'NAND', 'OR', 'NOR', 'XOR', 'NXOR')]


def window(ctx, name, shape, base, k, kind='data'):
    """concrete array of `base` with k symbolic entries: the first, the last and others spread out"""
    a = np.full(shape, base, dtype=np.int8)
    pos = [0, a.size - 1] + [(i * 7919) % a.size for i in range(1, k)]
    w = ctx.data(name, (k,)) if kind == 'data' else ctx.factor(name, (k,))
    if ctx.symbolic:
        from sx.vals import SA
        r = ctx.const(a)
        f = r.data.reshape(-1)
        d = w.data.reshape(-1)
        for i in range(k):
            f[pos[i]] = d[i]
        return SA(f.reshape(shape), r.dtype)
    f = a.reshape(-1)
    for i in range(k):
        f[pos[i]] = w[i]
    return f.reshape(shape)


def act_values(model, K, act):
    """values of K factors at which the inner operator of the model is active (1) or not"""
    op = model.split('-')[1]
    neg = op in ('NAND', 'NOR', 'NXOR')
    a = act != neg
    op = op[1:] if neg else op
    one = (1,) + (-1,) * (K - 1)
    return {('AND', True): (1,) * K, ('AND', False): (1,) * (K - 1) + (-1,), ('OR', True): one, ('OR', False): (-1,) * K,
            ('XOR', True): one, ('XOR', False): (1,) * K}[op, a]


def window_factors(ctx, model, shape, L, act, k=3, pre='F'):
    """factors with L latent dimensions, all of them active (or not) but a symbolic window of k entries per factor"""
    return [window(ctx, '%s%d' % (pre, q), (n, L), v, k, 'factor') for q, (n, v) in enumerate(zip(shape, act_values(model, len(shape), act)))]
