"""Independent specification vocabulary over terms (never uses the code under test)."""
from . import terms as tm
from .terms import TRUE, FALSE, and_, not_, or_


def pos(t):
    """Bool: entry is +1"""
    return tm.eq(t, tm.intc(1))


def exactly_one(bs):
    bs = list(bs)
    # running state (none, one)
    none, one = TRUE, FALSE
    for b in bs:
        one = or_(and_(one, not_(b)), and_(none, b))
        none = and_(none, not_(b))
    return one


def lop(name, bs):
    bs = list(bs)
    if name == 'AND':
        return and_(*bs)
    if name == 'NAND':
        return not_(and_(*bs))
    if name == 'OR':
        return or_(*bs)
    if name == 'NOR':
        return not_(or_(*bs))
    if name == 'XOR':
        return exactly_one(bs)
    if name == 'NXOR':
        return not_(exactly_one(bs))
    raise ValueError(name)


def model_out(model, cols):
    """Bool: output of model 'A-B'; cols[l] = list of Bool (factor entries of latent dimension l)"""
    outer, inner = model.split('-')
    return lop(outer, [lop(inner, c) for c in cols])


def pm(b):
    """+1 / -1"""
    return tm.sub(tm.scale(tm.b2i(b), 2), tm.intc(1))


def sum_(ts, real=False):
    r = tm.realc(0) if real else tm.intc(0)
    for t in ts:
        r = tm.add(r, t)
    return r


# exact probabilities under independence
def prob_lop(name, ps):
    one = tm.realc(1)
    none, single, alls = one, tm.realc(0), one
    for p in ps:
        q = tm.sub(one, p)
        single = tm.add(tm.mul(single, q), tm.mul(none, p))
        none = tm.mul(none, q)
        alls = tm.mul(alls, p)
    return {'AND': alls, 'NAND': tm.sub(one, alls), 'OR': tm.sub(one, none), 'NOR': none,
            'XOR': single, 'NXOR': tm.sub(one, single)}[name]


def prob_model(model, cols):
    outer, inner = model.split('-')
    return prob_lop(outer, [prob_lop(inner, c) for c in cols])
