"""Specification of single-entry updates, shared by the sampler properties."""
import itertools
from fractions import Fraction
from .common import *


def flip_spec(z, znew, s, draws, tol=0):
    """metropolised Gibbs: z flips with probability min(1, exp(-z s)); draws = [(guard, u)] available for the decision"""
    t = tm.ite(spec.pos(z), s, tm.neg(s))
    certain = tm.le(t, tm.realc(0))
    # a flip that is certain needs no probability (and its exponential may be out of range)
    alpha = tm.realc(1) if certain is TRUE else tm.exp(tm.neg(t))
    flips = tm.eq(znew, tm.neg(z))
    keeps = tm.eq(znew, z)
    if tol:
        # arithmetic of the code is in single precision: no claim within tol of the threshold
        d = tm.realc(Fraction(tol))
        near = lambda u: and_(tm.le(tm.sub(u, alpha), d), tm.le(tm.sub(alpha, u), d), or_(flips, keeps))
        some = or_(*[and_(g, or_(and_(tm.lt(u, alpha), flips), and_(tm.lt(alpha, u), keeps), near(u))) for g, u in draws])
        return or_(and_(tm.le(t, d), flips), and_(or_(not_(certain), tm.le(tm.neg(d), t)), some))
    some = or_(*[and_(g, or_(and_(tm.lt(u, alpha), flips), and_(tm.lt(alpha, u), keeps), and_(tm.eq(u, alpha), or_(flips, keeps))))
                 for g, u in draws])
    return or_(and_(certain, flips), and_(not_(certain), some))


def model_score(model, z, l, fs, x):
    """sum over the cells of x * (output with entry l at +1 - output with it at -1) / 2; z row terms, fs arrays of rows"""
    L = len(z)
    want = tm.intc(0)
    for cell in np.ndindex(*x.shape):
        cols = [[spec.pos(z[k])] + [spec.pos(g[i, k]) for g, i in zip(fs, cell)] for k in range(L)]
        cols[l][0] = TRUE
        hi = spec.model_out(model, cols)
        cols[l][0] = FALSE
        lo = spec.model_out(model, cols)
        want = tm.add(want, tm.mul(x[cell], tm.sub(tm.b2i(hi), tm.b2i(lo))))
    return want


def sweep_spec(old, new, free, logodds, draws):
    """one sweep over the free entries, in any order, each from its full conditional at the then-current state.
    logodds(state, idx) -> Real term"""
    alts = []
    for order in itertools.permutations(free):
        for ds in itertools.permutations(range(len(draws)), min(len(free), len(draws))):
            state = old.copy()
            conj = []
            for k, idx in enumerate(order):
                d = [draws[ds[k]]] if k < len(ds) else []
                conj.append(flip_spec(old[idx], new[idx], logodds(state, idx), d))
                state[idx] = new[idx]
            alts.append(and_(*conj))
    return or_(*alts)
