"""SMT back end: terms -> z3, satisfiability / validity queries, model search that survives replay in
floating point (transcendental functions are uninterpreted plus axioms; models are refined with point
lemmas until the real functions agree with them)."""
import math
import os
import sys
import time
from fractions import Fraction

sys.setrecursionlimit(200000)
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)
import z3  # noqa: E402

from . import terms as tm  # noqa: E402

stats = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0}
CUBE_MS = 5000
CUBES = os.environ.get('SX_CUBES', '1') != '0'
TIMEOUT_MS = int(os.environ.get('SX_TIMEOUT_MS', '120000'))


class Inconclusive(BaseException):
    """the solver gave no answer"""


_R = z3.RealSort()
_fns = {}


def _fn(name):
    f = _fns.get(name)
    if f is None:
        f = _fns[name] = z3.Function('f_' + name, _R, _R)
    return f


def _num(v, sort):
    if sort == 'I':
        return z3.IntVal(int(v))
    v = Fraction(v)
    return z3.RealVal(str(v.numerator) + '/' + str(v.denominator))


def _real(a):
    """z3 expression of real sort for term a"""
    if a.sort == 'R':
        return a.z
    if a.op == 'b2i':
        return z3.If(a.args[0].z, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(a.z)


def to_z3(t):
    stack = [t]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        pend = [a for a in x.args if a.z is None]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        x.z = _conv(x)
    return t.z


def _conv(x):
    op = x.op
    a = x.args
    if op == 'true':
        return z3.BoolVal(True)
    if op == 'false':
        return z3.BoolVal(False)
    if op == 'const':
        return _num(x.v, x.sort)
    if op == 'var':
        return {'B': z3.Bool, 'I': z3.Int, 'R': z3.Real}[x.sort](x.v)
    if op == 'not':
        return z3.Not(a[0].z)
    if op == 'and':
        return z3.And(*[y.z for y in a])
    if op == 'iff':
        return a[0].z == a[1].z
    if op == 'b2i':
        return z3.If(a[0].z, z3.IntVal(1), z3.IntVal(0))
    if op == 'lin':
        const, coefs = x.v
        if x.sort == 'I':
            ts = [y.z if c == 1 else (_num(c, 'I') * y.z if y.op != 'b2i' else
                                      z3.If(y.args[0].z, _num(c, 'I'), z3.IntVal(0)))
                  for c, y in zip(coefs, a)]
            if const != 0 or not ts:
                ts.append(_num(const, 'I'))
        else:
            ts = []
            for c, y in zip(coefs, a):
                if y.op == 'b2i':
                    ts.append(z3.If(y.args[0].z, _num(c, 'R'), z3.RealVal(0)))
                else:
                    ts.append(_real(y) if c == 1 else _num(c, 'R') * _real(y))
            if const != 0 or not ts:
                ts.append(_num(const, 'R'))
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]
    if op == 'gate':
        zero = z3.IntVal(0) if x.sort == 'I' else z3.RealVal(0)
        return z3.If(a[0].z, _real(a[1]) if x.sort == 'R' else a[1].z, zero)
    if op == 'ite':
        if x.sort == 'R':
            return z3.If(a[0].z, _real(a[1]), _real(a[2]))
        return z3.If(a[0].z, a[1].z, a[2].z)
    if op == 'mul':
        zs = [_real(y) if x.sort == 'R' else y.z for y in a]
        return z3.Product(*zs)
    if op == 'div':
        return _real(a[0]) / _real(a[1])
    if op == 'idiv':
        if a[1].op == 'const' and a[1].v > 0:
            return a[0].z / a[1].z
        # python floor division for any sign of a non-zero divisor
        q = a[0].z / a[1].z
        r = a[0].z % a[1].z
        return z3.If(z3.And(a[1].z < 0, r != 0), q - 1, q)
    if op == 'imod':
        if a[1].op == 'const' and a[1].v > 0:
            return a[0].z % a[1].z
        r = a[0].z % a[1].z
        return z3.If(z3.And(a[1].z < 0, r != 0), r + a[1].z, r)
    if op == 'floor':
        return z3.ToInt(_real(a[0]))
    if op == 'toreal':
        return _real(a[0])
    if op == 'wrap':
        bits, signed = x.v
        lo = -(1 << (bits - 1)) if signed else 0
        m = 1 << bits
        return (a[0].z - lo) % m + lo
    if op == 'le0':
        return a[0].z <= 0
    if op == 'lt0':
        return a[0].z < 0
    if op == 'eq0':
        return a[0].z == 0
    if op == 'uf':
        return _fn(x.v)(_real(a[0]))
    raise AssertionError(op)


_BASE = {'exp': math.exp, 'log': math.log}


def axioms(roots):
    """bounds of variables and facts about transcendental applications below roots"""
    out = []
    apps = {}
    for x in tm.subterms(roots):
        if x.op == 'var' and x.sort != 'B':
            to_z3(x)
            if x.lo is not None:
                out.append(x.z > _num(x.lo, x.sort) if x.ls else x.z >= _num(x.lo, x.sort))
            if x.hi is not None:
                out.append(x.z < _num(x.hi, x.sort) if x.hs else x.z <= _num(x.hi, x.sort))
        elif x.op == 'var':
            ex = tm._exclusive.get(x.id)
            if ex:
                for e in ex:
                    y = tm._byid(e)
                    if y is not None and y.id > x.id:
                        out.append(z3.Not(z3.And(to_z3(x), to_z3(y))))
        elif x.op == 'uf':
            to_z3(x)
            apps.setdefault(x.v, []).append(x)
    for name, xs in apps.items():
        for x in xs:
            a, z = x.args[0], x.z
            ar = _real(a)
            if x.lo is not None:
                out.append(z > _num(x.lo, 'R') if x.ls else z >= _num(x.lo, 'R'))
            if x.hi is not None:
                out.append(z < _num(x.hi, 'R') if x.hs else z <= _num(x.hi, 'R'))
            if name == 'exp':
                out.append(z > 0)
                out.append((ar < 0) == (z < 1))
                out.append((ar > 0) == (z > 1))
                out.append(z >= 1 + ar)
            elif name == 'expit':
                out.append(z > 0)
                out.append(z < 1)
                out.append((ar < 0) == (z < z3.RealVal('1/2')))
                out.append((ar > 0) == (z > z3.RealVal('1/2')))
            elif name == 'log':
                if a.op == 'div':
                    n, d = _real(a.args[0]), _real(a.args[1])
                    out.append(z3.Implies(z3.And(n > 0, d > 0), z == _fn('log')(n) - _fn('log')(d)))
                if a.op != 'const':
                    out.append(z3.Implies(ar > 0, z3.And((ar < 1) == (z < 0), (ar > 1) == (z > 0), z <= ar - 1)))
            elif name == 'sqrt':
                out.append(z >= 0)
                out.append(z3.Implies(ar >= 0, z * z == ar))
        if name in ('exp', 'expit', 'log') and len(xs) <= 24:
            for i, x in enumerate(xs):
                for y in xs[:i]:
                    xa, ya = _real(x.args[0]), _real(y.args[0])
                    c = (xa < ya) == (x.z < y.z)
                    c2 = (xa > ya) == (x.z > y.z)
                    if name == 'log':
                        g = z3.And(xa > 0, ya > 0)
                        out.append(z3.Implies(g, z3.And(c, c2)))
                    else:
                        out.append(c)
                        out.append(c2)
    return out


def _run(zs, timeout, want_model, som=False):
    t0 = time.time()
    stats['queries'] += 1
    s = z3.Solver()
    s.set('timeout', int(timeout))
    for z in zs:
        s.add(z3.simplify(z, som=True) if som else z)
    r = s.check()
    stats['time'] += time.time() - t0
    if r == z3.sat:
        stats['sat'] += 1
        return 'sat', (s.model() if want_model else None)
    if r == z3.unsat:
        stats['unsat'] += 1
        return 'unsat', None
    stats['unknown'] += 1
    return 'unknown', None


_cache = {}


def reset():
    _cache.clear()


def _solve(ts, timeout, want_model, extra=()):
    zs = [to_z3(t) for t in ts] + axioms(ts) + list(extra)
    nl = any(x.op in ('mul', 'div') for x in tm.subterms(ts))
    if nl:
        r, m = _run(zs, min(timeout, 20000), want_model, som=True)
        if r == 'unknown':
            r, m = _run(zs, timeout, want_model)
    else:
        r, m = _run(zs, timeout, want_model)
    return r, m


def _cubes(ts, end):
    """case split on the most frequent Boolean variable, simplifying each half: unsat when every half is"""
    todo = [(ts, {})]
    while todo:
        ts, vals = todo.pop()
        ts = [t for t in ts if t is not tm.TRUE]
        if any(t is tm.FALSE for t in ts):
            continue
        if not ts:
            return 'sat', vals
        if time.time() > end:
            return 'unknown', None
        count, bs = {}, []
        for x in tm.subterms(ts):
            for a in x.args:
                if a.op == 'var' and a.sort == 'B':
                    count[a.id] = count.get(a.id, 0) + 1
                    bs.append(a)
        if vals:
            r, _ = _solve(ts, 1000 if bs else 4 * CUBE_MS, False)
            if r == 'sat':
                return 'sat', vals
            if r == 'unsat':
                continue
        if not bs:
            return 'unknown', None
        v = max(bs, key=lambda b: (count[b.id], -b.id))
        for b in (False, True):
            new = {v: b}
            if b:
                for e in tm._exclusive.get(v.id, ()):
                    w = tm._byid(e)
                    if w is not None:
                        new[w] = False
            n = dict(vals)
            n.update(new)
            todo.append((tm.assign(ts, new), n))
    return 'unsat', None


def check(ts, timeout=None, want_model=False, extra=()):
    """satisfiability of the conjunction of Boolean terms ts"""
    ts = [t for t in ts if t is not tm.TRUE]
    if any(t is tm.FALSE for t in ts):
        return ('unsat', None)
    key = frozenset(t.id for t in ts)
    if not extra and not want_model and key in _cache:
        return _cache[key], None
    if not ts and not want_model and not extra:
        return 'sat', None
    timeout = timeout or TIMEOUT_MS
    hard = CUBES and not extra and timeout > 3 * CUBE_MS and any(t.uf for t in ts)
    r, m = _solve(ts, CUBE_MS if hard else timeout, want_model, extra)
    if hard and r == 'unknown':
        r, vals = _cubes(ts, time.time() + timeout / 1000.0)
        if r == 'sat' and want_model:
            lits = [v if b else tm.not_(v) for v, b in vals.items()]
            r, m = _solve(ts + lits, timeout, True, extra)
        elif r == 'unknown':
            r, m = _solve(ts, timeout, want_model, extra)
    if not extra and r != 'unknown':
        _cache[key] = r
    return r, m


def feasible(ts):
    r, _ = check(ts, 10000)
    return r != 'unsat'


def is_unsat(ts, timeout=None):
    r, _ = check(ts, timeout)
    if r == 'unknown':
        raise Inconclusive('solver returned unknown')
    return r == 'unsat'


def _val(m, z, sort):
    v = m.eval(z, model_completion=True)
    if sort == 'B':
        return z3.is_true(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return tm.norm_num(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return tm.norm_num(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    raise Inconclusive('model value %s' % v)


def env_of(m, roots):
    env = {}
    for x in tm.subterms(roots):
        if x.op == 'var':
            env[x.v] = _val(m, to_z3(x), x.sort)
    return env


def holds(ts, env, margin=0.0):
    """evaluate all terms with real transcendental functions; order atoms must hold by `margin` when they
    involve floating point"""
    e = dict(env)
    cache = {}
    try:
        return all(tm.evaluate(t, e, cache) for t in ts)
    except tm.EvalError:
        return False


NICE = [Fraction(1, 2), Fraction(1, 4), Fraction(3, 4), Fraction(1), Fraction(2), Fraction(3, 2), Fraction(1, 8),
        Fraction(7, 8), Fraction(3), Fraction(1, 16), Fraction(0), Fraction(-1, 2), Fraction(-1), Fraction(4)]


def find_model(ts, prefer=(), timeout=None, rounds=60):
    """environment satisfying ts with the real transcendental functions, or None when unsatisfiable.
    `prefer`: Boolean terms that should hold too when possible (e.g. reals at simple values)."""
    extra_t = []
    for p in prefer:
        r, _ = check(list(ts) + extra_t + [p], 5000)
        if r == 'sat':
            extra_t.append(p)
    base = list(ts) + extra_t
    hasuf = any(x.op == 'uf' for x in tm.subterms(base))
    lemmas = []
    last = None
    for _ in range(rounds):
        r, m = check(base, timeout or 60000, True, lemmas)
        if r == 'unsat':
            if extra_t:
                base = list(ts)
                extra_t = []
                continue
            return None, last
        if r == 'unknown':
            if extra_t:
                base = list(ts)
                extra_t = []
                continue
            return 'unknown', last
        env = env_of(m, base)
        last = env
        if not hasuf:
            return 'sat', env
        if holds(base, env):
            return 'sat', env
        # refine: the real functions at the arguments of this model
        e = dict(env)
        cache = {}
        added = False
        for x in tm.subterms(base):
            if x.op != 'uf':
                continue
            try:
                a = tm.evaluate(x.args[0], e, cache)
                v = tm.evaluate(x, e, cache)
            except tm.EvalError:
                continue
            av = Fraction(a)
            vv = Fraction(v)
            eps = abs(vv) / 10**11 + Fraction(1, 10**14)
            za = _num(av, 'R')
            ar = _real(x.args[0])
            lemmas.append(z3.Implies(ar >= za, x.z >= _num(vv - eps, 'R')))
            lemmas.append(z3.Implies(ar <= za, x.z <= _num(vv + eps, 'R')))
            added = True
        if not added:
            return 'unknown', last
    return 'unknown', last
