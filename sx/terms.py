"""Hash-consed symbolic terms with light canonicalisation.

Sorts: 'B' (Bool), 'I' (mathematical integer), 'R' (real).  Fixed-width integer semantics are made
explicit by `wrap`.  Integers and reals are kept as linear combinations over atoms; Booleans are
n-ary conjunctions with negation.  z3 decides everything; the canonical forms only keep the
formulas small.
"""
from fractions import Fraction
import math

_table = {}
_count = [0]


class T(object):
    __slots__ = ('op', 'args', 'v', 'sort', 'lo', 'hi', 'ls', 'hs', 'id', 'z', '_neg', 'uf', '__weakref__')

    def __repr__(self):
        return show(self)


def _mk(op, args, v, sort, lo=None, hi=None, ls=False, hs=False):
    key = (op, v, sort) + tuple(a.id for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.v = v
        t.sort = sort
        t.lo = lo
        t.hi = hi
        t.ls = ls
        t.hs = hs
        _count[0] += 1
        t.id = _count[0]
        t.z = None
        t._neg = None
        t.uf = op == 'uf' or any(a.uf for a in args)
        _table[key] = t
    else:
        if lo is not None and (t.lo is None or lo > t.lo or (lo == t.lo and ls)):
            t.lo, t.ls = lo, ls
        if hi is not None and (t.hi is None or hi < t.hi or (hi == t.hi and hs)):
            t.hi, t.hs = hi, hs
    return t


TRUE = _mk('true', (), None, 'B')
FALSE = _mk('false', (), None, 'B')
_exclusive = {}
_ids = {}


def reset():
    """drop all terms (between harnesses)"""
    _table.clear()
    _exclusive.clear()
    _ids.clear()
    for t in (TRUE, FALSE):
        t.z = None
    _table[('true', None, 'B')] = TRUE
    _table[('false', None, 'B')] = FALSE


def boolc(b):
    return TRUE if b else FALSE


def norm_num(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def intc(k):
    k = int(k)
    return _mk('const', (), k, 'I', k, k)


def realc(k):
    k = norm_num(Fraction(k))
    return _mk('const', (), k, 'R', k, k)


def var(name, sort, lo=None, hi=None, ls=False, hs=False):
    return _mk('var', (), name, sort, lo, hi, ls, hs)


def declare_exclusive(a, b):
    _ids[a.id], _ids[b.id] = a, b
    _exclusive.setdefault(a.id, set()).add(b.id)
    _exclusive.setdefault(b.id, set()).add(a.id)


def _byid(i):
    return _ids.get(i)


def is_const(t):
    return t.op == 'const' or t is TRUE or t is FALSE


# ---------------------------------------------------------------- booleans
def not_(t):
    if t._neg is not None:
        return t._neg
    if t is TRUE:
        r = FALSE
    elif t is FALSE:
        r = TRUE
    elif t.op == 'not':
        r = t.args[0]
    elif t.op == 'le0':          # not (d<=0)  <=>  -d < 0
        r = lt0(neg(t.args[0]))
    elif t.op == 'lt0':
        r = le0(neg(t.args[0]))
    else:
        r = _mk('not', (t,), None, 'B')
    t._neg = r
    if r._neg is None:
        r._neg = t
    return r


def and_(*ts):
    seen = {}
    todo = list(ts)
    i = 0
    while i < len(todo):
        t = todo[i]
        i += 1
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == 'and':
            for a in t.args:
                seen[a.id] = a
        else:
            seen[t.id] = t
    if not seen:
        return TRUE
    if len(seen) == 1:
        return next(iter(seen.values()))
    # complements
    for t in seen.values():
        n = t._neg
        if n is not None and n.id in seen:
            return FALSE
        ex = _exclusive.get(t.id)
        if ex:
            for e in ex:
                if e in seen:
                    return FALSE
    # unit propagation into negated conjunctions, one level; drop literals implied by exclusivity
    if len(seen) <= 80:
        changed = True
        rounds = 0
        while changed and rounds < 4:
            changed = False
            rounds += 1
            for t in list(seen.values()):
                if t.op != 'not':
                    continue
                inner = t.args[0]
                ex = _exclusive.get(inner.id)
                if ex and any(e in seen for e in ex):
                    del seen[t.id]
                    changed = True
                    continue
                if inner.op != 'and':
                    continue
                keep = []
                dead = False
                for a in inner.args:
                    if a.id in seen:
                        continue
                    n = a._neg
                    if n is not None and n.id in seen:
                        dead = True
                        break
                    ex = _exclusive.get(a.id)
                    if ex and any(e in seen for e in ex):
                        dead = True
                        break
                    keep.append(a)
                if dead:
                    del seen[t.id]
                    changed = True
                elif len(keep) != len(inner.args):
                    del seen[t.id]
                    if not keep:
                        return FALSE
                    nt = not_(and_(*keep)) if len(keep) > 1 else not_(keep[0])
                    if nt is FALSE:
                        return FALSE
                    if nt is not TRUE:
                        if nt.op == 'and':
                            for a in nt.args:
                                seen[a.id] = a
                        else:
                            seen[nt.id] = nt
                    changed = True
            if changed:
                for t in seen.values():
                    n = t._neg
                    if n is not None and n.id in seen:
                        return FALSE
    if not seen:
        return TRUE
    if len(seen) == 1:
        return next(iter(seen.values()))
    args = tuple(sorted(seen.values(), key=lambda x: x.id))
    return _mk('and', args, None, 'B')


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def implies(a, b):
    return not_(and_(a, not_(b)))


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    flip = False
    if a.op == 'not':
        a, flip = a.args[0], not flip
    if b.op == 'not':
        b, flip = b.args[0], not flip
    if a is b:
        return boolc(not flip)
    if a.id > b.id:
        a, b = b, a
    r = _mk('iff', (a, b), None, 'B')
    return not_(r) if flip else r


# ---------------------------------------------------------------- linear forms
def parts(t):
    if t.op == 'const':
        return t.v, {}
    if t.op == 'lin':
        return t.v[0], dict(zip(t.args, t.v[1]))
    return 0, {t: 1}


def _interval(const, d):
    lo = hi = const
    ls = hs = False
    for a, c in d.items():
        al, ah, als, ahs = a.lo, a.hi, a.ls, a.hs
        if c < 0:
            al, ah, als, ahs = ah, al, ahs, als
        if lo is not None:
            if al is None:
                lo = None
            else:
                lo = lo + c * al
                ls = ls or als
        if hi is not None:
            if ah is None:
                hi = None
            else:
                hi = hi + c * ah
                hs = hs or ahs
    return lo, hi, ls, hs


def mk_lin(const, d, sort, bounds=None):
    d = {a: c for a, c in d.items() if c != 0}
    if not d:
        return intc(const) if sort == 'I' else realc(const)
    if const == 0 and len(d) == 1:
        (a, c), = d.items()
        if c == 1 and a.sort == sort:
            return a
    items = sorted(d.items(), key=lambda x: x[0].id)
    args = tuple(a for a, _ in items)
    coefs = tuple(norm_num(c) for _, c in items)
    const = norm_num(const)
    lo, hi, ls, hs = _interval(const, d)
    if bounds is not None:
        bl, bh = bounds
        if bl is not None and (lo is None or bl > lo):
            lo, ls = bl, False
        if bh is not None and (hi is None or bh < hi):
            hi, hs = bh, False
    return _mk('lin', args, (const, coefs), sort, lo, hi, ls, hs)


def to_real(t):
    if t.sort == 'R':
        return t
    if t.sort == 'B':
        t = b2i(t)
    c, d = parts(t)
    return mk_lin(c, d, 'R', (t.lo, t.hi))


def to_int(t):
    """Bool -> Int"""
    if t.sort == 'B':
        return b2i(t)
    return t


def b2i(b):
    if b is TRUE:
        return intc(1)
    if b is FALSE:
        return intc(0)
    if b.op == 'not':
        return mk_lin(1, {_mk('b2i', (b.args[0],), None, 'I', 0, 1): -1}, 'I')
    return _mk('b2i', (b,), None, 'I', 0, 1)


def _coerce(a, b):
    if a.sort == 'B':
        a = b2i(a)
    if b.sort == 'B':
        b = b2i(b)
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
    return a, b


def add(a, b):
    a, b = _coerce(a, b)
    ca, da = parts(a)
    cb, db = parts(b)
    if len(da) < len(db):
        da, db = db, da
    d = dict(da)
    for t, c in db.items():
        d[t] = d.get(t, 0) + c
    lo = None if a.lo is None or b.lo is None else a.lo + b.lo
    hi = None if a.hi is None or b.hi is None else a.hi + b.hi
    return mk_lin(ca + cb, d, a.sort, (lo, hi))


def scale(t, k):
    if k == 1:
        return t
    c, d = parts(t)
    sort = t.sort
    lo, hi = t.lo, t.hi
    if k < 0:
        lo, hi = hi, lo
    return mk_lin(c * k, {a: x * k for a, x in d.items()}, sort,
                  (None if lo is None else lo * k, None if hi is None else hi * k))


def neg(t):
    if t.sort == 'B':
        t = b2i(t)
    return scale(t, -1)


def sub(a, b):
    a, b = _coerce(a, b)
    return add(a, neg(b))


def gate(c, t):
    """ite(c, t, 0) for numeric t"""
    if c is TRUE:
        return t
    if c is FALSE:
        return intc(0) if t.sort == 'I' else realc(0)
    k, d = parts(t)
    out = {}
    if k != 0:
        bc, bd = parts(b2i(c))
        k2 = k * bc
        for a, x in bd.items():
            out[a] = out.get(a, 0) + x * k
    else:
        k2 = 0
    for a, x in d.items():
        if a.op == 'b2i':
            g = b2i(and_(c, a.args[0]))
        elif a.op == 'gate':
            cc = and_(c, a.args[0])
            g = _gate_atom(cc, a.args[1])
        else:
            g = _gate_atom(c, a)
        gc, gd = parts(g)
        k2 += gc * x
        for ga, gx in gd.items():
            out[ga] = out.get(ga, 0) + gx * x
    lo = None if t.lo is None else min(0, t.lo)
    hi = None if t.hi is None else max(0, t.hi)
    return mk_lin(k2, out, t.sort, (lo, hi))


def _gate_atom(c, a):
    if c is TRUE:
        return a
    if c is FALSE:
        return intc(0) if a.sort == 'I' else realc(0)
    lo = None if a.lo is None else min(0, a.lo)
    hi = None if a.hi is None else max(0, a.hi)
    return _mk('gate', (c, a), None, a.sort, lo, hi)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        return or_(and_(c, a), and_(not_(c), b))
    a, b = _coerce(a, b)
    if a is b:
        return a
    if a.op == 'wrap' or b.op == 'wrap':
        bits, signed = w = a.v if a.op == 'wrap' else b.v
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        if all(x.v == w if x.op == 'wrap' else x.lo is not None and x.hi is not None and lo <= x.lo and x.hi <= hi for x in (a, b)):
            return wrap(ite(c, *[x.args[0] if x.op == 'wrap' else x for x in (a, b)]), bits, signed)
    diff = sub(a, b)
    k, d = parts(diff)
    if len(d) <= 40:
        r = add(b, gate(c, diff))
    else:
        r = _mk('ite', (c, a, b), None, a.sort)
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    if r.op != 'const':
        if lo is not None and (r.lo is None or lo > r.lo):
            r.lo, r.ls = lo, (a.ls if a.lo == lo else True) and (b.ls if b.lo == lo else True)
        if hi is not None and (r.hi is None or hi < r.hi):
            r.hi, r.hs = hi, (a.hs if a.hi == hi else True) and (b.hs if b.hi == hi else True)
    return r


def is_pb(t):
    if t.op == 'b2i':
        return True
    return t.op == 'lin' and all(a.op == 'b2i' for a in t.args)


def _mulb(a, b):
    """interval of product"""
    if None in (a.lo, a.hi, b.lo, b.hi):
        if a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0:
            hi = None
            return a.lo * b.lo, hi
        return None, None
    xs = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
    return min(xs), max(xs)


def mul(a, b):
    a, b = _coerce(a, b)
    if a.op == 'const':
        return scale(b, a.v) if a.v != 0 else a
    if b.op == 'const':
        return scale(a, b.v) if b.v != 0 else b
    pa, pb = is_pb(a), is_pb(b)
    na, nb = len(parts(a)[1]), len(parts(b)[1])
    if (pa or pb) and na * nb <= 3000:
        if not pa or (pb and nb < na):
            a, b = b, a
        k, d = parts(a)
        r = scale(b, k) if k != 0 else (intc(0) if b.sort == 'I' else realc(0))
        for t, x in d.items():
            r = add(r, scale(gate(t.args[0], b), x))
        lo, hi = _mulb(a, b)
        if r.op != 'const':
            if lo is not None and (r.lo is None or lo > r.lo):
                r.lo, r.ls = lo, False
            if hi is not None and (r.hi is None or hi < r.hi):
                r.hi, r.hs = hi, False
        return r
    # single gated atoms: ite(c,x,0)*y = ite(c,x*y,0)
    if a.op == 'gate':
        return gate(a.args[0], mul(a.args[1], b))
    if b.op == 'gate':
        return gate(b.args[0], mul(a, b.args[1]))
    # pull out scalar factors
    coef = 1
    fs = []
    for t in (a, b):
        if t.op == 'lin' and t.v[0] == 0 and len(t.args) == 1:
            coef *= t.v[1][0]
            t2 = t.args[0]
            if t2.sort != t.sort:
                t2 = mk_lin(0, {t2: 1}, t.sort) if t2.sort == t.sort else _mk('toreal', (t2,), None, 'R', t2.lo, t2.hi)
            t = t2
            if t.op == 'mul':
                fs.extend(t.args)
            else:
                fs.append(t)
        elif t.op == 'mul':
            fs.extend(t.args)
        else:
            fs.append(t)
    # x * (1/x)
    sort = 'R' if any(f.sort == 'R' for f in fs) else 'I'
    fs = tuple(sorted(fs, key=lambda x: x.id))
    lo, hi = _mulb(a, b)
    ls = hs = False
    if all(is_pos(f) for f in fs):
        ls = (lo == 0 or lo is None)
        lo = 0 if lo is None or lo < 0 else lo
        ls = lo == 0
    if coef != 1:
        # bounds of the unscaled product
        if lo is not None:
            lo = Fraction(lo) / coef if coef != 0 else lo
        if hi is not None:
            hi = Fraction(hi) / coef
        if coef < 0:
            lo, hi = hi, lo
        ls = hs = False
        if all(is_pos(f) for f in fs) and (lo is None or lo <= 0):
            lo, ls = 0, True
    m = _mk('mul', fs, None, sort, lo, hi, ls, hs)
    return scale(m, coef) if coef != 1 else m


def is_pos(t):
    return t.lo is not None and (t.lo > 0 or (t.lo == 0 and t.ls))


def is_neg(t):
    return t.hi is not None and (t.hi < 0 or (t.hi == 0 and t.hs))


def div(a, b):
    """real division, b known non-zero by the caller"""
    a, b = to_real(a), to_real(b)
    if b.op == 'const':
        return scale(a, Fraction(1) / Fraction(b.v))
    if a is b:
        return realc(1)
    if a.op == 'const' and a.v == 0:
        return a
    if a.op == 'gate':
        return gate(a.args[0], div(a.args[1], b))
    if b.op == 'lin' and len(b.args) == 1 and b.args[0].op == 'uf' and b.args[0].v == 'exp' and b.v[0] == b.v[1][0]:
        # c / (k + k exp(x)),  c exp(x) / (k + k exp(x))
        x, k = b.args[0], Fraction(b.v[0])
        ca, da = parts(a)
        if not da:
            return scale(expit(neg(x.args[0])), Fraction(ca) / k)
        if ca == 0 and list(da) == [x]:
            return scale(expit(x.args[0]), Fraction(da[x]) / k)
    lo = hi = None
    ls = False
    if is_pos(a) and is_pos(b):
        lo, ls = 0, True
    elif a.lo is not None and a.lo >= 0 and is_pos(b):
        lo = 0
    # a <= b with both positive  -> quotient <= 1
    if lo is not None and a.hi is not None and b.lo is not None and b.lo > 0:
        hi = Fraction(a.hi) / Fraction(b.lo)
    return _mk('div', (a, b), None, 'R', lo, hi, ls)


def idiv(a, b):
    """floor division by a positive constant"""
    if a.op == 'const' and b.op == 'const':
        return intc(a.v // b.v)
    lo = None if a.lo is None or b.op != 'const' else a.lo // b.v
    hi = None if a.hi is None or b.op != 'const' else a.hi // b.v
    if lo is not None and lo == hi:
        return intc(lo)
    return _mk('idiv', (a, b), None, 'I', lo, hi)


def imod(a, b):
    if a.op == 'const' and b.op == 'const':
        return intc(a.v % b.v)
    if b.op == 'const' and a.lo is not None and a.hi is not None and 0 <= a.lo and a.hi < b.v:
        return a
    return _mk('imod', (a, b), None, 'I', 0 if b.op == 'const' else None, b.v - 1 if b.op == 'const' else None)


def floor_(t):
    """largest integer <= t (real)"""
    if t.sort == 'I':
        return t
    if t.op == 'const':
        return intc(math.floor(t.v))
    c, d = parts(t)
    if Fraction(c).denominator == 1 and all(Fraction(x).denominator == 1 and a.sort == 'I' for a, x in d.items()):
        return mk_lin(int(c), {a: int(x) for a, x in d.items()}, 'I', (t.lo, t.hi))
    lo = None if t.lo is None else math.floor(t.lo)
    hi = None if t.hi is None else math.floor(t.hi)
    if lo is not None and lo == hi:
        return intc(lo)
    return _mk('floor', (t,), None, 'I', lo, hi)


def wrap(t, bits, signed=True):
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    if t.op == 'const':
        return intc((t.v - lo) % (1 << bits) + lo)
    if t.lo is not None and t.hi is not None and lo <= t.lo and t.hi <= hi:
        return t
    c, d = parts(t)
    if any(a.op == 'wrap' and a.v[0] >= bits for a in d) or (t.op == 'lin' and not lo <= c <= hi):
        # congruence: an inner wrap of at least this width and multiples of 2**bits disappear
        r = intc((c - lo) % (1 << bits) + lo)
        for a, k in d.items():
            r = add(r, scale(a.args[0] if a.op == 'wrap' and a.v[0] >= bits else a, k))
        return wrap(r, bits, signed)
    return _mk('wrap', (t,), (bits, signed), 'I', lo, hi)


# ---------------------------------------------------------------- comparisons
def _content(d, const):
    den = 1
    for c in list(d.values()) + [const]:
        den = den * Fraction(c).denominator // math.gcd(den, Fraction(c).denominator)
    nums = [int(c * den) for c in d.values()]
    g = 0
    for n in nums:
        g = math.gcd(g, abs(n))
    return Fraction(den, g) if g else Fraction(1)


def _enum_bool(const, d, rel):
    atoms = list(d.items())
    terms = []
    n = len(atoms)
    bs = [a.args[0] for a, _ in atoms]
    allrows = True
    for m in range(1 << n):
        v = const
        lits = []
        for i in range(n):
            if m >> i & 1:
                v += atoms[i][1]
                lits.append(bs[i])
            else:
                lits.append(not_(bs[i]))
        ok = v <= 0 if rel == 'le' else (v < 0 if rel == 'lt' else v == 0)
        if ok:
            terms.append((m, lits))
        else:
            allrows = False
    if allrows:
        return TRUE
    if not terms:
        return FALSE
    rows = {m for m, _ in terms}
    # drop variables that do not matter
    dep = [i for i in range(n) if any(((m ^ (1 << i)) in rows) != (m in rows) for m in range(1 << n))]
    if len(dep) < n:
        d2 = {}
        rows2 = {sum(((m >> i) & 1) << j for j, i in enumerate(dep)) for m in rows}
        bs = [bs[i] for i in dep]
        n = len(dep)
        rows = rows2
    if 2 * len(rows) > (1 << n):
        # negate
        outs = []
        for m in range(1 << n):
            if m not in rows:
                outs.append(and_(*[bs[i] if m >> i & 1 else not_(bs[i]) for i in range(n)]))
        return not_(or_(*outs))
    return or_(*[and_(*[bs[i] if m >> i & 1 else not_(bs[i]) for i in range(n)]) for m in sorted(rows)])


def _rel0(t, rel):
    if t.op == 'const':
        v = t.v
        return boolc(v <= 0 if rel == 'le' else (v < 0 if rel == 'lt' else v == 0))
    lo, hi = t.lo, t.hi
    if rel == 'le':
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and (lo > 0 or (lo == 0 and t.ls)):
            return FALSE
    elif rel == 'lt':
        if hi is not None and (hi < 0 or (hi == 0 and t.hs)):
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
    else:
        if (lo is not None and (lo > 0 or (lo == 0 and t.ls))) or (hi is not None and (hi < 0 or (hi == 0 and t.hs))):
            return FALSE
    const, d = parts(t)
    n = len(d)
    if n == 1:
        (a, c), = d.items()
        if a.op == 'gate':
            g, x = a.args
            inside = _rel0(mk_lin(const, {x: c}, t.sort), rel)
            outside = _rel0(realc(const), rel)
            return ite(g, inside, outside)
        if a.op == 'b2i':
            return _enum_bool(const, d, rel)
    elif n <= 3 and all(a.op == 'b2i' for a in d):
        return _enum_bool(const, d, rel)
    k = _content(d, const)
    first = min(d, key=lambda a: a.id)
    if rel == 'eq':
        if d[first] * k < 0:
            k = -k
    if k != 1:
        nd = {a: norm_num(c * k) for a, c in d.items()}
        nc = norm_num(const * k)
    else:
        nd, nc = d, const
    if t.sort == 'I' or all(a.sort == 'I' for a in nd):
        # coefficients are integers now
        if all(isinstance(c, int) for c in nd.values()):
            if not isinstance(nc, int):
                if rel == 'eq':
                    return FALSE
                nc = math.ceil(nc)  # s + nc <= 0  <=> s + ceil(nc) <= 0 ; strict with fractional same
                rel = 'le'
            elif rel == 'lt':
                nc, rel = nc + 1, 'le'
            u = mk_lin(nc, nd, 'I')
            if u.hi is not None and rel == 'le' and u.hi <= 0:
                return TRUE
            if u.lo is not None and u.lo > 0:
                return FALSE
            if rel == 'eq':
                if u.hi is not None and u.hi < 0:
                    return FALSE
                if u.hi == 0 and u.lo is not None:   # every atom at its maximising bound
                    pass
            return _mk({'le': 'le0', 'eq': 'eq0'}[rel], (u,), None, 'B')
    u = mk_lin(nc, nd, t.sort)
    return _mk({'le': 'le0', 'lt': 'lt0', 'eq': 'eq0'}[rel], (u,), None, 'B')


def le0(t):
    return _rel0(t, 'le')


def lt0(t):
    return _rel0(t, 'lt')


def eq0(t):
    return _rel0(t, 'eq')


def eq(a, b):
    if a.sort == 'B' and b.sort == 'B':
        return iff(a, b)
    return eq0(sub(a, b))


def le(a, b):
    a, b = _coerce(a, b)
    return le0(sub(a, b))


def lt(a, b):
    a, b = _coerce(a, b)
    return lt0(sub(a, b))


# ---------------------------------------------------------------- transcendental functions
def _factor(n):
    out = {}
    p = 2
    while n > 1 and p < 2000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
        if p * p > n and n > 1:
            out[n] = out.get(n, 0) + 1
            n = 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _uf(name, t, lo=None, hi=None, ls=False, hs=False):
    return _mk('uf', (t,), name, 'R', lo, hi, ls, hs)


def log(t):
    t = to_real(t)
    if t.op == 'const':
        q = Fraction(t.v)
        if q <= 0:
            raise ValueError('log of a non-positive constant')
        d = {}
        for n, s in ((q.numerator, 1), (q.denominator, -1)):
            for p, e in _factor(n).items():
                c = realc(p)
                v = math.log(p)
                d[_uf('log', c, Fraction(v) - Fraction(1, 10**12), Fraction(v) + Fraction(1, 10**12))] = s * e
        return mk_lin(0, d, 'R')
    if t.op == 'mul' and all(is_pos(f) for f in t.args):
        r = realc(0)
        for f in t.args:
            r = add(r, log(f))
        return r
    if t.op == 'div' and is_pos(t.args[0]) and is_pos(t.args[1]):
        return sub(log(t.args[0]), log(t.args[1]))
    if t.op == 'lin' and t.v[0] == 0 and len(t.args) == 1 and t.v[1][0] > 0 and t.v[1][0] != 1 and is_pos(t.args[0]):
        return add(log(realc(t.v[1][0])), log(to_real(t.args[0])))
    if t.op == 'lin' and len(t.args) == 1 and t.args[0].op == 'div' and is_pos(t.args[0].args[1]):
        # const + c * x / y
        x, y = t.args[0].args
        n = add(scale(y, t.v[0]), scale(x, t.v[1][0]))
        if is_pos(n):
            return sub(log(n), log(y))
    if t.op == 'uf' and t.v == 'exp':
        return t.args[0]
    hi = lo = None
    hs = False
    if t.hi is not None and t.hi <= 1:
        hi, hs = 0, (t.hs or t.hi < 1)
    if t.lo is not None and t.lo >= 1:
        lo = 0
    return _uf('log', t, lo, hi, False, hs)


def _log_product(t):
    """t = sum of integer multiples of logs -> exp(t) as (numerator, denominator) terms, else None"""
    const, d = parts(t)
    if const != 0 or not d:
        return None
    num = den = realc(1)
    for a, c in d.items():
        if not (a.op == 'uf' and a.v == 'log') or Fraction(c).denominator != 1 or abs(c) > (64 if a.args[0].op == 'const' else 12):
            return None
        for _ in range(abs(int(c))):
            if c > 0:
                num = mul(num, a.args[0])
            else:
                den = mul(den, a.args[0])
    return num, den


def exp(t):
    t = to_real(t)
    if t.op == 'const' and t.v == 0:
        return realc(1)
    lp = _log_product(t)
    if lp is not None:
        return div(*lp)
    if t.op == 'const':
        v = math.exp(float(t.v))
        return _uf('exp', t, Fraction(v) * (1 - Fraction(1, 10**12)), Fraction(v) * (1 + Fraction(1, 10**12)))
    lo, ls, hi = 0, True, None
    if t.hi is not None and t.hi <= 0:
        hi = 1
    if t.lo is not None and t.lo >= 0:
        lo, ls = 1, False
    return _uf('exp', t, lo, hi, ls)


def expit(t):
    t = to_real(t)
    if t.op == 'const' and t.v == 0:
        return realc(Fraction(1, 2))
    lp = _log_product(t)
    if lp is not None:
        return div(lp[0], add(lp[0], lp[1]))
    const, d = parts(t)
    lead = const if not d else d[min(d, key=lambda a: a.id)]
    if lead < 0:
        return sub(realc(1), expit(neg(t)))
    lo, hi = 0, 1
    if t.op == 'const':
        v = Fraction(1.0 / (1.0 + math.exp(-float(t.v))))
        return _uf('expit', t, v - Fraction(1, 10**13), v + Fraction(1, 10**13))
    return _uf('expit', t, 0, 1, True, True)


def logit(t):
    t = to_real(t)
    return sub(log(t), log(sub(realc(1), t)))


def uf(name, t, **kw):
    return _uf(name, to_real(t), **kw)


# ---------------------------------------------------------------- evaluation and printing
class EvalError(Exception):
    pass


def evaluate(t, env, cache=None, exact=False):
    """value of t under env {var name: python value}; transcendental functions in floating point"""
    if cache is None:
        cache = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        pend = [a for a in x.args if a.id not in cache]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        a = [cache[y.id] for y in x.args]
        op = x.op
        if op == 'true':
            r = True
        elif op == 'false':
            r = False
        elif op == 'const':
            r = x.v
        elif op == 'var':
            if x.v not in env:
                r = False if x.sort == 'B' else (x.lo if x.lo is not None and not x.ls else (
                    0 if (x.lo is None or x.lo <= 0) and (x.hi is None or x.hi > 0) and not (x.ls and x.lo == 0) else None))
                if r is None:
                    if x.lo is not None and x.hi is not None:
                        r = (Fraction(x.lo) + Fraction(x.hi)) / 2
                    elif x.lo is not None:
                        r = x.lo + 1
                    else:
                        r = x.hi - 1
                env[x.v] = r
            else:
                r = env[x.v]
        elif op == 'not':
            r = not a[0]
        elif op == 'and':
            r = all(a)
        elif op == 'iff':
            r = a[0] == a[1]
        elif op == 'b2i':
            r = int(a[0])
        elif op == 'lin':
            r = x.v[0]
            for c, y in zip(x.v[1], a):
                r = r + (c * y if not isinstance(y, float) else float(c) * y)
        elif op == 'gate':
            r = a[1] if a[0] else 0
        elif op == 'ite':
            r = a[1] if a[0] else a[2]
        elif op == 'mul':
            r = 1
            for y in a:
                r = r * y if not (isinstance(y, float) or isinstance(r, float)) else float(r) * float(y)
        elif op == 'div':
            if a[1] == 0:
                raise EvalError('division by zero')
            r = Fraction(a[0]) / Fraction(a[1]) if not isinstance(a[0], float) and not isinstance(a[1], float) \
                else float(a[0]) / float(a[1])
        elif op == 'idiv':
            r = a[0] // a[1]
        elif op == 'imod':
            r = a[0] % a[1]
        elif op == 'floor':
            r = math.floor(a[0])
        elif op == 'toreal':
            r = a[0]
        elif op == 'wrap':
            bits, signed = x.v
            lo = -(1 << bits - 1) if signed else 0
            r = (a[0] - lo) % (1 << bits) + lo
        elif op == 'le0':
            r = a[0] <= 0
        elif op == 'lt0':
            r = a[0] < 0
        elif op == 'eq0':
            r = a[0] == 0
        elif op == 'uf':
            v = float(a[0])
            try:
                if x.v == 'exp':
                    r = math.exp(v)
                elif x.v == 'log':
                    r = math.log(v)
                elif x.v == 'expit':
                    r = 1 / (1 + math.exp(-v)) if v > -700 else 0.0
                elif x.v == 'sqrt':
                    r = math.sqrt(v)
                elif x.v == 'lgamma':
                    r = math.lgamma(v)
                elif x.v.startswith('root'):
                    r = v ** (1.0 / int(x.v[4:]))
                else:
                    raise EvalError('uninterpreted ' + x.v)
            except (OverflowError, ValueError) as e:
                raise EvalError(str(e))
        else:
            raise EvalError(op)
        cache[x.id] = r
    return cache[t.id]


def show(t, depth=6):
    if depth == 0:
        return '..'
    if t.op in ('true', 'false'):
        return t.op
    if t.op in ('const', 'var'):
        return str(t.v)
    if t.op == 'lin':
        s = ' + '.join(['%s*%s' % (c, show(a, depth - 1)) for c, a in list(zip(t.v[1], t.args))[:8]])
        if len(t.args) > 8:
            s += ' + ...(%d)' % len(t.args)
        return '(%s + %s)' % (t.v[0], s)
    return '%s(%s)' % (t.v if t.op == 'uf' else t.op, ', '.join(show(a, depth - 1) for a in t.args[:8]))


def subterms(ts):
    seen = {}
    stack = list(ts)
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        stack.extend(x.args)
    return seen.values()


def size(ts):
    return sum(1 for _ in subterms(ts))


# ---------------------------------------------------------------- polynomials
def poly(t, limit=20000):
    """expanded polynomial {tuple of atom ids: coefficient} over non-arithmetic atoms"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'const':
            r = {(): x.v} if x.v != 0 else {}
        elif x.op == 'lin':
            r = {}
            if x.v[0] != 0:
                r[()] = x.v[0]
            for c, a in zip(x.v[1], x.args):
                for m, k in go(a).items():
                    v = r.get(m, 0) + c * k
                    if v == 0:
                        r.pop(m, None)
                    else:
                        r[m] = v
        elif x.op == 'mul':
            r = {(): 1}
            for a in x.args:
                p = go(a)
                n = {}
                for m1, k1 in r.items():
                    for m2, k2 in p.items():
                        m = tuple(sorted(m1 + m2))
                        v = n.get(m, 0) + k1 * k2
                        if v == 0:
                            n.pop(m, None)
                        else:
                            n[m] = v
                r = n
                if len(r) > limit:
                    raise OverflowError('polynomial too large')
        elif x.op == 'toreal':
            r = go(x.args[0])
        else:
            r = {(x.id,): 1}
        memo[x.id] = r
        return r
    return go(t)


def rename(ts, m):
    """the terms with variables replaced: m maps variables to variables of the same sort and range"""
    memo = {k.id: v for k, v in m.items()}
    out = []
    for t in ts:
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            pend = [a for a in x.args if a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            a = tuple(memo[y.id] for y in x.args)
            if all(p is q for p, q in zip(a, x.args)):
                r = x
            elif x.op == 'and':
                r = and_(*a)
            elif x.op == 'not':
                r = not_(a[0])
            elif x.op == 'iff':
                r = iff(*a)
            elif x.op == 'lin':
                d = {}
                for c, y in zip(x.v[1], a):
                    d[y] = d.get(y, 0) + c
                r = mk_lin(x.v[0], d, x.sort)
            elif x.op == 'mul':
                r = _mk('mul', tuple(sorted(a, key=lambda y: y.id)), x.v, x.sort, x.lo, x.hi, x.ls, x.hs)
            else:
                r = _mk(x.op, a, x.v, x.sort, x.lo, x.hi, x.ls, x.hs)
            memo[x.id] = r
        out.append(memo[t.id])
    return out


def _rebuild(x, a):
    """x with its arguments replaced by a, through the simplifying constructors"""
    op = x.op
    if op == 'and':
        return and_(*a)
    if op == 'not':
        return not_(a[0])
    if op == 'iff':
        return iff(*a)
    if op == 'b2i':
        return b2i(a[0])
    if op == 'lin':
        const, d = x.v[0], {}
        for c, y in zip(x.v[1], a):
            k, p = parts(y)
            const += c * k
            for z, w in p.items():
                d[z] = d.get(z, 0) + c * w
        return mk_lin(const, d, x.sort, (x.lo, x.hi))
    if op == 'gate':
        return gate(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'mul':
        r = a[0]
        for y in a[1:]:
            r = mul(r, y)
        return to_real(r) if x.sort == 'R' else r
    if op == 'toreal':
        return to_real(a[0])
    if op == 'floor':
        return floor_(a[0])
    if op == 'wrap':
        return wrap(a[0], *x.v)
    if op in ('le0', 'lt0', 'eq0'):
        return {'le0': le0, 'lt0': lt0, 'eq0': eq0}[op](a[0])
    if op == 'div' and not (a[1].op == 'const' and a[1].v == 0):
        return div(*a)
    if op == 'uf' and x.v in ('exp', 'expit'):
        return {'exp': exp, 'expit': expit}[x.v](a[0])
    if op == 'uf' and x.v == 'log' and is_pos(a[0]):
        return log(a[0])
    if op in ('idiv', 'imod') and a[1].op == 'const' and a[1].v > 0:
        return {'idiv': idiv, 'imod': imod}[op](*a)
    return _mk(op, tuple(a), x.v, x.sort, x.lo, x.hi, x.ls, x.hs)


def assign(ts, vals):
    """the terms with Boolean variables set ({variable: bool}) and simplified"""
    memo = {k.id: boolc(v) for k, v in vals.items()}
    for t in ts:
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            pend = [a for a in x.args if a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            a = [memo[y.id] for y in x.args]
            memo[x.id] = x if all(p is q for p, q in zip(a, x.args)) else _rebuild(x, a)
    return [memo[t.id] for t in ts]
