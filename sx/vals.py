"""Symbolic values with numpy semantics (NEP 50 promotion, fixed-width wrap-around, views, masks).

Elements of arrays are Python ints/bools, float (only inf/nan) or terms.  Floating point numbers are
treated as exact rationals (literals by their decimal notation).
"""
import math
import operator
import re
import warnings
from fractions import Fraction

import numpy as np

from . import engine as E
from . import terms as tm
from .engine import Unsupported
from .terms import T, TRUE, FALSE, and_, not_, or_

OPT = {'log_fork': False,     # fork over the values of arguments of log that take few values
       'mul_fork': False,     # fork over the values of integers that are multiplied with a symbolic real
       'draw_free': False,    # comparisons of uniform draws with symbolic values have any outcome (over-approximation)
       'max_draws': 0,        # paths that draw more uniform numbers are cut off
       'max_fork': False}     # fork over which of two reals is larger

WB, WI, WF = 'pybool', 'pyint', 'pyfloat'
BOOL = np.dtype(bool)
F64 = np.dtype(np.float64)
I64 = np.dtype(np.int64)
_REP = {WB: False, WI: 0, WF: 0.0}
_INTS = {d: (1 << (8 * d.itemsize)) for d in map(np.dtype, 'bhilqBHILQ')}


def kind(dt):
    if dt is WB:
        return 'b'
    if dt is WI:
        return 'i'
    if dt is WF:
        return 'f'
    k = dt.kind
    if k == 'u':
        return 'i'
    if k in 'bif':
        return k
    if k == 'O':
        return 'O'
    raise Unsupported('dtype %s' % dt)


def weak(dt):
    return isinstance(dt, str)


def rational(x):
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x))
    return Fraction(repr(float(x)))


class SV(object):
    """symbolic (or rational) scalar"""
    __slots__ = ('t', 'dt')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t, dt):
        self.t = t
        self.dt = dt

    def __repr__(self):
        if self.t.op == 'const':
            return repr(float(self.t.v)) if self.t.sort == 'R' else str(self.t.v)
        return '<sym>'

    def __bool__(self):
        return E.decide(truth(self), 'native bool')

    def __index__(self):
        if kind(self.dt) != 'i':
            raise TypeError('not an index')
        return int(E.concretise(self.t, 'index'))

    def __int__(self):
        r = to_pyint(self)
        return r if isinstance(r, int) else int(E.concretise(r.t, 'int'))

    def __float__(self):
        if self.t.op == 'const':
            return float(self.t.v)
        raise Unsupported('float() of a symbolic value in native code')

    def __hash__(self):
        return hash(self.t.id) if self.t.op != 'const' else hash(self.t.v)

    def __round__(self, n=None):
        raise Unsupported('round')

    # numpy scalar interface
    @property
    def dtype(self):
        return np.dtype(type(_REP[self.dt])) if weak(self.dt) else self.dt

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self


def py_float_const(fr, dt=WF):
    return SV(tm.realc(fr), dt)


def elem(x):
    """(element, dtype) of a scalar"""
    if type(x) is SV:
        return x.t if x.t.op not in ('const', 'true', 'false') or x.t.sort == 'R' else _pyc(x.t), x.dt
    tx = type(x)
    if tx is bool:
        return x, WB
    if tx is int:
        return x, WI
    if tx is float:
        if math.isfinite(x):
            return tm.realc(rational(x)), WF
        return x, WF
    if isinstance(x, np.bool_):
        return bool(x), BOOL
    if isinstance(x, np.integer):
        return int(x), x.dtype
    if isinstance(x, np.floating):
        v = float(x)
        if math.isfinite(v):
            if x.dtype == np.float32:
                return tm.realc(Fraction(str(x))), x.dtype
            return tm.realc(rational(v)), x.dtype
        return v, x.dtype
    if isinstance(x, Fraction):
        return tm.realc(x), WF
    if isinstance(x, int):        # IntEnum, numba types
        return int(x), WI
    if isinstance(x, SA) and x.data.ndim == 0:
        return x.data[()], x.dtype
    if isinstance(x, T):
        return x, {'B': BOOL, 'I': I64, 'R': F64}[x.sort]
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return elem(x[()])
    return None


def _pyc(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return t.v


def box(e, dt):
    """scalar value from element and dtype"""
    if type(e) is T:
        if e.sort != 'R':
            if e is TRUE or e is FALSE or e.op == 'const':
                return box(_pyc(e), dt)
        if dt is not WF and kind(dt) != 'f' and e.sort == 'R':
            raise AssertionError('sort')
        return SV(e, dt)
    if dt is WB:
        return bool(e)
    if dt is WI:
        return int(e)
    if dt is WF:
        if isinstance(e, float):
            return e
        return SV(tm.realc(Fraction(e)), WF)
    k = dt.kind
    if k == 'b':
        return np.bool_(e)
    if k in 'iu':
        return dt.type(e)
    if k == 'f':
        if isinstance(e, float) and not math.isfinite(e):
            return dt.type(e)
        return SV(tm.realc(Fraction(e)), dt)
    if k == 'O':
        return e
    raise Unsupported('dtype %s' % dt)


def is_scalar(x):
    return type(x) is SV or isinstance(x, (bool, int, float, np.generic, Fraction)) and not isinstance(x, (np.str_, np.void))


# ------------------------------------------------------------------ element level
def tB(e):
    """Bool term: truth of element"""
    if type(e) is T:
        if e.sort == 'B':
            return e
        return not_(tm.eq0(e))
    if isinstance(e, float):
        return TRUE
    return TRUE if e else FALSE


def tI(e):
    if type(e) is T:
        return tm.b2i(e) if e.sort == 'B' else e
    return tm.intc(int(e))


def tR(e):
    if type(e) is T:
        return tm.to_real(e)
    if isinstance(e, float):
        raise Unsupported('arithmetic with %r' % e)
    return tm.realc(int(e) if isinstance(e, (bool, int)) else e)


def fit(v, dt):
    """wrap integer element to dtype"""
    if dt is WI or dt is WB:
        return v
    n = _INTS[dt]
    signed = dt.kind == 'i'
    if type(v) is T:
        if v.op == 'const':
            v = v.v
        else:
            if v.sort == 'B':
                return tm.b2i(v)
            return tm.wrap(v, 8 * dt.itemsize, signed)
    v = int(v)
    lo = -(n >> 1) if signed else 0
    if lo <= v < lo + n:
        return v
    return (v - lo) % n + lo


def _raw(a):
    return isinstance(a, float)


def _flt(a):
    """float for inf/nan arithmetic"""
    if isinstance(a, float):
        return a
    if type(a) is T:
        if a.op == 'const':
            return float(a.v)
        raise Unsupported('inf/nan with a symbolic value')
    return float(a)


def _rawres(v):
    if math.isfinite(v):
        return tm.realc(rational(v))
    return v


def e_add(a, b, dt):
    k = kind(dt)
    if k == 'i':
        if type(a) is int and type(b) is int:
            return fit(a + b, dt)
        return fit(_unc(tm.add(tI(a), tI(b))), dt)
    if k == 'f':
        if _raw(a) or _raw(b):
            return _rawres(_flt(a) + _flt(b))
        return tm.add(tR(a), tR(b))
    return _unb(or_(tB(a), tB(b)))


def e_sub(a, b, dt):
    k = kind(dt)
    if k == 'i':
        if type(a) is int and type(b) is int:
            return fit(a - b, dt)
        return fit(_unc(tm.sub(tI(a), tI(b))), dt)
    if k == 'f':
        if _raw(a) or _raw(b):
            return _rawres(_flt(a) - _flt(b))
        return tm.sub(tR(a), tR(b))
    raise TypeError('numpy boolean subtract, the `-` operator, is not supported')


def _count_fork(x):
    c, d = tm.parts(x)
    if d and all(y.sort == 'I' for y in d) and all(Fraction(q).denominator == 1 for q in list(d.values()) + [c]):
        i = tm.floor_(x)
        if i.lo is not None and i.hi is not None and i.hi - i.lo <= 12:
            return tm.realc(E.concretise(i, 'factor'))
    return x


def e_mul(a, b, dt):
    k = kind(dt)
    if k == 'i':
        if type(a) is int and type(b) is int:
            return fit(a * b, dt)
        return fit(_unc(tm.mul(tI(a), tI(b))), dt)
    if k == 'f':
        if _raw(a) or _raw(b):
            return _rawres(_flt(a) * _flt(b))
        a, b = tR(a), tR(b)
        if OPT['mul_fork'] and a.op != 'const' and b.op != 'const':
            a, b = [_count_fork(x) for x in (a, b)]
        return tm.mul(a, b)
    return _unb(and_(tB(a), tB(b)))


def e_div(a, b, dt, pyzero=False):
    if _raw(a) or _raw(b):
        x, y = _flt(a), _flt(b)
        if y == 0:
            return math.nan if (x == 0 or x != x) else math.copysign(math.inf, x)
        return _rawres(x / y)
    a, b = tR(a), tR(b)
    z = tm.eq0(b)
    if z is not FALSE and not E.valid(not_(z)):
        if pyzero:
            E.may_raise(z, ZeroDivisionError('division by zero'))
        elif E.decide(z, 'division by zero'):
            if E.decide(tm.eq0(a), 'zero by zero'):
                return math.nan
            return math.inf if E.decide(tm.lt0(tm.neg(a)), 'sign') else -math.inf
    # a symbolic divisor with few integer values: fork, keeps arithmetic linear
    if b.op != 'const':
        c, d = tm.parts(b)
        if all(x.sort == 'I' for x in d) and all(Fraction(q).denominator == 1 for q in d.values()) and a.op != 'uf':
            f = Fraction(c) - math.floor(c)
            bi = tm.floor_(tm.sub(b, tm.realc(f)))
            if bi.lo is not None and bi.hi is not None and bi.hi - bi.lo <= 12:
                v = E.concretise(bi, 'divisor') + f
                if v == 0:
                    raise Unsupported('divisor')
                return tm.scale(a, 1 / Fraction(v))
    return tm.div(a, b)


def e_floordiv(a, b, dt, pyzero=False):
    k = kind(dt)
    if k == 'f':
        q = e_div(a, b, dt, pyzero)
        return tm.to_real(tm.floor_(q)) if type(q) is T else _rawres(math.floor(q))
    if not (type(a) is T) and not (type(b) is T):
        if b == 0:
            if pyzero:
                raise ZeroDivisionError('integer division or modulo by zero')
            return 0
        return fit(int(a) // int(b), dt)
    tb = tI(b)
    if tb.op != 'const':
        b = E.concretise(tb, 'divisor')
    else:
        b = tb.v
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if b < 0:
        return fit(_unc(tm.idiv(tm.neg(tI(a)), tm.intc(-b))), dt)
    return fit(_unc(tm.idiv(tI(a), tm.intc(b))), dt)


def e_mod(a, b, dt, pyzero=False):
    k = kind(dt)
    if k == 'f':
        q = e_floordiv(a, b, dt, pyzero)
        return e_sub(a, e_mul(q, b, dt), dt)
    if not (type(a) is T) and not (type(b) is T):
        if b == 0:
            if pyzero:
                raise ZeroDivisionError('integer division or modulo by zero')
            return 0
        return fit(int(a) % int(b), dt)
    tb = tI(b)
    b = E.concretise(tb, 'divisor') if tb.op != 'const' else tb.v
    if b <= 0:
        raise Unsupported('modulus')
    return fit(_unc(tm.imod(tI(a), tm.intc(b))), dt)


def e_pow(a, b, dt):
    k = kind(dt)
    tb = tR(b)
    if tb.op != 'const':
        if b.sort in 'IB' and tI(b).lo is not None and tI(b).hi is not None:
            n = E.concretise(tI(b), 'exponent')
        else:
            ta = tR(a)
            if ta.op == 'const' and ta.v == 1:
                return ta
            # a**b = exp(b log a)
            return tm.exp(tm.mul(tb, tm.log(ta)))
    else:
        n = tb.v
    if isinstance(n, Fraction):
        if n.denominator == 2:
            r = tm.uf('sqrt', tR(a), lo=0)
            out = tm.realc(1)
            base = r if n > 0 else tm.div(tm.realc(1), r)
            for _ in range(abs(n.numerator)):
                out = tm.mul(out, base)
            return out
        return tm.exp(tm.mul(tm.realc(n), tm.log(tR(a))))
    if n < 0:
        if k == 'i':
            raise ValueError('Integers to negative integer powers are not allowed.')
        return e_div(tm.realc(1), e_pow(a, -n, F64), F64)
    if k == 'i' or k == 'b':
        r = 1
        for _ in range(n):
            r = e_mul(r, a if type(a) is T else int(a), dt if k == 'i' else WI)
        return r
    out = tm.realc(1)
    for _ in range(n):
        out = tm.mul(out, tR(a))
    return out


def _unc(t):
    return t.v if t.op == 'const' and t.sort == 'I' else t


def _unb(t):
    return True if t is TRUE else (False if t is FALSE else t)


def e_cmp(op, a, b):
    if type(a) is not T and type(b) is not T:
        return bool(op(a, b))
    if _raw(a) or _raw(b):
        # the other one is finite
        x, y = (a if _raw(a) else 0.0), (b if _raw(b) else 0.0)
        return bool(op(x, y))
    ta = a if type(a) is T else (tm.boolc(a) if isinstance(a, bool) else tm.intc(a) if isinstance(a, int) else tm.realc(a))
    tb = b if type(b) is T else (tm.boolc(b) if isinstance(b, bool) else tm.intc(b) if isinstance(b, int) else tm.realc(b))
    if OPT['draw_free'] and op not in (operator.eq, operator.ne) and tb.op != 'const' and ta.op != 'const':
        for u, o, up in ((ta, tb, op in (operator.lt, operator.le)), (tb, ta, op in (operator.gt, operator.ge))):
            if u.op == 'var' and re.match(r'u!', str(u.v)):
                # u is either 0 or close to 1
                z = tm.eq(u, tm.realc(0))
                E.cur.fact(or_(z, tm.eq(u, tm.realc(Fraction(9999999, 10000000)))))
                return _unb(z if up else not_(z))
    if op is operator.eq:
        r = tm.eq(ta, tb)
    elif op is operator.ne:
        r = not_(tm.eq(ta, tb))
    elif op is operator.lt:
        r = tm.lt(ta, tb)
    elif op is operator.le:
        r = tm.le(ta, tb)
    elif op is operator.gt:
        r = tm.lt(tb, ta)
    else:
        r = tm.le(tb, ta)
    return _unb(r)


def e_ite(c, a, b):
    """c Bool term"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or (type(a) is not T and type(b) is not T and type(a) is type(b) and a == b):
        return a
    if _raw(a) or _raw(b):
        # the condition may be the current guard itself (conditional stores): decide it for the whole path
        g, E.cur.guard = E.cur.guard, TRUE
        try:
            return a if E.decide(c, 'merge of inf/nan') else b
        finally:
            E.cur.guard = g
    ta = a if type(a) is T else (tm.boolc(a) if isinstance(a, bool) else tm.intc(a) if isinstance(a, int) else tm.realc(a))
    tb = b if type(b) is T else (tm.boolc(b) if isinstance(b, bool) else tm.intc(b) if isinstance(b, int) else tm.realc(b))
    r = tm.ite(c, ta, tb)
    if r.op == 'const' and r.sort == 'I':
        return r.v
    return _unb(r)


def cast(e, src, dt, pyoverflow=False):
    """element e of dtype src converted to dtype dt (C cast)"""
    if dt is src:
        return e
    k = kind(dt)
    if k == 'O':
        return box(e, src)
    if k == 'b':
        return _unb(tB(e))
    if k == 'f':
        if _raw(e):
            return e
        return tR(e)
    # integer
    if _raw(e):
        if pyoverflow or dt is WI:
            raise (OverflowError if math.isinf(e) else ValueError)('cannot convert float to integer')
        raise Unsupported('cast of %r to integer' % e)
    if type(e) is T:
        if e.sort == 'R':
            if e.op == 'const':
                e = int(e.v)
            elif e.lo is not None and e.lo >= 0:
                e = _unc(tm.floor_(e))
            else:
                neg = tm.neg(tm.floor_(tm.neg(e)))
                e = e_ite(tm.lt0(e), _unc(neg), _unc(tm.floor_(e)))
        elif e.sort == 'B':
            return tm.b2i(e)
    if pyoverflow and weak(src) and not weak(dt):
        n = _INTS[dt]
        lo = -(n >> 1) if dt.kind == 'i' else 0
        if type(e) is not T:
            if not lo <= int(e) < lo + n:
                raise OverflowError('Python integer %d out of bounds for %s' % (e, dt))
        else:
            E.may_raise(or_(tm.lt(e, tm.intc(lo)), tm.lt(tm.intc(lo + n - 1), e)),
                        OverflowError('Python integer out of bounds for %s' % dt))
    return fit(int(e) if type(e) is not T else e, dt)


def to_pyint(x):
    e, dt = elem(x)
    return box(cast(e, dt, WI), WI)


def to_pyfloat(x):
    e, dt = elem(x)
    return box(cast(e, dt, WF), WF)


def promote(a, b):
    if weak(a) and weak(b):
        order = (WB, WI, WF)
        return order[max(order.index(a), order.index(b))]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return np.result_type(_REP[a] if weak(a) else a, _REP[b] if weak(b) else b)


_ARITH = {'add': e_add, 'sub': e_sub, 'mul': e_mul, 'div': e_div, 'floordiv': e_floordiv, 'mod': e_mod, 'pow': e_pow}
_CMP = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}
_BIT = {'and', 'or', 'xor', 'lshift', 'rshift'}


def e_bit(op, a, b, dt):
    if kind(dt) == 'b':
        x, y = tB(a), tB(b)
        if op == 'and':
            return _unb(and_(x, y))
        if op == 'or':
            return _unb(or_(x, y))
        if op == 'xor':
            return _unb(not_(tm.iff(x, y)))
        raise Unsupported('shift of bools')
    if type(a) is T or type(b) is T:
        ta, tb = tI(a), tI(b)
        if op == 'lshift' and tb.op == 'const':
            return fit(_unc(tm.scale(ta, 1 << tb.v)), dt)
        if op == 'rshift' and tb.op == 'const':
            return fit(_unc(tm.idiv(ta, tm.intc(1 << tb.v))), dt)
        if all(z.lo is not None and z.lo >= 0 and z.hi is not None and z.hi <= 1 for z in (ta, tb)):
            x, y = tm.eq(ta, tm.intc(1)), tm.eq(tb, tm.intc(1))
            r = and_(x, y) if op == 'and' else or_(x, y) if op == 'or' else not_(tm.iff(x, y))
            return _unc(tm.b2i(r))
        if op == 'and' and tb.op == 'const' and tb.v >= 0 and (tb.v & (tb.v + 1)) == 0:
            return _unc(tm.imod(ta, tm.intc(tb.v + 1)))
        a, b = E.concretise(ta, 'bit operand'), E.concretise(tb, 'bit operand')
    f = {'and': operator.and_, 'or': operator.or_, 'xor': operator.xor, 'lshift': operator.lshift,
         'rshift': operator.rshift}[op]
    return fit(f(int(a), int(b)), dt)


def res_dtype(op, da, db):
    if op in _CMP:
        return WB if weak(da) and weak(db) else BOOL
    dt = promote(da, db)
    if op == 'div':
        if dt in (WB, WI):
            return WF
        if not weak(dt) and dt.kind in 'biu':
            return F64
        return dt
    if op in _BIT:
        if kind(dt) == 'f':
            raise TypeError('ufunc bitwise not supported for float')
        return dt
    if dt is WB:
        return WI
    if op in ('floordiv', 'mod', 'pow') and dt == BOOL:
        return np.dtype(np.int8)
    return dt


def e_op(op, a, b, da, db, dt):
    if op in _CMP:
        return e_cmp(_CMP[op], a, b)
    if op in _BIT:
        return e_bit(op, a, b, dt)
    if op == 'div' or op == 'floordiv' or op == 'mod':
        return _ARITH[op](a, b, dt, weak(da) and weak(db))
    return _ARITH[op](a, b, dt)


def _chk_weak_int(e, src, dt):
    """NEP 50: a Python int must fit the array dtype"""
    if src is WI and not weak(dt) and dt.kind in 'iu':
        return cast(e, WI, dt, True)
    return e


class NotScalar(Exception):
    pass


def binop(op, a, b):
    ea = elem(a) if not isinstance(a, SA) else None
    eb = elem(b) if not isinstance(b, SA) else None
    if ea is not None and eb is not None:
        (x, da), (y, db) = ea, eb
        if da is WI and db is WI and type(x) is int and type(y) is int:
            if op == 'add':
                return x + y
            if op == 'sub':
                return x - y
            if op == 'mul':
                return x * y
            if op in _CMP:
                return _CMP[op](x, y)
        dt = res_dtype(op, da, db)
        if op not in _CMP and not weak(dt):
            x, y = _chk_weak_int(x, da, dt), _chk_weak_int(y, db, dt)
        return box(e_op(op, x, y, da, db, dt), dt)
    if isinstance(a, MSel) or isinstance(b, MSel):
        return msel_binop(op, a, b)
    a, b = lift(a), lift(b)
    if a is None or b is None:
        raise NotScalar()
    if isinstance(a, MSel) or isinstance(b, MSel):
        return msel_binop(op, a, b)
    if isinstance(a, SA):
        xa, da = a.data, a.dtype
    else:
        xa, da = elem(a)
    if isinstance(b, SA):
        xb, db = b.data, b.dtype
    else:
        xb, db = elem(b)
    if 'O' in (kind(da), kind(db)):
        raise Unsupported('object arrays')
    # 0-d arrays behave like numpy scalars of their dtype
    dt = res_dtype(op, da, db)
    if op not in _CMP and not weak(dt):
        if not isinstance(a, SA):
            xa = _chk_weak_int(xa, da, dt)
        if not isinstance(b, SA):
            xb = _chk_weak_int(xb, db, dt)
    f = np.frompyfunc(lambda x, y: e_op(op, x, y, da, db, dt), 2, 1)
    return wrap_arr(f(_o(xa), _o(xb)), dt)


def _o(x):
    if isinstance(x, np.ndarray):
        return x
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def wrap_arr(r, dt):
    if not isinstance(r, np.ndarray) or r.ndim == 0:
        return box(r[()] if isinstance(r, np.ndarray) else r, dt)
    return SA(r, dt)


def unop(op, a):
    if isinstance(a, MSel):
        return a.map(lambda e: _e_un(op, e, a.dtype), a.dtype)
    if isinstance(a, SA):
        dt = a.dtype
        f = np.frompyfunc(lambda x: _e_un(op, x, dt), 1, 1)
        return wrap_arr(f(a.data), dt)
    r = elem(a)
    if r is None:
        raise NotScalar()
    e, dt = r
    if dt is WB and op in ('neg', 'pos', 'inv'):
        e, dt = (int(e) if type(e) is not T else tm.b2i(e)), WI
    return box(_e_un(op, e, dt), dt)


def _e_un(op, e, dt):
    if op == 'neg':
        if kind(dt) == 'b':
            raise TypeError('The numpy boolean negative, the `-` operator, is not supported')
        if _raw(e):
            return -e
        if type(e) is T:
            r = tm.neg(e)
            return fit(r, dt) if kind(dt) == 'i' else r
        return fit(-e, dt)
    if op == 'pos':
        return e
    if op == 'inv':
        if kind(dt) == 'b':
            return _unb(not_(tB(e)))
        if type(e) is T:
            return fit(_unc(tm.sub(tm.intc(-1), e)), dt)
        return fit(~e, dt)
    if op == 'abs':
        if _raw(e):
            return abs(e)
        if kind(dt) == 'b':
            return e
        if type(e) is T:
            if e.lo is not None and e.lo >= 0:
                return e
            if e.hi is not None and e.hi <= 0:
                r = tm.neg(e)
            else:
                r = tm.ite(tm.lt0(e), tm.neg(e), e)
            return fit(_unc(r), dt) if kind(dt) == 'i' else r
        return fit(abs(e), dt)
    raise Unsupported(op)


def truth(v):
    """Bool term"""
    if v is True:
        return TRUE
    if v is False or v is None:
        return FALSE
    if type(v) is SV:
        return tB(v.t)
    if isinstance(v, np.generic):
        return TRUE if v else FALSE
    if isinstance(v, SA):
        if v.data.size == 1:
            return tB(v.data.reshape(-1)[0])
        if v.data.size == 0:
            return FALSE
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
    if isinstance(v, (MSel,)):
        n = E.concretise(v.count(), 'mask size')
        if n == 1:
            raise Unsupported('truth of masked selection')
        if n == 0:
            return FALSE
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
    if isinstance(v, CondList):
        return or_(*[g for g, _ in v.items])
    return TRUE if v else FALSE


# ------------------------------------------------------------------ arrays
class SA(object):
    __slots__ = ('data', 'dtype', 'ro', '__weakref__')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, data, dtype, ro=None):
        assert isinstance(data, np.ndarray) and data.dtype == object
        self.data = data
        self.dtype = np.dtype(dtype) if not weak(dtype) else np.dtype(type(_REP[dtype]))
        self.ro = ro

    def __repr__(self):
        return 'SA(%s,%s)' % (self.data.shape, self.dtype)

    def __array__(self, *a, **k):
        raise Unsupported('native numpy on a symbolic array')

    def __bool__(self):
        return E.decide(truth(self), 'native bool')

    def __len__(self):
        if self.data.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.data.shape[0]

    def __iter__(self):
        if self.data.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.data.shape[0]):
            yield self[i]

    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, v):
        setitem(self, idx, v)

    __hash__ = object.__hash__

    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)
    nbytes = property(lambda s: s.data.size * s.dtype.itemsize)
    itemsize = property(lambda s: s.dtype.itemsize)
    T = property(lambda s: SA(s.data.T, s.dtype, s.ro))
    real = property(lambda s: s)

    @property
    def flat(self):
        return SA(self.data.reshape(-1), self.dtype) if self.data.flags.c_contiguous else SA(self.data.flatten(), self.dtype, 'copy')

    def concrete(self):
        return all_concrete(self.data)


def all_concrete(data):
    for e in data.flat:
        if type(e) is T and e.op != 'const':
            return False
    return True


def make_object_array(shape, fill):
    r = np.empty(shape, dtype=object)
    r.fill(fill)
    return r


def from_ndarray(a):
    """SA from a real ndarray"""
    if a.dtype.kind == 'O':
        r = np.empty(a.shape, dtype=object)
        dts = []
        flat = [elem(x) for x in a.reshape(-1)]
        if any(f is None for f in flat):
            return SA(a, a.dtype)
        raise Unsupported('object arrays')
    if a.dtype.kind not in 'biuf':
        return None
    r = np.empty(a.shape, dtype=object)
    if a.dtype.kind == 'b':
        it = (bool(x) for x in a.reshape(-1))
    elif a.dtype.kind in 'iu':
        it = (int(x) for x in a.reshape(-1))
    else:
        it = (elem(x)[0] for x in a.reshape(-1))
    f = r.reshape(-1)
    for i, x in enumerate(it):
        f[i] = x
    return SA(f.reshape(a.shape), a.dtype)


def np_value(x):
    """concrete ndarray of SA (all elements concrete)"""
    a = np.empty(x.data.shape, dtype=x.dtype)
    f = a.reshape(-1)
    for i, e in enumerate(x.data.flat):
        if type(e) is T:
            e = _pyc(e) if e.sort != 'R' else float(e.v)
        f[i] = e
    return f.reshape(x.data.shape)


def lift(x):
    """SA / MSel / scalar for array-like x; None otherwise"""
    if isinstance(x, (SA, MSel)):
        return x
    if isinstance(x, CondList):
        return x.msel()
    if isinstance(x, np.ndarray):
        return from_ndarray(x)
    if is_scalar(x):
        return x
    if isinstance(x, (list, tuple, range)):
        return asarray(x)
    return None


def _shape_of(x):
    if isinstance(x, SA):
        return x.data.shape
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple, range)):
        if len(x) == 0:
            return (0,)
        if isinstance(x, (list, tuple)) and any(isinstance(y, (MSel, CondList)) for y in x):
            x = [force(y) if isinstance(y, (MSel, CondList)) else y for y in x]
        s = _shape_of(x[0])
        for y in x:
            if _shape_of(y) != s:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        return (len(x),) + s
    return ()


def _leaves(x, out, dts):
    if isinstance(x, (MSel, CondList)):
        x = force(x)
    if isinstance(x, np.ndarray):
        x = from_ndarray(x)
    if isinstance(x, SA):
        out.extend(x.data.reshape(-1).tolist() if x.data.ndim else [x.data[()]])
        dts.append(x.dtype)
        return
    if isinstance(x, (list, tuple, range)):
        for y in x:
            _leaves(y, out, dts)
        return
    r = elem(x)
    if r is None:
        raise Unsupported('array of %s' % type(x).__name__)
    out.append(r)
    dts.append(r[1])


def asarray(x, dtype=None, copy=False):
    if isinstance(x, CondList):
        x = x.msel()
    if isinstance(x, MSel):
        x = force(x)
    if isinstance(x, np.ndarray):
        x = from_ndarray(x)
    if isinstance(x, SA):
        if dtype is None or np.dtype(dtype) == x.dtype:
            return SA(x.data.copy(), x.dtype) if copy else x
        return astype(x, dtype)
    if isinstance(x, (list, tuple, range)):
        shape = _shape_of(x)
    else:
        if not is_scalar(x):
            if hasattr(x, '__iter__') and not isinstance(x, (str, dict)):
                pass
            # numpy makes a 0-d object array of arbitrary objects
            r = np.empty((), dtype=object)
            r[()] = x
            return SA(r, np.dtype(object))
        shape = ()
    leaves, dts = [], []
    try:
        _leaves(x, leaves, dts)
    except Unsupported:
        if not all(is_scalar(z) or isinstance(z, (list, tuple, SA, np.ndarray)) for z in x):
            r = np.empty(len(x), dtype=object)
            for i, z in enumerate(x):
                r[i] = z
            return SA(r, np.dtype(object))
        raise
    if not leaves:
        dt = np.dtype(dtype) if dtype is not None else F64
        return SA(np.empty(shape, dtype=object), dt)
    src = dts[0]
    for d in dts[1:]:
        src = promote(src, d) if not (src is d) else src
    nsrc = np.dtype(type(_REP[src])) if weak(src) else src
    dt = np.dtype(dtype) if dtype is not None else nsrc
    out = np.empty(len(leaves), dtype=object)
    for i, l in enumerate(leaves):
        if type(l) is tuple:
            out[i] = cast(l[0], l[1], dt, True)
        else:
            out[i] = cast(l, nsrc, dt) if not (type(l) is T and l.sort == 'R') else cast(l, F64, dt)
    return SA(out.reshape(shape), dt)


def astype(x, dtype):
    dt = np.dtype(dtype)
    if isinstance(x, MSel):
        return x.map(lambda e: cast(e, x.dtype, dt), dt)
    if isinstance(x, SA):
        if x.data.size == 0:
            return SA(x.data.copy(), dt)
        f = np.frompyfunc(lambda e: cast(e, x.dtype, dt), 1, 1)
        r = f(x.data)
        return SA(_o(r) if not isinstance(r, np.ndarray) else r, dt)
    e, d = elem(x)
    return box(cast(e, d, dt), dt)


# ------------------------------------------------------------------ conditional sequences
class MSel(object):
    """one-dimensional selection of elements under symbolic conditions: items (guard, element)"""
    __array_ufunc__ = None

    def __init__(self, guards, elems, dtype, key=None):
        self.guards = guards
        self.elems = elems
        self.dtype = dtype
        self.key = key if key is not None else tuple(g.id for g in guards)

    def __repr__(self):
        return 'MSel(%d)' % len(self.guards)

    ndim = 1

    def __array__(self, *a, **k):
        raise Unsupported('native numpy on a masked selection')

    def count(self):
        r = tm.intc(0)
        for g in self.guards:
            r = tm.add(r, tm.b2i(g))
        return r

    @property
    def shape(self):
        return (box(_unc(self.count()), WI),)

    @property
    def size(self):
        return box(_unc(self.count()), WI)

    def map(self, f, dt):
        return MSel(self.guards, [f(e) for e in self.elems], dt, self.key)

    def items(self):
        return list(zip(self.guards, self.elems))

    def __iter__(self):
        return iter(force(self))

    def __len__(self):
        return E.concretise(self.count(), 'len')


class CondList(object):
    """list whose elements are present under symbolic conditions"""

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return 'CondList(%d)' % len(self.items)

    def msel(self):
        dts = []
        for g, v in self.items:
            r = elem(v)
            if r is None:
                return force_list(self)
            dts.append(r[1])
        dt = dts[0]
        for d in dts[1:]:
            dt = promote(dt, d)
        nd = np.dtype(type(_REP[dt])) if weak(dt) else dt
        return MSel([g for g, _ in self.items], [cast(*elem(v), nd) for _, v in self.items], nd)

    def __iter__(self):
        return iter(force_list(self))

    def __len__(self):
        r = tm.intc(0)
        for g, _ in self.items:
            r = tm.add(r, tm.b2i(g))
        return E.concretise(r, 'len')


def force(x):
    """concrete-length array from a conditional selection (forks on each condition)"""
    if isinstance(x, CondList):
        x = x.msel()
        if isinstance(x, list):
            return asarray(x)
    if isinstance(x, MSel):
        el = [e for g, e in x.items() if E.decide(g, 'mask')]
        r = np.empty(len(el), dtype=object)
        for i, e in enumerate(el):
            r[i] = e
        return SA(r, x.dtype)
    return x


def force_list(x):
    return [v for g, v in x.items if E.decide(g, 'conditional list')]


def msel_binop(op, a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, MSel) and isinstance(b, MSel):
        if a.key != b.key:
            return binop(op, force(a), force(b))
        dt = res_dtype(op, a.dtype, b.dtype)
        return MSel(a.guards, [e_op(op, x, y, a.dtype, b.dtype, dt) for x, y in zip(a.elems, b.elems)], dt, a.key)
    if isinstance(a, MSel):
        if isinstance(b, SA) and b.data.size != 1:
            return binop(op, force(a), b)
        y, db = elem(b) if not isinstance(b, SA) else (b.data.reshape(-1)[0], b.dtype)
        dt = res_dtype(op, a.dtype, db)
        if op not in _CMP:
            y = _chk_weak_int(y, db, dt)
        return MSel(a.guards, [e_op(op, x, y, a.dtype, db, dt) for x in a.elems], dt, a.key)
    if isinstance(a, SA) and a.data.size != 1:
        return binop(op, a, force(b))
    x, da = elem(a) if not isinstance(a, SA) else (a.data.reshape(-1)[0], a.dtype)
    dt = res_dtype(op, da, b.dtype)
    if op not in _CMP:
        x = _chk_weak_int(x, da, dt)
    return MSel(b.guards, [e_op(op, x, y, da, b.dtype, dt) for y in b.elems], dt, b.key)


# ------------------------------------------------------------------ indexing
def _norm_index(arr, idx):
    """list of index components; scalars as int or SV, arrays as real ndarrays or SA"""
    comps = list(idx) if isinstance(idx, tuple) else [idx]
    out = []
    for c in comps:
        if isinstance(c, slice):
            def sl(x):
                if x is None:
                    return None
                e, d = elem(x)
                if kind(d) == 'f':
                    raise TypeError('slice indices must be integers or None or have an __index__ method')
                return E.concretise(tI(e), 'slice') if type(e) is T else int(e)
            out.append(slice(sl(c.start), sl(c.stop), sl(c.step)))
        elif c is None or c is Ellipsis:
            out.append(c)
        elif isinstance(c, CondList):
            out.append(c.msel())
        elif isinstance(c, (SA, MSel)):
            out.append(c)
        elif isinstance(c, np.ndarray) and c.ndim > 0:
            out.append(from_ndarray(c))
        elif isinstance(c, (list, range)):
            a = asarray(list(c))
            if a.data.size == 0:
                a = SA(a.data, I64)
            out.append(a)
        elif isinstance(c, tuple):
            out.append(asarray(list(c)))
        else:
            r = elem(c)
            if r is None:
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
            e, d = r
            if kind(d) == 'f':
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
            if kind(d) == 'b':
                out.append(SA(_o(e), BOOL))
            elif type(e) is T and e.op != 'const':
                out.append(SV(e, d))
            else:
                out.append(int(e if type(e) is not T else e.v))
    # 0-d arrays
    for i, c in enumerate(out):
        if isinstance(c, SA) and c.data.ndim == 0 and kind(c.dtype) == 'i':
            e = c.data[()]
            out[i] = SV(e, c.dtype) if type(e) is T else int(e)
    return out


def _axis_of(arr, comps, pos):
    """axis of arr addressed by comps[pos] (before masks)"""
    used_after = sum(_naxes(c) for c in comps[pos + 1:])
    if Ellipsis in [c for c in comps[:pos] if c is Ellipsis]:
        return arr.data.ndim - used_after - _naxes(comps[pos])
    return sum(_naxes(c) for c in comps[:pos])


def _naxes(c):
    if c is None or c is Ellipsis:
        return 0
    if isinstance(c, SA) and kind(c.dtype) == 'b':
        return c.data.ndim
    return 1


def _concrete_comp(c):
    """real index object for a component without symbols, else None"""
    if isinstance(c, SA):
        if kind(c.dtype) == 'b' or kind(c.dtype) == 'i':
            if c.concrete():
                return np_value(c)
            return None
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(c, (SV, MSel)):
        return None
    return c


def getitem(arr, idx):
    comps = _norm_index(arr, idx)
    conc = [_concrete_comp(c) for c in comps]
    if all(x is not None or comps[i] is None for i, x in enumerate(conc)):
        key = tuple(conc)
        r = arr.data[key]
        if isinstance(r, np.ndarray):
            if r.ndim == 0 and not any(c is None or c is Ellipsis for c in comps):
                return box(r[()], arr.dtype)
            return SA(r, arr.dtype, arr.ro)
        return box(r, arr.dtype)
    # symbolic scalar: choose among the possible values
    for i, c in enumerate(comps):
        if isinstance(c, SV):
            ax = _axis_of(arr, comps, i)
            n = arr.data.shape[ax]
            t = c.t
            E.may_raise(or_(tm.lt(t, tm.intc(-n)), tm.le(tm.intc(n), t)), IndexError('index out of bounds'))
            res = None
            for k in range(-n, n):
                cond = E.cur.simp(tm.eq(t, tm.intc(k)))
                if cond is FALSE:
                    continue
                sub = getitem(arr, tuple(comps[:i] + [k] + comps[i + 1:]))
                res = sub if res is None else merge_values(cond, sub, res)
                if cond is TRUE:
                    return sub
            if res is None:
                raise E.Infeasible()
            return res
    # symbolic masks / index arrays
    for i, c in enumerate(comps):
        if isinstance(c, SA) and kind(c.dtype) == 'b' and conc[i] is None:
            if len(comps) == 1 and c.data.shape == arr.data.shape:
                return MSel([tB(e) for e in c.data.reshape(-1)], list(arr.data.reshape(-1)), arr.dtype)
            if len(comps) == 1 and c.data.shape != arr.data.shape[:c.data.ndim]:
                raise IndexError('boolean index did not match indexed array')
            if c.data.ndim == 1 and arr.data.ndim == 2 and len(comps) == 2 and not any(isinstance(x, (SA, MSel)) for j, x in enumerate(comps) if j != i):
                rest = [slice(None) if j == i else x for j, x in enumerate(comps)]
                sub = getitem(arr, tuple(rest))
                if isinstance(sub, SA) and sub.data.ndim == 1:
                    return getitem(sub, c)
            comps[i] = concretise_mask(c)
            return getitem(arr, tuple(comps))
        if isinstance(c, MSel):
            if kind(c.dtype) == 'i' and all(type(e) is not T for e in c.elems):
                rest = [slice(None) if j == i else x for j, x in enumerate(comps)]
                sub = getitem(arr, tuple(rest)) if len(comps) > 1 else arr
                if isinstance(sub, SA) and sub.data.ndim == 1:
                    n = sub.data.shape[0]
                    ok = all(-n <= e < n for e in c.elems)
                    if ok:
                        return MSel(c.guards, [sub.data[e] for e in c.elems], sub.dtype, c.key)
            comps[i] = force(c)
            return getitem(arr, tuple(comps))
        if isinstance(c, SA) and kind(c.dtype) == 'i' and conc[i] is None:
            if c.data.ndim == 1 and (len(comps) == 1 or sum(isinstance(x, SA) for x in comps) == 1):
                ax = _axis_of(arr, comps, i)
                subs = [getitem(arr, tuple(comps[:i] + [box(e, c.dtype)] + comps[i + 1:])) for e in c.data]
                if all(is_scalar(s) for s in subs):
                    return asarray(subs, arr.dtype)
                if i == 0 or len(comps) == 1:
                    return SA(np.stack([s.data for s in subs]), arr.dtype)
            el = [E.concretise(tI(e), 'index') if type(e) is T else e for e in c.data.reshape(-1)]
            r = np.empty(len(el), dtype=object)
            r[:] = el
            comps[i] = SA(r.reshape(c.data.shape), c.dtype)
            return getitem(arr, tuple(comps))
    raise Unsupported('index')


def concretise_mask(c):
    r = np.empty(c.data.size, dtype=object)
    for k, e in enumerate(c.data.reshape(-1)):
        r[k] = E.decide(tB(e), 'mask') if type(e) is T else bool(e)
    return SA(r.reshape(c.data.shape), BOOL)


def _store(arr, key, val, g):
    """arr.data[key] = val where g; val SA or scalar"""
    dt = arr.dtype
    if isinstance(val, SA):
        if val.dtype != dt:
            if kind(val.dtype) == 'O' or kind(dt) == 'O':
                raise Unsupported('object array store')
            val = astype(val, dt)
        nv = val.data
    else:
        r = elem(val)
        if r is None:
            if kind(dt) == 'O':
                E.require_guard('object store')
                arr.data[key] = val
                return
            if val is None:
                raise TypeError('float() argument must be a string or a real number, not NoneType')
            raise Unsupported('store of %s' % type(val).__name__)
        e, d = r
        nv = cast(e, d, dt, True)
    if g is TRUE:
        if isinstance(nv, np.ndarray):
            arr.data[key] = nv
        else:
            sub = arr.data[key]
            if isinstance(sub, np.ndarray):
                arr.data[key] = nv
            else:
                arr.data[key] = nv
        return
    old = arr.data[key]
    if isinstance(old, np.ndarray):
        nvb = np.broadcast_to(nv, old.shape) if isinstance(nv, np.ndarray) else make_object_array(old.shape, nv)
        res = np.empty(old.shape, dtype=object)
        fo, fn, fr = old.reshape(-1), nvb.reshape(-1), res.reshape(-1)
        for i in range(fo.shape[0]):
            fr[i] = e_ite(g, fn[i], fo[i])
        arr.data[key] = fr.reshape(old.shape)
    else:
        if isinstance(nv, np.ndarray):
            nv = nv.reshape(-1)[0]
        arr.data[key] = e_ite(g, nv, old)


def setitem(arr, idx, val, g=None):
    if arr.ro is not None:
        if arr.ro == 'copy':
            raise Unsupported('store into a flattened copy')
        E.decide(arr.ro, 'store into merged array')
        raise E.Restart(arr.ro) if arr.ro.id not in E.cur.known else Unsupported('store into merged array')
    if g is None:
        g = E.cur.simp(E.cur.guard)
    comps = _norm_index(arr, idx)
    if not is_scalar(val):
        val2 = lift(val)
        if val2 is None:
            val2 = val
        val = val2
    conc = [_concrete_comp(c) for c in comps]
    if all(x is not None or comps[i] is None for i, x in enumerate(conc)):
        key = tuple(conc)
        if isinstance(val, MSel):
            val = force(val)
        _store(arr, key, val, g)
        return
    for i, c in enumerate(comps):
        if isinstance(c, SV):
            ax = _axis_of(arr, comps, i)
            n = arr.data.shape[ax]
            t = c.t
            E.may_raise(or_(tm.lt(t, tm.intc(-n)), tm.le(tm.intc(n), t)), IndexError('index out of bounds'))
            for k in range(-n, n):
                cond = E.cur.simp(tm.eq(t, tm.intc(k)))
                gg = and_(g, cond)
                if gg is FALSE:
                    continue
                setitem(arr, tuple(comps[:i] + [k] + comps[i + 1:]), val, gg)
            return
    for i, c in enumerate(comps):
        if isinstance(c, SA) and kind(c.dtype) == 'b' and conc[i] is None:
            if len(comps) == 1 and c.data.shape == arr.data.shape:
                guards = [tB(e) for e in c.data.reshape(-1)]
                if isinstance(val, MSel):
                    if val.key == tuple(x.id for x in guards):
                        vals = [cast(e, val.dtype, arr.dtype) for e in val.elems]
                    else:
                        val = force(val)
                        comps[i] = concretise_mask(c)
                        return setitem(arr, tuple(comps), val, g)
                elif isinstance(val, SA):
                    if val.data.size == 1:
                        vals = [cast(val.data.reshape(-1)[0], val.dtype, arr.dtype)] * len(guards)
                    else:
                        comps[i] = concretise_mask(c)
                        return setitem(arr, tuple(comps), val, g)
                else:
                    e, d = elem(val)
                    vals = [cast(e, d, arr.dtype, True)] * len(guards)
                for pos, gg, v in zip(np.ndindex(*arr.data.shape), guards, vals):
                    arr.data[pos] = e_ite(and_(g, gg), v, arr.data[pos])
                return
            comps[i] = concretise_mask(c)
            return setitem(arr, tuple(comps), val, g)
        if isinstance(c, MSel):
            if len(comps) == 1 and all(type(e) is not T for e in c.elems) and is_scalar(val):
                for gg, e in c.items():
                    setitem(arr, (e,), val, and_(g, gg))
                return
            comps[i] = force(c)
            return setitem(arr, tuple(comps), val, g)
        if isinstance(c, SA) and kind(c.dtype) == 'i' and conc[i] is None:
            el = [E.concretise(tI(e), 'index') if type(e) is T else e for e in c.data.reshape(-1)]
            r = np.empty(len(el), dtype=object)
            r[:] = el
            comps[i] = SA(r.reshape(c.data.shape), c.dtype)
            return setitem(arr, tuple(comps), val, g)
    raise Unsupported('index store')


# ------------------------------------------------------------------ merging
class CannotMerge(Exception):
    pass


def merge_scalars(c, a, b):
    (x, da), (y, db) = elem(a), elem(b)
    if da is db or (not weak(da) and not weak(db) and da == db):
        return box(e_ite(c, x, y), da)
    # weak / strong mixtures: value preserving when the weak value fits the strong type
    if weak(da) != weak(db):
        (w, wd), (s, sd) = ((x, da), (y, db)) if weak(da) else ((y, db), (x, da))
        ks, kw = kind(sd), kind(wd)
        if kw == 'b' and ks == 'b':
            raise CannotMerge()
        if kw in 'ib' and ks == 'i':
            t = tI(w)
            n = _INTS[sd]
            lo = -(n >> 1) if sd.kind == 'i' else 0
            if t.lo is not None and t.hi is not None and lo <= t.lo and t.hi < lo + n and kw == 'i':
                return box(e_ite(c, x, y), sd)
            raise CannotMerge()
        if kw in 'if' and ks == 'f':
            return box(e_ite(c, cast(x, da, sd), cast(y, db, sd)), sd)
        raise CannotMerge()
    if weak(da) and weak(db):
        if WB in (da, db):
            raise CannotMerge()
        return box(e_ite(c, cast(x, da, WF), cast(y, db, WF)), WF)
    raise CannotMerge()


def merge_values(c, a, b):
    """value equal to a where c, else b (arrays: read-only copies)"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if is_scalar(a) and is_scalar(b):
        return merge_scalars(c, a, b)
    if isinstance(a, SA) and isinstance(b, SA):
        if a.data.shape != b.data.shape or a.dtype != b.dtype or kind(a.dtype) == 'O':
            raise CannotMerge()
        r = np.empty(a.data.size, dtype=object)
        for i, (x, y) in enumerate(zip(a.data.reshape(-1), b.data.reshape(-1))):
            r[i] = e_ite(c, x, y)
        return SA(r.reshape(a.data.shape), a.dtype, c)
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(merge_values(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)) and a == b:
        return a
    raise CannotMerge()


def _op(name):
    def f(self, other):
        if isinstance(other, (str, dict)) or other is None:
            return NotImplemented
        try:
            return binop(name, self, other)
        except NotScalar:
            return NotImplemented
    return f


def _rop(name):
    def f(self, other):
        if isinstance(other, (str, dict)) or other is None:
            return NotImplemented
        try:
            return binop(name, other, self)
        except NotScalar:
            return NotImplemented
    return f


for _cls in (SV, SA, MSel):
    for _n, _m in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div'), ('floordiv', 'floordiv'),
                   ('mod', 'mod'), ('pow', 'pow'), ('and', 'and'), ('or', 'or'), ('xor', 'xor'),
                   ('lshift', 'lshift'), ('rshift', 'rshift')):
        setattr(_cls, '__%s__' % _n, _op(_m))
        setattr(_cls, '__r%s__' % _n, _rop(_m))
    for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        setattr(_cls, '__%s__' % _n, _op(_n))
    _cls.__neg__ = lambda self: unop('neg', self)
    _cls.__pos__ = lambda self: self
    _cls.__invert__ = lambda self: unop('inv', self)
    _cls.__abs__ = lambda self: unop('abs', self)
SV.__hash__ = lambda self: hash(self.t.v) if self.t.op == 'const' else hash(self.t.id)
SA.__hash__ = object.__hash__
MSel.__hash__ = object.__hash__
