"""Models of numpy / scipy / math functions over symbolic values."""
import math
import operator
from fractions import Fraction

import numpy as np
import scipy.special

from . import engine as E
from . import terms as tm
from . import vals as V
from .engine import Unsupported
from .terms import T, TRUE, FALSE, and_, not_, or_
from .vals import (SA, SV, MSel, CondList, elem, box, cast, kind, lift, asarray, astype, wrap_arr, binop, unop,
                   BOOL, F64, I64, WB, WI, WF, tB, tI, tR, e_add, e_mul, e_ite, e_cmp, _unc, _unb, force, is_scalar,
                   make_object_array, promote)

MODELS = {}
METHODS = {}
_keep = []


def model(*fns):
    def deco(f):
        for fn in fns:
            if fn is not None:
                MODELS[id(fn)] = f
                _keep.append(fn)
        return f
    return deco


def method(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


def _np(name):
    return getattr(np, name, None)


def arr(x):
    """SA or MSel of array-like"""
    if isinstance(x, (SA, MSel)):
        return x
    if isinstance(x, CondList):
        m = x.msel()
        return m if isinstance(m, MSel) else asarray(m)
    if isinstance(x, V.USet):
        return x.force()
    return asarray(x)


def sarr(x):
    x = arr(x)
    return force(x) if isinstance(x, MSel) else x


# ------------------------------------------------------------------ creation
def _shape(s):
    if isinstance(s, (list, tuple)) or isinstance(s, SA):
        return tuple(_int(x) for x in s)
    return (_int(s),)


def _int(x):
    e, d = elem(x)
    if kind(d) == 'f':
        raise TypeError("'float' object cannot be interpreted as an integer")
    return E.concretise(tI(e), 'size')


def _zero(dt):
    k = kind(dt)
    return False if k == 'b' else 0 if k == 'i' else tm.realc(0)


def _dt(d, default=F64):
    return default if d is None else np.dtype(d)


@model(np.zeros)
def _zeros(shape, dtype=float, order='C', **k):
    dt = _dt(dtype)
    return SA(make_object_array(_shape(shape), _zero(dt)), dt)


@model(np.ones)
def _ones(shape, dtype=None, order='C', **k):
    dt = _dt(dtype)
    return SA(make_object_array(_shape(shape), cast(1, WI, dt)), dt)


@model(np.full)
def _full(shape, fill_value, dtype=None, order='C', **k):
    if is_scalar(fill_value):
        e, d = elem(fill_value)
        if dtype is None:
            dt = np.dtype(type(V._REP[d])) if V.weak(d) else d
        else:
            dt = np.dtype(dtype)
        return SA(make_object_array(_shape(shape), cast(e, d, dt, True)), dt)
    f = asarray(fill_value, dtype)
    return SA(np.broadcast_to(f.data, _shape(shape)).copy(), f.dtype)


def garbage(shape, dt, tag='garbage'):
    r = np.empty(shape, dtype=object)
    f = r.reshape(-1)
    k = kind(dt)
    ts = []
    for i in range(f.shape[0]):
        if k == 'b':
            t = E.cur.fresh(tag + '_b', 'B')
        elif k == 'i':
            n = V._INTS[dt]
            lo = -(n >> 1) if dt.kind == 'i' else 0
            t = E.cur.fresh('%s_%s' % (tag, dt.char), 'I', lo, lo + n - 1)
        else:
            t = E.cur.fresh(tag + '_f', 'R')
        f[i] = t
        ts.append(t)
    E.cur.events.append((tag, E.cur.guard, ts, shape, dt))
    return SA(f.reshape(shape), dt)


@model(np.empty)
def _empty(shape, dtype=float, order='C', **k):
    return garbage(_shape(shape), _dt(dtype))


@model(np.zeros_like)
def _zeros_like(a, dtype=None, **k):
    a = sarr(a)
    dt = a.dtype if dtype is None else np.dtype(dtype)
    return SA(make_object_array(a.data.shape, _zero(dt)), dt)


@model(np.ones_like)
def _ones_like(a, dtype=None, **k):
    a = sarr(a)
    dt = a.dtype if dtype is None else np.dtype(dtype)
    return SA(make_object_array(a.data.shape, cast(1, WI, dt)), dt)


@model(np.full_like)
def _full_like(a, fill_value, dtype=None, **k):
    a = sarr(a)
    return _full(a.data.shape, fill_value, a.dtype if dtype is None else dtype)


@model(np.empty_like)
def _empty_like(a, dtype=None, **k):
    a = sarr(a)
    return garbage(a.data.shape, a.dtype if dtype is None else np.dtype(dtype))


@model(np.array)
def _array(obj, dtype=None, copy=True, order=None, ndmin=0, **k):
    r = asarray(obj, dtype, copy=True)
    if not isinstance(r, SA):
        r = asarray([r]).data.reshape(())
    while r.data.ndim < ndmin:
        r = SA(r.data[None], r.dtype)
    return r


@model(np.asarray, np.ascontiguousarray, np.asanyarray, np.asfortranarray)
def _asarray(obj, dtype=None, order=None, **k):
    return asarray(obj, dtype)


@model(np.copy)
def _copy(a, **k):
    return asarray(a, copy=True)


@model(np.arange)
def _arange(*args, dtype=None, **k):
    args = list(args)
    if 'step' in k:
        args = (args if len(args) > 1 else [0] + args) + [k['step']]
    es = [elem(a) for a in args]
    if all(kind(d) == 'i' for _, d in es):
        return asarray(list(range(*[_int(a) for a in args])), dtype or I64) if len(args) else None
    if len(es) == 1:
        start, stop, step = tm.realc(0), tR(es[0][0]), tm.realc(1)
    else:
        start, stop = tR(es[0][0]), tR(es[1][0])
        step = tR(es[2][0]) if len(es) > 2 else tm.realc(1)
    # length = ceil((stop-start)/step)
    diff = tm.sub(stop, start)
    n = None
    pd, ps = V_poly(diff), V_poly(step)
    # exact ratio when diff is a rational multiple of step
    ratio = _ratio(pd, ps)
    if ratio is not None:
        if diff.op != 'const' and not E.valid(not_(tm.eq0(step))):
            raise Unsupported('arange with a possibly zero step')
        n = max(0, math.ceil(ratio))
        if ratio.denominator == 1:
            # in floating point (stop-start)/step may round up: one more element is possible
            extra = E.cur.fresh('arange_rounding', 'B')
            E.cur.events.append(('arange', E.cur.guard, [extra], (), BOOL))
            n += 1
    else:
        q = tm.floor_(tm.div(diff, step)) if step.op == 'const' else None
        if q is None:
            raise Unsupported('arange with symbolic step')
        n = max(0, E.concretise(tm.neg(tm.floor_(tm.neg(tm.div(diff, step)))), 'arange length'))
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = tm.add(start, tm.scale(step, i))
    return SA(out, _dt(dtype))


def V_poly(t):
    return tm.poly(t)


def _ratio(pd, ps):
    if not ps:
        return None
    if not pd:
        return Fraction(0)
    if set(pd) != set(ps):
        return None
    r = None
    for m in ps:
        q = Fraction(pd[m]) / Fraction(ps[m])
        if r is None:
            r = q
        elif r != q:
            return None
    return r


@model(np.linspace)
def _linspace(start, stop, num=50, endpoint=True, **k):
    n = _int(num)
    a, b = tR(elem(start)[0]), tR(elem(stop)[0])
    den = (n - 1) if endpoint else n
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = tm.add(a, tm.scale(tm.sub(b, a), Fraction(i, den))) if den else a
    return SA(out, F64)


@model(np.eye, np.identity)
def _eye(n, M=None, k=0, dtype=float):
    n = _int(n)
    m = n if M is None else _int(M)
    return V.from_ndarray(np.eye(n, m, k, dtype=dtype))


# ------------------------------------------------------------------ structure (run on object arrays)
_STRUCT = ['concatenate', 'stack', 'hstack', 'vstack', 'dstack', 'column_stack', 'delete', 'transpose', 'reshape', 'tile',
           'repeat', 'roll', 'flip', 'fliplr', 'flipud', 'squeeze', 'expand_dims', 'ravel', 'swapaxes', 'moveaxis',
           'broadcast_to', 'diag', 'append', 'insert', 'split', 'array_split', 'hsplit', 'vsplit', 'atleast_1d',
           'atleast_2d', 'atleast_3d', 'rot90', 'diagonal', 'row_stack', 'rollaxis', 'resize', 'broadcast_arrays',
           'tril', 'triu', 'block', 'pad']


def _conv_struct(x, dts):
    if isinstance(x, (MSel, CondList)):
        x = force(x)
    if isinstance(x, np.ndarray):
        x = V.from_ndarray(x)
    if isinstance(x, SA):
        dts.append(x.dtype)
        return x.data
    if isinstance(x, (list, tuple)):
        if x and all(is_scalar(y) for y in x):
            a = asarray(list(x))
            if a.concrete() and kind(a.dtype) == 'i':
                dts.append(a.dtype)
                return a.data
            dts.append(a.dtype)
            return a.data
        return type(x)(_conv_struct(y, dts) for y in x)
    if is_scalar(x):
        e, d = elem(x)
        dts.append(d)
        return e
    return x


def _idx_arg(x):
    if isinstance(x, (MSel, CondList)):
        x = force(x)
    if isinstance(x, SA):
        if not x.concrete():
            if kind(x.dtype) == 'b':
                x = V.concretise_mask(x)
            else:
                r = np.empty(x.data.size, dtype=object)
                r[:] = [E.concretise(tI(e), 'index') for e in x.data.reshape(-1)]
                x = SA(r.reshape(x.data.shape), x.dtype)
        return V.np_value(x)
    if type(x) is SV:
        return E.concretise(x.t, 'index')
    if isinstance(x, (list, tuple)):
        return type(x)(_idx_arg(y) for y in x)
    return x


def _struct(name):
    fn = getattr(np, name, None)
    if fn is None:
        return

    @model(fn)
    def run(*args, **kw):
        dts = []
        first = _conv_struct(args[0], dts) if args else None
        rest = list(args[1:])
        data_pos = {'append': 1, 'insert': 2}.get(name)
        out_rest = []
        for i, x in enumerate(rest):
            if data_pos is not None and i == data_pos - 1:
                out_rest.append(_conv_struct(x, dts) if not is_scalar(x) else elem(x)[0])
            else:
                out_rest.append(_idx_arg(x))
        kw2 = {}
        dtype = kw.pop('dtype', None)
        for k, x in kw.items():
            kw2[k] = _idx_arg(x) if k not in ('values', 'arr', 'constant_values') else _conv_struct(x, dts)
        if isinstance(first, np.ndarray) is False and not isinstance(first, (list, tuple)) and is_scalar(args[0]):
            first = np.array(first, dtype=object)
        if dts:
            dt = dts[0]
            for d in dts[1:]:
                dt = promote(dt, d)
        else:
            dt = F64
        if V.weak(dt):
            dt = np.dtype(type(V._REP[dt]))
        if name == 'diag':
            r = fn(first, *out_rest, **kw2)
            if r.ndim == 2:
                z = _zero(dt)
                for i in range(r.shape[0]):
                    for j in range(r.shape[1]):
                        if i != j:
                            r[i, j] = z
        elif name in ('tril', 'triu'):
            m = fn(np.ones(first.shape), *out_rest, **kw2)
            r = np.where(m == 1, first, _zero(dt))
        else:
            if name == 'reshape' and 'newshape' in kw2:
                kw2['shape'] = kw2.pop('newshape')
            r = fn(first, *out_rest, **kw2)
        need = any(kind(d) != kind(dt) for d in dts)

        def fin(x):
            if isinstance(x, (list, tuple)):
                return type(x)(fin(y) for y in x)
            if not isinstance(x, np.ndarray):
                return box(x, dt)
            if x.dtype != object:
                x = x.astype(object)
            s = SA(x, dt)
            if need and x.size:
                f = np.frompyfunc(lambda e: _coerce(e, dt), 1, 1)
                s = SA(np.asarray(f(x), dtype=object), dt)
            if dtype is not None:
                s = astype(s, dtype)
            return s
        return fin(r)
    return run


def _coerce(e, dt):
    k = kind(dt)
    if k == 'f':
        return e if isinstance(e, float) else tR(e)
    if k == 'i':
        if type(e) is T:
            return tm.b2i(e) if e.sort == 'B' else e
        return int(e)
    return e


for _n in _STRUCT:
    _struct(_n)


@model(np.shape)
def _shape_fn(a):
    a = sarr(a)
    return a.data.shape


@model(np.ndim)
def _ndim(a):
    return sarr(a).data.ndim


@model(np.size)
def _size(a, axis=None):
    a = sarr(a)
    return a.data.size if axis is None else a.data.shape[axis]


@model(np.iterable)
def _iterable(x):
    return isinstance(x, (SA, MSel, CondList, list, tuple, str, range)) and not (isinstance(x, SA) and x.data.ndim == 0)


@model(np.isscalar)
def _isscalar(x):
    return is_scalar(x) or isinstance(x, str)


@model(np.ndenumerate)
def _ndenumerate(a):
    a = sarr(a)
    return [(i, box(a.data[i], a.dtype)) for i in np.ndindex(*a.data.shape)]


@model(np.ndindex)
def _ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    return list(np.ndindex(*[_int(s) for s in shape]))


@model(np.take)
def _take(a, indices, axis=None, **k):
    a = sarr(a)
    if axis is None:
        return V.getitem(SA(a.data.reshape(-1), a.dtype), indices)
    ax = _int(axis) % a.data.ndim
    return V.getitem(a, tuple([slice(None)] * ax + [indices]))


@model(np.compress)
def _compress(cond, a, axis=None):
    a = sarr(a)
    if axis is None:
        return V.getitem(SA(a.data.reshape(-1), a.dtype), asarray(cond))
    return V.getitem(a, tuple([slice(None)] * axis + [asarray(cond)]))


@model(np.meshgrid)
def _meshgrid(*xs, indexing='xy', **k):
    xs = [sarr(x) for x in xs]
    g = np.meshgrid(*[np.arange(x.data.size) for x in xs], indexing=indexing)
    return [SA(x.data.reshape(-1)[i], x.dtype) for x, i in zip(xs, g)]


@model(np.ix_)
def _ix(*args):
    out = []
    n = len(args)
    for i, a in enumerate(args):
        a = sarr(a)
        if kind(a.dtype) == 'b':
            a = V.from_ndarray(np.flatnonzero(_idx_arg(a)))
        sh = [1] * n
        sh[i] = a.data.size
        out.append(SA(a.data.reshape(sh), a.dtype))
    return tuple(out)


@model(np.unravel_index)
def _unravel(idx, shape):
    return np.unravel_index(_idx_arg(idx), shape)


# ------------------------------------------------------------------ elementwise
def _ew_bin(op):
    def f(a, b, out=None, where=None, dtype=None, **k):
        a = lift(a)
        b = lift(b)
        r = binop(op, a, b)
        if isinstance(r, bool):
            r = np.bool_(r)
        elif type(r) is SV and r.dt is WB:
            r = SV(r.t, BOOL)
        elif is_scalar(r) and V.weak(elem(r)[1]):
            e, d = elem(r)
            r = box(e, np.dtype(type(V._REP[d])))
        if dtype is not None:
            r = astype(r, dtype)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            V.setitem(out, Ellipsis, r)
            return out
        return r
    return f


_BIN = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'div': np.true_divide, 'floordiv': np.floor_divide,
        'mod': np.mod, 'pow': np.power, 'eq': np.equal, 'ne': np.not_equal, 'lt': np.less, 'le': np.less_equal,
        'gt': np.greater, 'ge': np.greater_equal, 'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor,
        'lshift': np.left_shift, 'rshift': np.right_shift}
for _o, _f in _BIN.items():
    model(_f)(_ew_bin(_o))
model(np.float_power)(_ew_bin('pow'))
model(np.remainder)(_ew_bin('mod'))


def _map(f, a, dt=None):
    """elementwise f(e) -> e"""
    a = lift(a)
    if isinstance(a, MSel):
        return a.map(f, dt or a.dtype)
    if isinstance(a, SA):
        if a.data.size == 0:
            return SA(a.data.copy(), dt or a.dtype)
        r = np.frompyfunc(f, 1, 1)(a.data)
        return wrap_arr(r, dt or a.dtype)
    e, d = elem(a)
    return box(f(e), dt or (np.dtype(type(V._REP[d])) if V.weak(d) else d))


def _map2(f, a, b, dt):
    a, b = lift(a), lift(b)
    if isinstance(a, MSel) and isinstance(b, MSel) and a.key == b.key:
        return MSel(a.guards, [f(x, y) for x, y in zip(a.elems, b.elems)], dt, a.key)
    if isinstance(a, MSel):
        if is_scalar(b):
            y = elem(b)[0]
            return a.map(lambda x: f(x, y), dt)
        a = force(a)
    if isinstance(b, MSel):
        if is_scalar(a):
            x = elem(a)[0]
            return b.map(lambda y: f(x, y), dt)
        b = force(b)
    xa = a.data if isinstance(a, SA) else V._o(elem(a)[0])
    xb = b.data if isinstance(b, SA) else V._o(elem(b)[0])
    r = np.frompyfunc(f, 2, 1)(xa, xb)
    return wrap_arr(r, dt)


def _dtof(x):
    x = lift(x)
    if isinstance(x, (SA, MSel)):
        return x.dtype
    return elem(x)[1]


def _strong(d):
    return np.dtype(type(V._REP[d])) if V.weak(d) else d


model(np.logical_and)(lambda a, b, **k: _map2(lambda x, y: _unb(and_(tB(x), tB(y))), a, b, BOOL))
model(np.logical_or)(lambda a, b, **k: _map2(lambda x, y: _unb(or_(tB(x), tB(y))), a, b, BOOL))
model(np.logical_xor)(lambda a, b, **k: _map2(lambda x, y: _unb(not_(tm.iff(tB(x), tB(y)))), a, b, BOOL))
model(np.logical_not)(lambda a, **k: _map(lambda x: _unb(not_(tB(x))), a, BOOL))
model(np.invert, np.bitwise_not)(lambda a, **k: unop('inv', lift(a)))
model(np.negative)(lambda a, **k: unop('neg', lift(a)))
model(np.positive)(lambda a, **k: lift(a))
model(np.abs, np.absolute, np.fabs)(lambda a, **k: unop('abs', lift(a)))
model(abs)(lambda a: unop('abs', a))


def e_max(x, y):
    if V.OPT['max_fork'] and (type(x) is T and x.sort == 'R' or type(y) is T and y.sort == 'R'):
        return x if E.decide(tB(e_cmp(operator.ge, x, y)), 'max') else y
    return e_ite(tB(e_cmp(operator.ge, x, y)), x, y)


def e_min(x, y):
    return e_ite(tB(e_cmp(operator.le, x, y)), x, y)


@model(np.maximum, np.fmax)
def _maximum(a, b, **k):
    dt = _strong(promote(_dtof(a), _dtof(b)))
    return _map2(lambda x, y: e_max(_coerce(x, dt), _coerce(y, dt)), a, b, dt)


@model(np.minimum, np.fmin)
def _minimum(a, b, **k):
    dt = _strong(promote(_dtof(a), _dtof(b)))
    return _map2(lambda x, y: e_min(_coerce(x, dt), _coerce(y, dt)), a, b, dt)


@model(np.clip)
def _clip(a, a_min=None, a_max=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = lift(a)
    if a_min is not None:
        r = _maximum(r, a_min)
    if a_max is not None:
        r = _minimum(r, a_max)
    return r


@model(np.sign)
def _sign(a):
    d = _strong(_dtof(a))

    def f(e):
        if type(e) is not T:
            return (e > 0) - (e < 0)
        one = tm.realc(1) if e.sort == 'R' else tm.intc(1)
        r = tm.ite(tm.lt0(tm.neg(e)), one, tm.ite(tm.lt0(e), tm.neg(one), tm.sub(one, one)))
        return _unc(r) if e.sort != 'R' else r
    return _map(f, a, d)


@model(np.square)
def _square(a, **k):
    return binop('mul', lift(a), lift(a))


@model(np.reciprocal)
def _recip(a):
    return binop('div', 1.0, lift(a))


def _float_fn(f):
    def run(a, *args, **k):
        a = lift(a)
        d = _dtof(a)
        dt = d if (not V.weak(d) and d.kind == 'f') else F64
        return _map(f, a, dt)
    return run


def e_exp(e):
    if isinstance(e, float):
        return V._rawres(math.exp(e) if e < 0 else e)
    return tm.exp(tR(e))


def e_log(e):
    if isinstance(e, float):
        return e if e > 0 else math.nan
    t = tR(e)
    if V.OPT['log_fork'] and t.op != 'const':
        c, d = tm.parts(t)
        if d and all(x.sort == 'I' for x in d):
            k = math.lcm(*[Fraction(q).denominator for q in list(d.values()) + [c]])
            ti = tm.floor_(tm.scale(t, k))
            if ti.lo is not None and ti.hi is not None and ti.hi - ti.lo <= 64 * k:
                t = tm.realc(Fraction(E.concretise(ti, 'log'), k))
    if t.op == 'const':
        if t.v == 0:
            return -math.inf
        if t.v < 0:
            return math.nan
        return tm.log(t)
    if not tm.is_pos(t):
        neg = tm.le0(t)
        if neg is not FALSE and not E.valid(not_(neg)):
            if E.decide(neg, 'log of non-positive'):
                return -math.inf if E.decide(tm.eq0(t), 'log zero') else math.nan
        return _log_pos(t)
    return tm.log(t)


def _log_pos(t):
    return tm.log(t)


def e_sqrt(e):
    t = tR(e)
    if t.op == 'const':
        q = Fraction(t.v)
        if q < 0:
            return math.nan
        n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if n * n == q.numerator and d * d == q.denominator:
            return tm.realc(Fraction(n, d))
    return tm.uf('sqrt', t, lo=0)


def e_expit(e):
    if isinstance(e, float):
        return tm.realc(1 if e > 0 else 0)
    return tm.expit(tR(e))


def e_logit(e):
    t = tR(e)
    if t.op == 'const' and (t.v <= 0 or t.v >= 1):
        return -math.inf if t.v == 0 else math.inf if t.v == 1 else math.nan
    if t.op != 'const':
        if not tm.is_pos(t) and not E.valid(tm.lt0(tm.neg(t))):
            if not E.decide(tm.lt0(tm.neg(t)), 'logit domain'):
                return -math.inf if E.decide(tm.eq0(t), 'logit 0') else math.nan
        u = tm.sub(tm.realc(1), t)
        if not tm.is_pos(u) and not E.valid(tm.lt0(tm.neg(u))):
            if not E.decide(tm.lt0(tm.neg(u)), 'logit domain'):
                return math.inf if E.decide(tm.eq0(u), 'logit 1') else math.nan
    return tm.logit(t)


model(np.exp)(_float_fn(e_exp))
model(np.log)(_float_fn(e_log))
model(np.sqrt)(_float_fn(e_sqrt))
model(np.log1p)(_float_fn(lambda e: e_log(tm.add(tm.realc(1), tR(e)))))
model(np.expm1)(_float_fn(lambda e: tm.sub(e_exp(e), tm.realc(1))))
model(np.log2)(_float_fn(lambda e: tm.div(e_log(e), tm.log(tm.realc(2)))))
model(np.log10)(_float_fn(lambda e: tm.div(e_log(e), tm.log(tm.realc(10)))))
model(scipy.special.expit)(_float_fn(e_expit))
model(scipy.special.logit)(_float_fn(e_logit))
model(scipy.special.log_expit)(_float_fn(lambda e: tm.log(e_expit(e))))


def e_lgamma(e):
    t = tR(e)
    if t.op == 'const' and Fraction(t.v).denominator == 1 and t.v >= 1:
        return tm.log(tm.realc(math.factorial(int(t.v) - 1)))
    return tm.uf('lgamma', t)


model(scipy.special.gammaln)(_float_fn(e_lgamma))
model(np.floor)(_float_fn(lambda e: tm.to_real(tm.floor_(tR(e)))))
model(np.ceil)(_float_fn(lambda e: tm.neg(tm.to_real(tm.floor_(tm.neg(tR(e)))))))


def e_round(e):
    if type(e) is not T or e.sort != 'R':
        return e
    t = tm.floor_(tm.add(e, tm.realc(Fraction(1, 2))))
    if e.op == 'const':
        return tm.realc(round(Fraction(e.v)))
    # half to even
    half = tm.eq(tm.sub(tm.to_real(t), e), tm.realc(Fraction(1, 2)))
    odd = tm.eq(tm.imod(t, tm.intc(2)), tm.intc(1))
    return tm.to_real(tm.ite(and_(half, odd), tm.sub(t, tm.intc(1)), t))


@model(np.round, np.around, _np('round_'))
def _round(a, decimals=0, **k):
    if decimals:
        s = 10 ** decimals
        return binop('div', _map(e_round, binop('mul', lift(a), float(s))), float(s))
    return _map(e_round, a)


model(np.rint)(_float_fn(e_round))


@model(np.trunc, np.fix)
def _trunc(a, **k):
    return astype(astype(lift(a), I64), F64)


model(np.isnan)(lambda a, **k: _map(lambda e: isinstance(e, float) and e != e, a, BOOL))
model(np.isinf)(lambda a, **k: _map(lambda e: isinstance(e, float) and math.isinf(e), a, BOOL))
model(np.isfinite)(lambda a, **k: _map(lambda e: not isinstance(e, float), a, BOOL))


@model(np.where)
def _where(cond, x=None, y=None):
    if x is None:
        return _nonzero(cond)
    c = lift(cond)
    dx, dy = _dtof(x), _dtof(y)
    dt = _strong(promote(dx, dy))
    x, y = lift(x), lift(y)
    if isinstance(c, MSel) or isinstance(x, MSel) or isinstance(y, MSel):
        key = next(z.key for z in (c, x, y) if isinstance(z, MSel))
        n = len(next(z for z in (c, x, y) if isinstance(z, MSel)).guards)
        if all((isinstance(z, MSel) and z.key == key) or is_scalar(z) for z in (c, x, y)):
            g = next(z.guards for z in (c, x, y) if isinstance(z, MSel))
            sel = [z.elems if isinstance(z, MSel) else [elem(z)[0]] * n for z in (c, x, y)]
            return MSel(g, [e_ite(tB(a), _coerce(b, dt), _coerce(d, dt)) for a, b, d in zip(*sel)], dt, key)
        c, x, y = [force(z) if isinstance(z, MSel) else z for z in (c, x, y)]
    dd = [z.data if isinstance(z, SA) else V._o(elem(z)[0]) for z in (c, x, y)]
    r = np.frompyfunc(lambda a, b, d: e_ite(tB(a), _coerce(b, dt), _coerce(d, dt)), 3, 1)(*dd)
    return SA(r if isinstance(r, np.ndarray) else V._o(r), dt)


@model(np.nonzero)
def _nonzero(a):
    a = arr(a)
    if isinstance(a, MSel):
        a = force(a)
    if a.data.ndim == 1:
        g = [tB(e) for e in a.data]
        if all(x is TRUE or x is FALSE for x in g):
            return (V.from_ndarray(np.array([i for i, x in enumerate(g) if x is TRUE], dtype=np.int64)),)
        return (MSel([x for x in g if x is not FALSE], [i for i, x in enumerate(g) if x is not FALSE], I64),)
    m = V.np_value(V.concretise_mask(astype(a, bool)))
    return tuple(V.from_ndarray(x) for x in np.nonzero(m))


@model(np.flatnonzero)
def _flatnonzero(a):
    a = sarr(a)
    return _nonzero(SA(a.data.reshape(-1), a.dtype))[0]


@model(np.argwhere)
def _argwhere(a):
    a = sarr(a)
    m = V.np_value(V.concretise_mask(astype(a, bool)))
    return V.from_ndarray(np.argwhere(m))


@model(np.select)
def _select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = _where(c, x, r)
    return r


# ------------------------------------------------------------------ reductions
def _reduce(a, axis, f, dt, keepdims=False):
    """f(list of elements) -> element"""
    if axis is None:
        r = f(list(a.data.reshape(-1)))
        if keepdims:
            o = np.empty((1,) * a.data.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return SA(o, dt)
        return box(r, dt)
    nd = a.data.ndim
    axes = tuple(_int(x) % nd for x in axis) if isinstance(axis, (tuple, list)) else (_norm_axis(axis, nd),)
    rest = [i for i in range(nd) if i not in axes]
    d = a.data.transpose(rest + list(axes)).reshape([a.data.shape[i] for i in rest] +
                                                    [int(np.prod([a.data.shape[i] for i in axes]))])
    out = np.empty(d.shape[:-1], dtype=object)
    for i in np.ndindex(*d.shape[:-1]):
        out[i] = f(list(d[i]))
    if keepdims:
        out = out.reshape([1 if i in axes else a.data.shape[i] for i in range(nd)])
    if out.ndim == 0:
        return box(out[()], dt)
    return SA(out, dt)


def _norm_axis(axis, nd):
    ax = _int(axis)
    if not -nd <= ax < nd:
        raise np.exceptions.AxisError(ax, nd)
    return ax % nd


def _sum_dt(d):
    k = d.kind
    if k == 'b':
        return I64
    if k == 'i':
        return I64 if d.itemsize < 8 else d
    if k == 'u':
        return np.dtype(np.uint64)
    return d


def sum_elems(xs, dt, start=None):
    k = kind(dt)
    if k == 'f':
        c, raw = tm.realc(0), None
        acc = {}
        for x in xs:
            if isinstance(x, float):
                raw = x if raw is None else raw + x
                continue
            c = tm.add(c, tR(x))
        if raw is not None:
            return raw
        return c
    if all(type(x) is not T for x in xs):
        return V.fit(sum(int(x) for x in xs), dt)
    c = tm.intc(0)
    for x in xs:
        c = tm.add(c, tI(x))
    return V.fit(_unc(c), dt)


def _strip(k):
    k.pop('out', None)
    return k


@model(np.sum, np.nansum)
@method('sum')
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
    if isinstance(a, CondList):
        a = a.msel()
    a = arr(a) if not isinstance(a, (SA, MSel)) else a
    if where is not None and where is not True:
        a = _where(where, a, 0)
    dt = np.dtype(dtype) if dtype is not None else _sum_dt(a.dtype)
    if isinstance(a, MSel):
        return box(sum_elems([e_gate(g, cast(e, a.dtype, dt), dt) for g, e in a.items()], dt), dt)
    return _reduce(a, axis, lambda xs: sum_elems([cast(x, a.dtype, dt) for x in xs], dt), dt, keepdims)


def e_gate(g, e, dt):
    return e_ite(g, e, _zero(dt))


@model(np.prod, _np('product'))
@method('prod')
def _prod(a, axis=None, dtype=None, keepdims=False, **k):
    if isinstance(a, CondList):
        a = a.msel()
    a = arr(a)
    dt = np.dtype(dtype) if dtype is not None else _sum_dt(a.dtype)
    one = cast(1, WI, dt)

    def f(xs):
        r = one
        for x in xs:
            r = e_mul(r, cast(x, a.dtype, dt), dt)
        return r
    if isinstance(a, MSel):
        return box(f([e_ite(g, cast(e, a.dtype, dt), one) for g, e in a.items()]), dt)
    return _reduce(a, axis, f, dt, keepdims)


@model(np.mean, np.average, np.nanmean)
@method('mean')
def _mean(a, axis=None, dtype=None, keepdims=False, weights=None, **k):
    if isinstance(a, CondList):
        a = a.msel()
    a = arr(a)
    dt = np.dtype(dtype) if dtype is not None else (a.dtype if a.dtype.kind == 'f' else F64)
    if weights is not None:
        return binop('div', _sum(binop('mul', a, weights), axis), _sum(weights, axis if sarr(weights).data.ndim > 1 else None))
    if isinstance(a, MSel):
        n = E.concretise(a.count(), 'mean size')
        if n == 0:
            return dt.type(math.nan)
        s = sum_elems([e_gate(g, cast(e, a.dtype, dt), dt) for g, e in a.items()], dt)
        return box(tm.scale(s, Fraction(1, n)), dt)

    def f(xs):
        if not xs:
            return math.nan
        s = sum_elems([cast(x, a.dtype, F64) for x in xs], dt)
        if isinstance(s, float):
            return s
        return tm.scale(s, Fraction(1, len(xs)))
    return _reduce(a, axis, f, dt, keepdims)


@model(np.var)
@method('var')
def _var(a, axis=None, ddof=0, keepdims=False, **k):
    a = sarr(a)

    def f(xs):
        xs = [tR(x) for x in xs]
        m = tm.scale(sum_elems(xs, F64), Fraction(1, len(xs)))
        r = tm.realc(0)
        for x in xs:
            d = tm.sub(x, m)
            r = tm.add(r, tm.mul(d, d))
        return tm.scale(r, Fraction(1, len(xs) - ddof))
    return _reduce(a, axis, f, F64, keepdims)


@model(np.std)
@method('std')
def _std(a, axis=None, **k):
    return _map(e_sqrt, _var(a, axis, **k), F64)


def _any_e(xs):
    return _unb(or_(*[tB(x) for x in xs]))


def _all_e(xs):
    return _unb(and_(*[tB(x) for x in xs]))


@model(np.any, _np('sometrue'))
@method('any')
def _any(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, CondList):
        return box(_unb(or_(*[and_(g, V.truth(v)) for g, v in a.items])), BOOL)
    a = arr(a)
    if isinstance(a, MSel):
        return box(_unb(or_(*[and_(g, tB(e)) for g, e in a.items()])), BOOL)
    if kind(a.dtype) == 'O':
        return np.bool_(any(bool(x) for x in a.data.reshape(-1)))
    return _reduce(a, axis, _any_e, BOOL, keepdims)


@model(np.all, _np('alltrue'))
@method('all')
def _all(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, CondList):
        return box(_unb(and_(*[or_(not_(g), V.truth(v)) for g, v in a.items])), BOOL)
    a = arr(a)
    if isinstance(a, MSel):
        return box(_unb(and_(*[or_(not_(g), tB(e)) for g, e in a.items()])), BOOL)
    if kind(a.dtype) == 'O':
        return np.bool_(all(bool(x) for x in a.data.reshape(-1)))
    return _reduce(a, axis, _all_e, BOOL, keepdims)


@model(np.count_nonzero)
def _count_nonzero(a, axis=None, keepdims=False):
    if isinstance(a, CondList):
        a = a.msel()
    a = arr(a)
    if isinstance(a, MSel):
        r = tm.intc(0)
        for g, e in a.items():
            r = tm.add(r, tm.b2i(and_(g, tB(e))))
        return box(_unc(r), WI)

    def f(xs):
        if all(type(x) is not T for x in xs):
            return sum(1 for x in xs if x)
        r = tm.intc(0)
        for x in xs:
            r = tm.add(r, tm.b2i(tB(x)))
        return _unc(r)
    return _reduce(a, axis, f, WI if axis is None and not keepdims else I64, keepdims)


def _fold(op):
    def run(a, axis=None, out=None, keepdims=False, initial=None, **k):
        if isinstance(a, CondList):
            a = a.msel()
        a = arr(a)

        def f(xs):
            if initial is not None:
                xs = [cast(*elem(initial), a.dtype)] + xs
            if not xs:
                raise ValueError('zero-size array to reduction operation which has no identity')
            r = xs[0]
            for x in xs[1:]:
                r = op(r, x)
            return r
        if isinstance(a, MSel):
            if any(g is TRUE for g in a.guards):
                r = next(e for g, e in a.items() if g is TRUE)
                for g, e in a.items():
                    if g is not TRUE:
                        r = e_ite(g, op(r, e), r)
                    else:
                        r = op(r, e)
                return box(r, a.dtype)
            a = force(a)
        return _reduce(a, axis, f, a.dtype, keepdims)
    return run


METHODS['max'] = model(np.max, np.amax, np.nanmax)(_fold(e_max))
METHODS['min'] = model(np.min, np.amin, np.nanmin)(_fold(e_min))


@method('ptp')
@model(_np('ptp'))
def _ptp(a, axis=None):
    return binop('sub', METHODS['max'](a, axis), METHODS['min'](a, axis))


def _arg(op):
    """first index of the extreme element; forks on comparisons"""
    def run(a, axis=None, out=None, keepdims=False):
        a = sarr(a)

        def f(xs):
            if not xs:
                raise ValueError('attempt to get argmax of an empty sequence')
            if kind(a.dtype) == 'b' and op is operator.gt:
                r = tm.intc(0)
                for i in reversed(range(len(xs))):
                    r = tm.ite(tB(xs[i]), tm.intc(i), r)
                return _unc(r)
            best = 0
            for i in range(1, len(xs)):
                if E.decide(tB(e_cmp(op, xs[i], xs[best])), 'argmax'):
                    best = i
            return best
        return _reduce(a, axis, f, I64, keepdims)
    return run


METHODS['argmax'] = model(np.argmax)(_arg(operator.gt))
METHODS['argmin'] = model(np.argmin)(_arg(operator.lt))


def sort_idx(xs):
    """stable order of elements; forks on comparisons"""
    out = []
    for i, x in enumerate(xs):
        lo, hi = 0, len(out)
        while lo < hi:
            mid = (lo + hi) // 2
            if E.decide(tB(e_cmp(operator.lt, x, xs[out[mid]])), 'sort'):
                hi = mid
            else:
                lo = mid + 1
        out.insert(lo, i)
    return out


@model(np.argsort)
@method('argsort')
def _argsort(a, axis=-1, kind=None, **k):
    a = sarr(a)
    if axis is None:
        return V.from_ndarray(np.array(sort_idx(list(a.data.reshape(-1))), dtype=np.int64))
    d = np.moveaxis(a.data, axis, -1)
    out = np.empty(d.shape, dtype=object)
    for i in np.ndindex(*d.shape[:-1]):
        out[i] = sort_idx(list(d[i]))
    return SA(np.moveaxis(out, -1, axis), I64)


@model(np.sort)
def _sort(a, axis=-1, **k):
    a = sarr(a)
    d = np.moveaxis(a.data, axis, -1)
    out = np.empty(d.shape, dtype=object)
    for i in np.ndindex(*d.shape[:-1]):
        xs = list(d[i])
        if V.kind(a.dtype) == 'b' or all(type(x) is not T for x in xs):
            out[i] = [xs[j] for j in sort_idx(xs)]
        else:
            # sorting network on values: no forks
            for p in range(len(xs)):
                for q in range(len(xs) - 1 - p):
                    xs[q], xs[q + 1] = e_min(xs[q], xs[q + 1]), e_max(xs[q], xs[q + 1])
            out[i] = xs
    return SA(np.moveaxis(out, -1, axis), a.dtype)


@method('sort')
def _msort(a, axis=-1, **k):
    r = _sort(a, axis)
    V.setitem(a, Ellipsis, r)


@model(np.searchsorted)
def _searchsorted(a, v, side='left', **k):
    a = sarr(a)
    op = operator.lt if side == 'left' else operator.le

    def f(x):
        r = tm.intc(0)
        for e in a.data:
            r = tm.add(r, tm.b2i(tB(e_cmp(op, e, x))))
        return _unc(r)
    return _map(f, v, I64)


class USet(object):
    """np.unique of symbolic values, kept lazy"""

    def __init__(self, a):
        self.a = a
        self.f = None

    def force(self):
        if self.f is None:
            xs = list(self.a.data.reshape(-1))
            order = sort_idx(xs)
            out = []
            for j in order:
                if not out or not E.decide(tB(e_cmp(operator.eq, xs[out[-1]], xs[j])), 'unique'):
                    out.append(j)
            r = np.empty(len(out), dtype=object)
            r[:] = [xs[j] for j in out]
            self.f = SA(r, self.a.dtype)
        return self.f

    def contains(self, v):
        e = elem(v)[0]
        return or_(*[tB(e_cmp(operator.eq, x, e)) for x in self.a.data.reshape(-1)])

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, i):
        return self.force()[i]


V.USet = USet


class SSet(USet):
    """set of symbolic values"""

    def includes(self, xs):
        return and_(*[self.contains(x) for x in xs])

    def among(self, xs):
        xs = [elem(x)[0] for x in xs]
        return and_(*[or_(*[tB(e_cmp(operator.eq, e, x)) for x in xs]) for e in self.a.data.reshape(-1)])


V.SSet = SSet


def set_items(x):
    return [box(e, x.a.dtype) for e in x.a.data.reshape(-1)] if isinstance(x, USet) else list(x)


def set_op(op, a, b):
    """comparison of sets, at least one of them symbolic"""
    if not isinstance(a, SSet):
        a, b, op = b, a, {'le': 'ge', 'ge': 'le', 'lt': 'gt', 'gt': 'lt'}.get(op, op)
    sub, sup = a.among(set_items(b)), a.includes(set_items(b))
    r = {'le': sub, 'ge': sup, 'lt': and_(sub, not_(sup)), 'gt': and_(sup, not_(sub)), 'eq': and_(sub, sup), 'ne': not_(and_(sub, sup))}[op]
    return box(_unb(r), WB)


@model(np.unique)
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = sarr(a)
    if a.concrete():
        r = np.unique(V.np_value(a), return_index, return_inverse, return_counts, axis)
        return tuple(V.from_ndarray(x) for x in r) if isinstance(r, tuple) else V.from_ndarray(r)
    if axis is not None:
        raise Unsupported('unique along an axis')
    u = USet(a)
    if not (return_index or return_inverse or return_counts):
        return u
    f = u.force()
    res = [f]
    xs = list(a.data.reshape(-1))
    inv = []
    for x in xs:
        for i, y in enumerate(f.data):
            if E.decide(tB(e_cmp(operator.eq, x, y)), 'unique'):
                inv.append(i)
                break
    if return_index:
        res.append(asarray([inv.index(i) for i in range(len(f))], I64))
    if return_inverse:
        res.append(asarray(inv, I64))
    if return_counts:
        res.append(asarray([inv.count(i) for i in range(len(f))], I64))
    return tuple(res)


@model(np.isin, _np('in1d'))
def _isin(a, test, **k):
    t = sarr(test)
    return _map(lambda e: _unb(or_(*[tB(e_cmp(operator.eq, e, y)) for y in t.data.reshape(-1)])), a, BOOL)


@model(np.array_equal)
def _array_equal(a, b, **k):
    a, b = sarr(a), sarr(b)
    if a.data.shape != b.data.shape:
        return False
    return box(_unb(and_(*[tB(e_cmp(operator.eq, x, y)) for x, y in zip(a.data.reshape(-1), b.data.reshape(-1))])), WB)


@model(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    d = unop('abs', binop('sub', lift(a), lift(b)))
    return binop('le', d, binop('add', float(atol), binop('mul', float(rtol), unop('abs', lift(b)))))


@model(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    r = _all(_isclose(a, b, rtol, atol))
    return r


@model(np.cumsum)
@method('cumsum')
def _cumsum(a, axis=None, **k):
    a = sarr(a)
    dt = _sum_dt(a.dtype)
    d = a.data.reshape(-1) if axis is None else np.moveaxis(a.data, axis, -1)
    out = np.empty(d.shape, dtype=object)
    for i in np.ndindex(*d.shape[:-1]):
        acc = _zero(dt)
        for j in range(d.shape[-1]):
            acc = e_add(acc, cast(d[i + (j,)], a.dtype, dt), dt)
            out[i + (j,)] = acc
    return SA(out if axis is None else np.moveaxis(out, -1, axis), dt)


@model(np.cumprod)
@method('cumprod')
def _cumprod(a, axis=None, **k):
    a = sarr(a)
    dt = _sum_dt(a.dtype)
    d = a.data.reshape(-1) if axis is None else np.moveaxis(a.data, axis, -1)
    out = np.empty(d.shape, dtype=object)
    for i in np.ndindex(*d.shape[:-1]):
        acc = cast(1, WI, dt)
        for j in range(d.shape[-1]):
            acc = e_mul(acc, cast(d[i + (j,)], a.dtype, dt), dt)
            out[i + (j,)] = acc
    return SA(out if axis is None else np.moveaxis(out, -1, axis), dt)


@model(np.diff)
def _diff(a, n=1, axis=-1):
    a = sarr(a)
    d = np.moveaxis(a.data, axis, -1)
    x, y = SA(np.moveaxis(d[..., 1:], -1, axis), a.dtype), SA(np.moveaxis(d[..., :-1], -1, axis), a.dtype)
    return binop('sub', x, y)


@model(np.histogram)
def _hist(*a, **k):
    raise Unsupported('histogram')


@model(np.bincount)
def _bincount(x, weights=None, minlength=0):
    x = sarr(x)
    n = max([minlength] + [1 + (e if type(e) is not T else e.hi) for e in x.data])
    out = np.empty(n, dtype=object)
    for k in range(n):
        out[k] = sum_elems([_unc(tm.b2i(tB(e_cmp(operator.eq, e, k)))) for e in x.data], I64)
    return SA(out, I64)


# ------------------------------------------------------------------ products
def _dot_elems(xs, ys, da, db, dt):
    if dt == BOOL:
        return _unb(or_(*[and_(tB(x), tB(y)) for x, y in zip(xs, ys)]))
    k = kind(dt)
    acc = _zero(dt)
    for x, y in zip(xs, ys):
        acc = e_add(acc, e_mul(_coerce(x, dt), _coerce(y, dt), dt), dt)
    return acc


@model(np.dot)
@method('dot')
def _dot(a, b, out=None):
    if is_scalar(a) or is_scalar(b):
        return binop('mul', a, b)
    a, b = sarr(a), sarr(b)
    if a.data.ndim == 0 or b.data.ndim == 0:
        return binop('mul', a, b)
    dt = promote(a.dtype, b.dtype)
    A = a.data
    B = b.data
    if B.ndim == 1:
        Bt = B[None, :]
        bs = ()
    else:
        Bt = np.moveaxis(B, -2, -1)
        bs = Bt.shape[:-1]
        Bt = Bt.reshape(-1, Bt.shape[-1])
    as_ = A.shape[:-1]
    At = A.reshape(-1, A.shape[-1])
    if At.shape[-1] != Bt.shape[-1]:
        raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
    r = np.empty((At.shape[0], Bt.shape[0]), dtype=object)
    for i in range(At.shape[0]):
        for j in range(Bt.shape[0]):
            r[i, j] = _dot_elems(At[i], Bt[j], a.dtype, b.dtype, dt)
    r = r.reshape(as_ + bs)
    return wrap_arr(r, dt)


@model(np.matmul)
def _matmul(a, b, **k):
    a, b = sarr(a), sarr(b)
    if a.data.ndim <= 2 and b.data.ndim <= 2:
        return _dot(a, b)
    raise Unsupported('batched matmul')


model(np.inner)(lambda a, b: _dot(a, b) if sarr(b).data.ndim == 1 else _dot(a, sarr(b).T))
model(np.vdot)(lambda a, b: _dot(SA(sarr(a).data.reshape(-1), sarr(a).dtype), SA(sarr(b).data.reshape(-1), sarr(b).dtype)))


@model(np.outer)
def _outer(a, b, **k):
    a, b = sarr(a), sarr(b)
    return binop('mul', SA(a.data.reshape(-1, 1), a.dtype), SA(b.data.reshape(1, -1), b.dtype))


def _ufunc_outer(op):
    def run(a, b, **k):
        a, b = sarr(a), sarr(b)
        x = SA(a.data.reshape(a.data.shape + (1,) * b.data.ndim), a.dtype)
        return MODELS[id(op)](x, b)
    return run


def _ufunc_reduce(op):
    spec = {id(np.add): _sum, id(np.multiply): _prod, id(np.logical_or): _any, id(np.logical_and): _all,
            id(np.maximum): METHODS['max'], id(np.minimum): METHODS['min'], id(np.bitwise_or): None,
            id(np.bitwise_and): None}

    def run(a, axis=0, **k):
        f = spec.get(id(op))
        if f is not None:
            return f(a, axis=axis, **k)
        a = sarr(a)
        if axis is None:
            items = list(SA(a.data.reshape(-1), a.dtype))
        else:
            items = [SA(x, a.dtype) if x.ndim else box(x[()], a.dtype)
                     for x in (np.asarray(y, dtype=object) for y in np.moveaxis(a.data, axis, 0))]
        r = items[0]
        for x in items[1:]:
            r = MODELS[id(op)](r, x)
        return r
    return run


@model(np.einsum)
def _einsum(spec, *ops, **k):
    ops = [sarr(o) for o in ops]
    if '->' in spec:
        ins, outs = spec.replace(' ', '').split('->')
    else:
        ins = spec.replace(' ', '')
        from collections import Counter
        c = Counter(ins.replace(',', ''))
        outs = ''.join(sorted(x for x in c if c[x] == 1))
    ins = ins.split(',')
    dim = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.data.shape):
            dim[ch] = n
    summed = [ch for ch in dim if ch not in outs]
    dt = ops[0].dtype
    for o in ops[1:]:
        dt = promote(dt, o.dtype)
    r = np.empty([dim[c] for c in outs], dtype=object)
    for oi in np.ndindex(*r.shape):
        env = dict(zip(outs, oi))
        acc = _zero(dt)
        for si in np.ndindex(*[dim[c] for c in summed]):
            env.update(zip(summed, si))
            p = None
            for s, o in zip(ins, ops):
                e = _coerce(o.data[tuple(env[c] for c in s)], dt)
                p = e if p is None else e_mul(p, e, dt)
            acc = e_add(acc, p, dt)
        r[oi] = acc
    return wrap_arr(r, dt)


@model(np.tensordot)
def _tensordot(a, b, axes=2):
    a, b = sarr(a), sarr(b)
    if isinstance(axes, int):
        axes = (list(range(a.data.ndim - axes, a.data.ndim)), list(range(axes)))
    l = 'abcdefghijklm'
    sa = list(l[:a.data.ndim])
    sb = list('nopqrstuvwxyz'[:b.data.ndim])
    ax, bx = axes
    ax = [ax] if isinstance(ax, int) else list(ax)
    bx = [bx] if isinstance(bx, int) else list(bx)
    for i, j in zip(ax, bx):
        sb[j] = sa[i]
    out = [c for i, c in enumerate(sa) if i not in [x % a.data.ndim for x in ax]] + [c for j, c in enumerate(sb) if j not in [x % b.data.ndim for x in bx]]
    return _einsum('%s,%s->%s' % (''.join(sa), ''.join(sb), ''.join(out)), a, b)


@model(np.kron)
def _kron(a, b):
    raise Unsupported('kron')


@model(np.trace)
def _trace(a):
    a = sarr(a)
    return _sum(SA(a.data.diagonal(), a.dtype))


@model(np.apply_along_axis)
def _aaa(f, axis, a, *args, **kw):
    from . import interp
    a = sarr(a)
    d = np.moveaxis(a.data, axis, -1)
    res = []
    for i in np.ndindex(*d.shape[:-1]):
        res.append(interp.call(f, [SA(d[i], a.dtype)] + list(args), kw))
    if all(is_scalar(r) for r in res):
        x = asarray(res)
        return SA(x.data.reshape(d.shape[:-1]), x.dtype)
    raise Unsupported('apply_along_axis')


@model(np.errstate, np.seterr)
def _errstate(*a, **k):
    return np.errstate(**k)


@model(np.copyto)
def _copyto(dst, src, **k):
    V.setitem(dst, Ellipsis, src)


@model(np.fill_diagonal)
def _filld(a, v, **k):
    for i in range(min(a.data.shape)):
        V.setitem(a, (i, i), v)


@model(np.may_share_memory, np.shares_memory)
def _share(a, b):
    return np.shares_memory(a.data, b.data)


@model(np.result_type)
def _result_type(*a):
    return np.result_type(*[x.dtype if isinstance(x, (SA, SV, MSel)) else x for x in a])


@model(np.savetxt, np.save)
def _nop(*a, **k):
    return None


# logsumexp
@model(scipy.special.logsumexp)
def _logsumexp(a, axis=None, b=None, keepdims=False, **k):
    a = sarr(a)

    def f(xs):
        r = tm.realc(0)
        for x in xs:
            r = tm.add(r, tm.exp(tR(x)))
        return tm.log(r)
    return _reduce(a, axis, f, F64, keepdims)


# ------------------------------------------------------------------ math module
def _m(f, name):
    def run(x, *a):
        if not is_scalar(x):
            if isinstance(x, SA) and x.data.size == 1:
                x = box(x.data.reshape(-1)[0], x.dtype)
            else:
                raise TypeError('must be real number')
        e, d = elem(x)
        if isinstance(e, float):
            return getattr(math, name)(e)
        r = f(tR(e))
        return box(r, WF) if not isinstance(r, float) else r
    return run


def _m_exp(t):
    big = tm.lt(tm.realc(709), t)
    if big is not FALSE:
        E.may_raise(big, OverflowError('math range error'))
    return tm.exp(t)


def _m_log(t):
    E.may_raise(tm.le0(t), ValueError('math domain error'))
    return tm.log(t)


model(math.exp)(_m(_m_exp, 'exp'))


@model(math.log)
def _mathlog(x, base=None):
    r = _m(_m_log, 'log')(x)
    if base is not None:
        return binop('div', r, _m(_m_log, 'log')(base))
    return r


model(math.sqrt)(_m(e_sqrt, 'sqrt'))
model(math.lgamma)(_m(e_lgamma, 'lgamma'))
model(math.log1p)(_m(lambda t: _m_log(tm.add(tm.realc(1), t)), 'log1p'))
model(math.fabs)(_m(lambda t: V._e_un('abs', t, WF), 'fabs'))
model(math.log2)(_m(lambda t: tm.div(_m_log(t), tm.log(tm.realc(2))), 'log2'))


@model(math.floor)
def _mfloor(x):
    e, d = elem(x)
    return box(_unc(tm.floor_(tR(e))), WI)


@model(math.ceil)
def _mceil(x):
    e, d = elem(x)
    return box(_unc(tm.neg(tm.floor_(tm.neg(tR(e))))), WI)


model(math.isnan)(lambda x: isinstance(elem(x)[0], float) and elem(x)[0] != elem(x)[0])
model(math.isinf)(lambda x: isinstance(elem(x)[0], float) and math.isinf(elem(x)[0]))
model(math.isfinite)(lambda x: not isinstance(elem(x)[0], float))
model(math.pow)(lambda x, y: binop('pow', V.to_pyfloat(x), y))


@model(math.prod)
def _mprod(xs, start=1):
    r = start
    for x in xs:
        r = binop('mul', r, x)
    return r


@model(math.fsum)
def _fsum(xs):
    r = 0.0
    for x in xs:
        r = binop('add', r, x)
    return r


@model(math.factorial)
def _fact(x):
    return math.factorial(E.concretise(tI(elem(x)[0]), 'factorial'))


@model(math.comb)
def _comb(n, k):
    return math.comb(_int(n), _int(k))


# ------------------------------------------------------------------ randomness
def _event(kind, ts, shape, dt):
    E.cur.events.append((kind, E.cur.guard, ts, shape, dt))
    if V.OPT['max_draws'] and kind == 'uniform':
        bound_draws()


def bound_draws():
    """leave out the runs that have drawn more than the given number of uniform numbers"""
    certain, maybe = 0, []
    for kind, g, ts, shape, dt in E.cur.events:
        if kind == 'uniform':
            g = E.cur.simp(g)
            if g is TRUE:
                certain += len(ts)
            elif g is not FALSE:
                maybe.append(tm.ite(g, tm.intc(len(ts)), tm.intc(0)))
    g = E.cur.simp(E.cur.guard)
    if g is FALSE:
        return
    n = tm.intc(certain)
    for t in maybe:
        n = tm.add(n, t)
    c = not_(and_(g, tm.lt(tm.intc(V.OPT['max_draws']), n)))
    if c is TRUE:
        return
    if g is not TRUE and not E.sv.feasible(E.cur.pc + [g, c]):
        c = not_(g)
    if c is FALSE or not E.sv.feasible(E.cur.pc + [c]):
        raise E.Infeasible()
    E.cur.fact(c)


def uniform(shape):
    if shape == ():
        t = E.cur.draw('u', 'R', 0, 1, False, True)
        _event('uniform', [t], (), F64)
        return SV(t, WF)
    r = np.empty(shape, dtype=object)
    f = r.reshape(-1)
    ts = []
    for i in range(f.shape[0]):
        f[i] = E.cur.draw('u', 'R', 0, 1, False, True)
        ts.append(f[i])
    _event('uniform', ts, shape, F64)
    return SA(f.reshape(shape), F64)


@model(np.random.rand)
def _rand(*shape):
    return uniform(tuple(_int(s) for s in shape))


@model(np.random.random, np.random.random_sample, np.random.ranf, np.random.sample)
def _random(size=None):
    return uniform(() if size is None else _shape(size))


@model(np.random.uniform)
def _uniform(low=0.0, high=1.0, size=None):
    u = uniform(() if size is None else _shape(size))
    if is_scalar(low) and is_scalar(high):
        (l, _), (h, _) = elem(low), elem(high)
        if tR(l) is tm.realc(0) and tR(h) is tm.realc(1):
            return u
    return binop('add', low, binop('mul', binop('sub', high, low), u))


@model(np.random.binomial)
def _binomial(n, p, size=None):
    if is_scalar(n) and _int(n) == 1:
        pass
    elif isinstance(n, SA) or _int(n) != 1:
        raise Unsupported('binomial with n != 1')
    p = lift(p)
    if size is None:
        shape = () if is_scalar(p) else p.data.shape
    else:
        shape = _shape(size)
    u = uniform(shape)
    E.cur.events[-1] = ('binomial',) + E.cur.events[-1][1:] + (p,)
    r = binop('lt', u, p)
    if is_scalar(r):
        e, _ = elem(r)
        return box(cast(e, BOOL, WI), WI)
    return astype(r, I64)


@model(np.random.randint)
def _randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    lo, hi = [_const_int(x) if is_scalar(x) and _is_const(x) else _int(x) for x in (low, high)]
    shape = () if size is None else _shape(size)
    n = int(np.prod(shape)) if shape else 1
    ts = [E.cur.draw('randint_%d_%d' % (lo, hi), 'I', lo, hi - 1) for _ in range(n)]
    _event('randint', ts, shape, np.dtype(dtype))
    if shape == ():
        return box(_unc(ts[0]), WI)
    r = np.empty(n, dtype=object)
    r[:] = ts
    return SA(r.reshape(shape), dtype)


@model(np.random.choice)
def _choice(a, size=None, replace=True, p=None):
    if isinstance(a, CondList):
        a = force_list_(a)
    if is_scalar(a):
        pop = list(range(_int(a)))
    else:
        pop = list(a)
    shape = () if size is None else _shape(size)
    n = int(np.prod(shape)) if shape else 1
    rep = V.truth(replace) is TRUE
    if not rep and n > len(pop):
        raise ValueError("Cannot take a larger sample than population when replace is False")
    if len(pop) == 0 and n > 0:
        raise ValueError("a cannot be empty unless no samples are taken")
    if p is not None:
        ps = sarr(p)
        if not rep and n > 1:
            raise Unsupported('weighted choice without replacement')
        av = asarray(pop)
        if V.OPT['draw_free']:
            # over-approximation: any outcome
            ts = [E.cur.draw('choice_%d' % len(pop), 'I', 0, len(pop) - 1) for _ in range(n)]
            _event('choice_i', ts, shape, I64)
            out = [V.getitem(av, box(_unc(t), WI)) for t in ts]
        else:
            # inverse transform: u falls into the k-th interval
            us = [E.cur.draw('u', 'R', 0, 1, False, True) for _ in range(n)]
            E.cur.events.append(('choice_p', E.cur.guard, us, shape, F64, ps, list(pop)))
            acc = tm.realc(0)
            cums = []
            for e in ps.data:
                acc = tm.add(acc, tR(e))
                cums.append(acc)
            out = []
            for u in us:
                idx = tm.intc(len(pop) - 1)
                for i in reversed(range(len(pop) - 1)):
                    idx = tm.ite(tm.lt(u, cums[i]), tm.intc(i), idx)
                out.append(V.getitem(av, box(_unc(idx), WI)))
        if shape == ():
            return out[0]
        r = np.empty(n, dtype=object)
        for i, v in enumerate(out):
            r[i] = elem(v)[0]
        return SA(r.reshape(shape), av.dtype)
    ts = []
    for i in range(n):
        m = len(pop) if rep else len(pop) - i
        t = E.cur.draw('choice_%d' % m, 'I', 0, m - 1)
        ts.append(t)
    _event('choice', ts, shape, I64)
    idx = []
    left = list(range(len(pop)))
    for t in ts:
        if rep:
            k = None
            if all(is_scalar(x) for x in pop):
                idx.append(('sym', t))
                continue
            k = E.concretise(t, 'choice')
        else:
            # without replacement: the events are ranks among the remaining items
            k = None
            for j in range(len(left)):
                if j == len(left) - 1 or E.decide(tm.eq(t, tm.intc(j)), 'choice'):
                    k = left[j]
                    del left[j]
                    break
        idx.append(('con', k))
    vals = []
    for how, k in idx:
        vals.append(pop[k] if how == 'con' else V.getitem(asarray(pop), box(_unc(k), WI)))
    if shape == ():
        return vals[0]
    r = asarray(vals) if vals else SA(np.empty(0, dtype=object), asarray(pop).dtype if pop else I64)
    return SA(r.data.reshape(shape), r.dtype)


def force_list_(x):
    return V.force_list(x)


def _perm_order(n):
    ts = [E.cur.draw('perm_%d' % (n - i), 'I', 0, n - i - 1) for i in range(n - 1)]
    _event('perm', ts, (n,), I64)
    left = list(range(n))
    out = []
    for i in range(n - 1):
        for j in range(len(left)):
            if j == len(left) - 1 or E.decide(tm.eq(ts[i], tm.intc(j)), 'permutation'):
                out.append(left[j])
                del left[j]
                break
    return out + left


@model(np.random.permutation)
def _permutation(x):
    if is_scalar(x):
        return asarray([i for i in _perm_order(_int(x))], I64)
    if isinstance(x, (list, tuple)):
        o = _perm_order(len(x))
        if all(is_scalar(y) for y in x) and len(x):
            return asarray([x[i] for i in o])
        return [x[i] for i in o]
    x = sarr(x)
    return SA(x.data[_perm_order(x.data.shape[0])], x.dtype)


@model(np.random.shuffle)
def _shuffle(x):
    E.require_guard('shuffle')
    o = _perm_order(len(x))
    if isinstance(x, list):
        x[:] = [x[i] for i in o]
    else:
        x.data[:] = x.data[o]


@model(np.random.seed)
def _seed(a=None):
    E.require_guard('seed')
    try:
        E.cur.seed(None if a is None else _const_int(a))
    except Unsupported:
        E.cur.seed(None)
    return None


def _is_const(a):
    t = elem(a)[0]
    return type(t) is not tm.T or t.op == 'const'


def _const_int(a):
    t = elem(a)[0]
    if type(t) is tm.T:
        if t.op != 'const':
            raise Unsupported('seed')
        t = t.v
    return int(t)


@model(np.random.randn, np.random.normal, np.random.standard_normal, np.random.poisson, np.random.gamma, np.random.beta)
def _nodist(*a, **k):
    raise Unsupported('random distribution')


# ------------------------------------------------------------------ ndarray methods
@method('copy', '__copy__', '__deepcopy__')
def _mcopy(a, *x, **k):
    return SA(a.data.copy(), a.dtype)


@method('astype')
def _mastype(a, dtype, copy=True, **k):
    return astype(a, dtype)


@method('transpose')
def _mtranspose(a, *axes):
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
        axes = tuple(axes[0])
    if axes == (None,):
        axes = ()
    return SA(a.data.transpose(*[_int(x) for x in axes]), a.dtype, a.ro)


@method('reshape')
def _mreshape(a, *shape, **k):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return SA(a.data.reshape([_int(x) for x in shape]), a.dtype, a.ro)


@method('flatten')
def _mflatten(a, *x):
    return SA(a.data.flatten(), a.dtype)


@method('ravel')
def _mravel(a, *x):
    return SA(a.data.ravel(), a.dtype, a.ro)


@method('squeeze')
def _msqueeze(a, axis=None):
    return SA(a.data.squeeze(axis), a.dtype, a.ro)


@method('tolist')
def _mtolist(a):
    def conv(x):
        if isinstance(x, np.ndarray):
            return [conv(y) for y in x]
        k = kind(a.dtype)
        return box(cast(x, a.dtype, {'b': WB, 'i': WI, 'f': WF}[k]), {'b': WB, 'i': WI, 'f': WF}[k])
    if a.data.ndim == 0:
        return conv(a.data[()])
    return [conv(x) for x in a.data]


@method('item')
def _mitem(a, *i):
    if isinstance(a, SA):
        if i:
            return _mtolist(SA(V._o(a.data[i if not isinstance(i[0], tuple) else i[0]]), a.dtype))
        if a.data.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return _mtolist(SA(a.data.reshape(()), a.dtype))
    return a


@method('nonzero')
def _mnonzero(a):
    return _nonzero(a)


@method('fill')
def _mfill(a, v):
    V.setitem(a, Ellipsis, v)


@method('clip')
def _mclip(a, *x, **k):
    return _clip(a, *x, **k)


@method('repeat')
def _mrepeat(a, n, axis=None):
    return MODELS[id(np.repeat)](a, n, axis=axis)


@method('swapaxes')
def _mswap(a, i, j):
    return SA(a.data.swapaxes(i, j), a.dtype, a.ro)


@method('round')
def _mround(a, decimals=0):
    return _round(a, decimals)


@method('conj', 'conjugate', 'view', 'setflags', 'tobytes', 'byteswap')
def _munsup(*a, **k):
    raise Unsupported('array method')


@method('take')
def _mtake(a, *x, **k):
    return _take(a, *x, **k)


@method('diagonal')
def _mdiag(a):
    return SA(a.data.diagonal(), a.dtype)


@method('trace')
def _mtrace(a):
    return _trace(a)


@method('searchsorted')
def _mss(a, *x, **k):
    return _searchsorted(a, *x, **k)
