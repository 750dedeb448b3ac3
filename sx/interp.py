"""Symbolic interpreter of Python source: predicated execution over the AST of the functions in /repo.

Statements under undecided conditions are executed under a guard (a Boolean term): stores become
if-then-else terms, loops with symbolic bounds are unrolled with guarded iterations, early exits
accumulate in guards.  Where merging is impossible the path is forked instead (engine.decide).
"""
import ast
import builtins
import copy as _copymod
import functools
import inspect
import itertools
import math
import operator
import os
import types

import numpy as np

from . import engine as E
from . import terms as tm
from . import vals as V
from . import npm
from . import solver as S
from .engine import Unsupported
from .terms import TRUE, FALSE, and_, not_, or_
from .vals import (SA, SV, MSel, CondList, elem, box, is_scalar, kind, WB, WI, WF, BOOL, tB, tI, tR, binop, unop,
                   merge_values, CannotMerge, truth, asarray, _unb, _unc)

ROOTS = []            # directories whose functions are interpreted
encoded = {}          # (file, qualname) -> number of times interpreted
native_seen = {}      # native functions executed on concrete values
HOOKS = {}            # id(function) -> replacement (stubs declared by harnesses)
_MISSING = object()


class _Undef(object):
    def __repr__(self):
        return '<undefined>'


UNDEF = _Undef()


class Phi(object):
    __slots__ = ('g', 'new', 'old')

    def __init__(self, g, new, old):
        self.g = g
        self.new = new
        self.old = old


class EagerGen(list):
    """result of a generator expression, evaluated eagerly"""

    def __next__(self):
        if not self:
            raise StopIteration
        return self.pop(0)


class Frame(object):
    __slots__ = ('vars', 'glob', 'parent', 'cells', 'outer', 'rel', 'exits', 'fn', 'cls', 'globs', 'yields')

    def __init__(self, fn, glob, parent, cells):
        self.fn = fn
        self.vars = {}
        self.glob = glob
        self.parent = parent
        self.cells = cells
        self.outer = E.cur.guard
        self.rel = TRUE
        self.exits = []
        self.globs = ()
        self.yields = None

    def sync(self):
        E.cur.guard = self.outer if self.rel is TRUE else and_(self.outer, self.rel)


# ------------------------------------------------------------------ locating source
_files = {}


def _index(path):
    st = os.stat(path)
    key = (st.st_mtime_ns, st.st_size)
    hit = _files.get(path)
    if hit is not None and hit[0] == key:
        return hit[1]
    with open(path, 'rb') as f:
        tree = ast.parse(f.read(), path)
    idx = {}
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            line = min([node.lineno] + [d.lineno for d in node.decorator_list])
            idx.setdefault((line, node.name), []).append(node)
            idx.setdefault((node.lineno, node.name), []).append(node)
        elif isinstance(node, ast.Lambda):
            idx.setdefault((node.lineno, '<lambda>'), []).append(node)
    _files[path] = (key, idx)
    return idx


def node_of(f):
    code = f.__code__
    path = code.co_filename
    cand = _index(path).get((code.co_firstlineno, code.co_name))
    if not cand:
        raise Unsupported('no source for %s' % f)
    if len(cand) > 1 and code.co_name == '<lambda>':
        pos = [p for p in code.co_positions() if p[2] is not None and p[0] is not None]
        cols = [(p[0], p[2]) for p in pos[1:]] or [(p[0], p[2]) for p in pos]
        for n in cand:
            b = n.body
            if all((b.lineno, b.col_offset) <= c <= (b.end_lineno, b.end_col_offset) for c in cols):
                return n
    return cand[0]


def in_roots(path):
    return any(path.startswith(r) for r in ROOTS)


def is_repo_fn(f):
    return type(f) is types.FunctionType and in_roots(f.__code__.co_filename)


def is_repo_cls(c):
    m = getattr(c, '__module__', None)
    import sys
    mod = sys.modules.get(m)
    fn = getattr(mod, '__file__', None)
    return bool(fn) and in_roots(fn)


# ------------------------------------------------------------------ functions
class Code(object):
    """compiled form of a FunctionDef / Lambda"""

    def __init__(self, node, filename):
        self.node = node
        self.filename = filename
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.npo = len(a.posonlyargs)
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.name = getattr(node, 'name', '<lambda>')
        self.isgen = False
        if isinstance(node, ast.Lambda):
            self.body = None
            self.expr = cexpr(node.body)
            self.locals = set()
        else:
            self.isgen = _has_yield(node)
            self.body = cblock(node.body)
            self.locals = _assigned(node)
        self.locals |= set(self.pos) | set(self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        # defaults are compiled for nested definitions
        self.defaults = [cexpr(d) for d in a.defaults]
        self.kwdefaults = {x.arg: cexpr(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}


def _has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _assigned(node):
    out = set()
    glob = set()
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            todo.extend(n.decorator_list)
            continue
        elif isinstance(n, ast.Lambda):
            continue
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # own scope, except walrus
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            todo.append(n.generators[0].iter)
            continue
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return out - glob


_codes = {}


def code_for(node, filename):
    c = _codes.get(id(node))
    if c is None:
        c = Code(node, filename)
        _codes[id(node)] = c
    return c


class InterpFunction(object):
    def __init__(self, code, glob, parent, cells, defaults, kwdefaults, cls=None):
        self.code = code
        self.glob = glob
        self.parent = parent
        self.cells = cells
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.__name__ = code.name
        self.__doc__ = None
        self.__module__ = glob.get('__name__')

    def __call__(self, *a, **k):
        return run_function(self, a, k)

    def __get__(self, obj, typ=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __repr__(self):
        return '<interpreted %s>' % self.__name__


_wrapped = {}


def wrap_function(f):
    r = _wrapped.get(id(f))
    if r is not None and r[0] is f:
        return r[1]
    node = node_of(f)
    code = code_for(node, f.__code__.co_filename)
    cells = dict(zip(f.__code__.co_freevars, f.__closure__ or ()))
    fn = InterpFunction(code, f.__globals__, None, cells, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}))
    fn.qual = f.__qualname__
    _wrapped[id(f)] = (f, fn)
    return fn


depth = [0]


def run_function(fn, args, kw):
    code = fn.code
    fr = Frame(fn, fn.glob, fn.parent, fn.cells)
    fr.cls = fn.cls
    _bind(fr, fn, code, args, kw)
    key = (code.filename, getattr(fn, 'qual', code.name))
    encoded[key] = encoded.get(key, 0) + 1
    depth[0] += 1
    if depth[0] > 200:
        depth[0] = 0
        raise RecursionError('maximum recursion depth exceeded')
    outer = fr.outer
    try:
        if code.body is None:
            return code.expr(fr)
        if code.isgen:
            fr.yields = []
        code.body(fr)
    finally:
        depth[0] -= 1
    E.cur.guard = outer
    if fr.yields is not None:
        if all(g is TRUE for g, _ in fr.yields):
            return EagerGen(v for _, v in fr.yields)
        return CondList(fr.yields)
    rets = [(g, v) for k, g, v in fr.exits if k == 'return']
    if not rets:
        return None
    if fr.rel is not FALSE and and_(outer, fr.rel) is not FALSE:
        rets.append((fr.rel, None))
    if len(rets) == 1:
        return rets[0][1]
    if all(v is None for _, v in rets):
        return None
    r = rets[-1][1]
    for g, v in reversed(rets[:-1]):
        if v is r:
            continue
        try:
            if isinstance(v, (SA, MSel, CondList)) or isinstance(r, (SA, MSel, CondList)):
                raise CannotMerge()
            r = merge_values(E.cur.simp(g), v, r)
        except CannotMerge:
            # fork over which return statement was reached
            for g2, v2 in rets[:-1]:
                if E.decide(g2, 'return'):
                    return v2
            return rets[-1][1]
    return r


def _bind(fr, fn, code, args, kw):
    vs = fr.vars
    args = tuple(args)
    kw = dict(kw)
    n = len(code.pos)
    if len(args) > n and code.vararg is None:
        raise TypeError('%s() takes %d positional arguments but %d were given' % (code.name, n, len(args)))
    for name, a in zip(code.pos, args):
        vs[name] = a
    if code.vararg is not None:
        vs[code.vararg] = args[n:]
    for name in code.pos[len(args):]:
        if name in kw:
            vs[name] = kw.pop(name)
    nd = len(fn.defaults)
    for i, name in enumerate(code.pos):
        if name not in vs:
            j = i - (n - nd)
            if j < 0:
                raise TypeError('%s() missing required argument: %r' % (code.name, name))
            vs[name] = fn.defaults[j]
        elif name in kw and i < len(args):
            raise TypeError('%s() got multiple values for argument %r' % (code.name, name))
    for name in code.kwonly:
        if name in kw:
            vs[name] = kw.pop(name)
        elif name in fn.kwdefaults:
            vs[name] = fn.kwdefaults[name]
        else:
            raise TypeError('%s() missing keyword-only argument %r' % (code.name, name))
    if code.kwarg is not None:
        vs[code.kwarg] = kw
    elif kw:
        raise TypeError('%s() got an unexpected keyword argument %r' % (code.name, next(iter(kw))))


# ------------------------------------------------------------------ variables
def resolve(fr, ph, store=None):
    """value of a Phi under the current guard"""
    g = E.cur.guard
    while type(ph) is Phi:
        c = E.cur.simp(ph.g)
        if c is TRUE or and_(g, not_(c)) is FALSE:
            ph = ph.new
            if c is not TRUE:
                store = None        # only valid under this guard
            continue
        if c is FALSE or and_(g, c) is FALSE:
            ph = ph.old
            if c is not FALSE:
                store = None
            continue
        break
    if type(ph) is not Phi:
        return ph
    c = E.cur.simp(ph.g)
    r, undef = resolve_total(ph)
    if undef is not FALSE and r is not UNDEF and r is not _MISSING:
        u = E.cur.simp(and_(g, undef))
        if u is not FALSE and S.feasible(E.cur.pc + [u]):
            if E.decide(undef, 'defined'):
                return UNDEF
            g = E.cur.guard
    if r is UNDEF:
        return UNDEF
    if r is _MISSING:
        if E.decide(c, 'variable'):
            return resolve(fr, ph.new)
        return resolve(fr, ph.old)
    if store is not None and is_scalar(r):
        store(r if undef is FALSE else Phi(not_(undef), r, UNDEF))
    E.counts['merges'] += 1
    return r


def resolve_total(ph):
    """(value valid under every guard where the variable is defined or _MISSING, condition of being undefined)"""
    if type(ph) is not Phi:
        return ph, (TRUE if ph is UNDEF else FALSE)
    c = E.cur.simp(ph.g)
    if c is TRUE:
        return resolve_total(ph.new)
    if c is FALSE:
        return resolve_total(ph.old)
    a, ua = resolve_total(ph.new)
    b, ub = resolve_total(ph.old)
    if a is _MISSING or b is _MISSING:
        return _MISSING, FALSE
    undef = or_(and_(c, ua), and_(not_(c), ub))
    if a is UNDEF or b is UNDEF:
        return (b if a is UNDEF else a), undef
    if isinstance(a, (SA, MSel, CondList)) and a is not b:
        return _MISSING, FALSE
    try:
        return merge_values(c, a, b), undef
    except CannotMerge:
        return _MISSING, FALSE


def assign(fr, name, v):
    if name in fr.globs:
        k = fr.globs[name]
        if k == 'global':
            E.require_guard('global store')
            fr.glob[name] = v
            return
        if k is None:
            E.require_guard('nonlocal store')
            fr.cells[name].cell_contents = v
            return
        k.vars[name] = v if k.rel is TRUE and fr.rel is TRUE and E.cur.simp(E.cur.guard) is TRUE else \
            Phi(E.cur.guard, v, k.vars.get(name, UNDEF))
        return
    vs = fr.vars
    if fr.rel is TRUE:
        vs[name] = v
        return
    g = E.cur.simp(fr.rel)
    if g is TRUE:
        vs[name] = v
        return
    vs[name] = Phi(g, v, vs.get(name, UNDEF))


def load(fr, name):
    f = fr
    while f is not None:
        v = f.vars.get(name, _MISSING)
        if v is not _MISSING:
            if type(v) is Phi:
                vs = f.vars

                def st(r, vs=vs):
                    vs[name] = r
                v = resolve(f, v, st)
            if v is UNDEF:
                raise UnboundLocalError("cannot access local variable '%s' where it is not associated with a value" % name)
            return v
        if f is fr and name in f.fn.code.locals and name not in f.globs:
            raise UnboundLocalError("cannot access local variable '%s' where it is not associated with a value" % name)
        if f.cells is not None and name in f.cells:
            try:
                return f.cells[name].cell_contents
            except ValueError:
                raise NameError("cannot access free variable '%s'" % name)
        f = f.parent
    g = fr.glob
    if name in g:
        return g[name]
    b = g.get('__builtins__', builtins)
    b = b if isinstance(b, dict) else b.__dict__
    if name in b:
        return b[name]
    raise NameError("name '%s' is not defined" % name)


# ------------------------------------------------------------------ expressions
_OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
        ast.Pow: 'pow', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'lshift',
        ast.RShift: 'rshift', ast.MatMult: 'matmul'}
_PYOP = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv,
         'floordiv': operator.floordiv, 'mod': operator.mod, 'pow': operator.pow, 'and': operator.and_,
         'or': operator.or_, 'xor': operator.xor, 'lshift': operator.lshift, 'rshift': operator.rshift,
         'matmul': operator.matmul, 'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le,
         'gt': operator.gt, 'ge': operator.ge}
_INPLACE = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'and': operator.iand,
            'or': operator.ior, 'xor': operator.ixor}
_CMPN = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
_NATIVE_INT = (int, bool, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64, np.bool_)
_NI = set(_NATIVE_INT)


def do_binop(op, a, b):
    ta, tb = type(a), type(b)
    if ta in _NI and tb in _NI and op not in ('div', 'pow'):
        if op in ('floordiv', 'mod') or op == 'lshift':
            if b == 0 or (op == 'lshift'):
                pass
        return _PYOP[op](a, b)
    if isinstance(a, (str, bytes)):
        if op == 'mod':
            return str_format(a, b)
        return _PYOP[op](a, b)
    if ta in (list, tuple, EagerGen) or tb in (list, tuple, EagerGen):
        arrlike = (SA, MSel, np.ndarray, np.generic)
        if not (isinstance(a, arrlike) or isinstance(b, arrlike)) or (op == 'mul' and not isinstance(a, (SA, np.ndarray)) and not isinstance(b, (SA, np.ndarray))):
            if op == 'mul':
                if type(b) is SV:
                    b = b.__index__()
                if type(a) is SV:
                    a = a.__index__()
            if op in ('eq', 'ne'):
                r = deep_eq(a, b)
                return r if op == 'eq' else neg_bool(r)
            return _PYOP[op](a, b)
    if isinstance(a, CondList) or isinstance(b, CondList):
        if op == 'add':
            return CondList(cond_items(a) + cond_items(b))
        if isinstance(a, CondList):
            a = V.force_list(a)
        if isinstance(b, CondList):
            b = V.force_list(b)
        return do_binop(op, a, b)
    if isinstance(a, V.SSet) or isinstance(b, V.SSet):
        if all(isinstance(x, (V.SSet, set, frozenset)) for x in (a, b)):
            if op in ('le', 'lt', 'ge', 'gt', 'eq', 'ne'):
                return npm.set_op(op, a, b)
            raise Unsupported('set operation on symbolic values')
        if op in ('eq', 'ne'):
            return op == 'ne'
        raise TypeError('unsupported operand type(s) for a set')
    if isinstance(a, V.USet):
        a = a.force()
    if isinstance(b, V.USet):
        b = b.force()
    if op == 'matmul':
        return npm.MODELS[id(np.matmul)](a, b)
    if (is_scalar(a) or isinstance(a, (SA, MSel, np.ndarray))) and (is_scalar(b) or isinstance(b, (SA, MSel, np.ndarray))):
        return binop(op, a, b)
    if (isinstance(a, (SA, MSel, np.ndarray)) and isinstance(b, (list, tuple, range))) or \
            (isinstance(b, (SA, MSel, np.ndarray)) and isinstance(a, (list, tuple, range))):
        return binop(op, a, b)
    if op in ('eq', 'ne') and (a is None or b is None or isinstance(a, (str, type)) or isinstance(b, (str, type))):
        if isinstance(a, (SA, SV, MSel)) or isinstance(b, (SA, SV, MSel)):
            return op == 'ne'
    if op in ('eq', 'ne') and (isinstance(a, (SV, SA)) != isinstance(b, (SV, SA))):
        # scalar against an arbitrary object
        return op == 'ne'
    m = getattr(type(a), '__%s__' % _DUNDER[op], None)
    if m is not None and is_repo_fn(m):
        return call(m, (a, b), {})
    return _PYOP[op](a, b)


_DUNDER = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'div': 'truediv', 'floordiv': 'floordiv', 'mod': 'mod',
           'pow': 'pow', 'and': 'and', 'or': 'or', 'xor': 'xor', 'lshift': 'lshift', 'rshift': 'rshift',
           'matmul': 'matmul', 'eq': 'eq', 'ne': 'ne', 'lt': 'lt', 'le': 'le', 'gt': 'gt', 'ge': 'ge'}


def cond_items(x):
    if isinstance(x, CondList):
        return list(x.items)
    return [(TRUE, v) for v in x]


def neg_bool(r):
    if r is True or r is False:
        return not r
    return box(_unb(not_(truth(r))), WB)


def deep_eq(a, b):
    """== of Python containers with symbolic leaves"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
            return False
        ts = []
        for x, y in zip(a, b):
            if x is y:
                continue
            r = deep_eq(x, y)
            t = truth(r)
            if t is FALSE:
                return False
            ts.append(t)
        return box(_unb(and_(*ts)), WB)
    return do_binop('eq', a, b)


def has_sym(x, d=0):
    if isinstance(x, SV):
        return x.t.op != 'const'
    if isinstance(x, SA):
        return not x.concrete()
    if isinstance(x, (MSel, CondList, V.USet)):
        return True
    if isinstance(x, (list, tuple, set, frozenset)) and d < 6:
        return any(has_sym(y, d + 1) for y in x)
    if isinstance(x, dict) and d < 6:
        return any(has_sym(y, d + 1) for y in x.values()) or any(has_sym(y, d + 1) for y in x.keys())
    return False


def has_sx(x, d=0):
    if isinstance(x, (SV, SA, MSel, CondList, V.USet)):
        return True
    if isinstance(x, (list, tuple, set, frozenset)) and d < 6:
        return any(has_sx(y, d + 1) for y in x)
    if isinstance(x, dict) and d < 6:
        return any(has_sx(y, d + 1) for y in x.values())
    return False


def to_native(x, arrs=None):
    if isinstance(x, SV):
        v = float(x.t.v) if x.t.sort == 'R' else x.t.v
        return v if V.weak(x.dt) else x.dt.type(v)
    if isinstance(x, SA):
        if x.dtype.kind == 'O':
            return x.data
        a = V.np_value(x)
        if arrs is not None:
            arrs.append((x, a, a.copy()))
        return a
    if isinstance(x, list):
        if not has_sx(x):
            return x
        return [to_native(y, arrs) for y in x]
    if isinstance(x, tuple):
        if not has_sx(x):
            return x
        return tuple(to_native(y, arrs) for y in x)
    if isinstance(x, dict):
        if not has_sx(x):
            return x
        return {k: to_native(v, arrs) for k, v in x.items()}
    return x


def from_native(x):
    if type(x) is np.ndarray:
        r = V.from_ndarray(x)
        return x if r is None else r
    if type(x) is tuple and any(type(y) is np.ndarray for y in x):
        return tuple(from_native(y) for y in x)
    if type(x) is list and any(type(y) is np.ndarray for y in x):
        return [from_native(y) for y in x]
    return x


class _Dummy(object):
    """text of a symbolic value"""

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'


def str_format(fmt, args):
    if has_sym(args):
        return fmt
    return fmt % (to_native(args) if not isinstance(args, SV) else to_native(args))


def cexpr(node):
    return _EXPR[type(node)](node)


_EXPR = {}


def expr(t):
    def deco(f):
        _EXPR[t] = f
        return f
    return deco


@expr(ast.Constant)
def _c_const(n):
    v = n.value
    if type(v) is float and math.isfinite(v):
        def f(fr):
            return SV(tm.realc(V.rational(v)), WF)
        return f
    return lambda fr: v


@expr(ast.Name)
def _c_name(n):
    name = n.id

    def f(fr):
        v = fr.vars.get(name, _MISSING)
        if v is _MISSING or type(v) is Phi or v is UNDEF:
            return load(fr, name)
        return v
    return f


@expr(ast.BinOp)
def _c_bin(n):
    a, b, op = cexpr(n.left), cexpr(n.right), _OPS[type(n.op)]
    return lambda fr: do_binop(op, a(fr), b(fr))


@expr(ast.UnaryOp)
def _c_un(n):
    a = cexpr(n.operand)
    if isinstance(n.op, ast.Not):
        def f(fr):
            v = a(fr)
            if v is True or v is False:
                return not v
            return box(_unb(not_(truth_of(v))), WB)
        return f
    op = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'inv'}[type(n.op)]
    py = {'neg': operator.neg, 'pos': operator.pos, 'inv': operator.invert}[op]

    def g(fr):
        v = a(fr)
        if type(v) in _NI:
            return py(v)
        if is_scalar(v) or isinstance(v, (SA, MSel, np.ndarray)):
            return unop(op, V.lift(v))
        if isinstance(v, CondList):
            return unop(op, v.msel())
        return py(v)
    return g


def truth_of(v):
    """Bool term for the truth value of any object"""
    if v is True:
        return TRUE
    if v is False or v is None:
        return FALSE
    if isinstance(v, np.ndarray):
        return tm.boolc(bool(v))
    t = type(v)
    if t is SV or t in (SA, MSel, CondList):
        return truth(v)
    for nm in ('__bool__', '__len__'):
        m = getattr(t, nm, None)
        if m is not None and (is_repo_fn(m)):
            return truth(call(m, (v,), {}))
    if t is V.USet:
        return tm.boolc(v.a.data.size > 0)
    return tm.boolc(bool(v))


def under(g, thunk):
    """evaluate thunk under an additional guard"""
    saved = E.cur.guard
    E.cur.guard = and_(saved, g)
    r = thunk()
    E.cur.guard = saved
    return r


@expr(ast.BoolOp)
def _c_bool(n):
    vs = [cexpr(v) for v in n.values]
    isand = isinstance(n.op, ast.And)

    def f(fr):
        saved = E.cur.guard
        frel = fr.rel
        acc = []          # (condition under which evaluation stops here, value)
        g = TRUE
        for i, v in enumerate(vs):
            x = v(fr)
            if i == len(vs) - 1:
                break
            t = E.cur.simp(truth_of(x))
            if t is TRUE or and_(E.cur.guard, not_(t)) is FALSE:
                if isand:
                    continue
                break
            if t is FALSE or and_(E.cur.guard, t) is FALSE:
                if isand:
                    break
                continue
            stop = not_(t) if isand else t
            acc.append((stop, x))
            fr.rel = and_(fr.rel, not_(stop))
            E.cur.guard = and_(E.cur.guard, not_(stop))
        E.cur.guard = saved
        fr.rel = frel
        for stop, y in reversed(acc):
            x = _merge_bool(stop, y, x, isand)
        return x
    return f


def _merge_bool(c, a, b, isand):
    """a where c (a is falsy there for `and`, truthy for `or`), else b"""
    try:
        if is_scalar(a) and is_scalar(b):
            da, db = elem(a)[1], elem(b)[1]
            if kind(da) == 'b' and kind(db) == 'b' and da != db:
                # Python bool / numpy bool mixtures: only the truth value matters
                ta, tb = truth(a), truth(b)
                return box(_unb(tm.ite(c, ta, tb)), BOOL)
        return merge_values(c, a, b)
    except CannotMerge:
        if is_scalar(a) and is_scalar(b):
            return box(_unb(tm.ite(c, truth(a), truth(b))), BOOL) if False else (a if E.decide(c, 'and/or') else b)
        return a if E.decide(c, 'and/or') else b


@expr(ast.IfExp)
def _c_ifexp(n):
    t, a, b = cexpr(n.test), cexpr(n.body), cexpr(n.orelse)

    def f(fr):
        c = E.cur.simp(truth_of(t(fr)))
        if c is TRUE:
            return a(fr)
        if c is FALSE:
            return b(fr)
        g = E.cur.guard
        if and_(g, not_(c)) is FALSE:
            return a(fr)
        if and_(g, c) is FALSE:
            return b(fr)
        frel = fr.rel
        fr.rel = and_(frel, c)
        x = under(c, lambda: a(fr))
        fr.rel = and_(frel, not_(c))
        y = under(not_(c), lambda: b(fr))
        fr.rel = frel
        try:
            if isinstance(x, (SA, MSel, CondList)) or isinstance(y, (SA, MSel, CondList)):
                raise CannotMerge()
            return merge_values(c, x, y)
        except CannotMerge:
            return x if E.decide(c, 'conditional expression') else y
    return f


def contains(x, c):
    """x in c"""
    if isinstance(c, V.USet):
        return box(_unb(c.contains(x)), WB)
    if isinstance(c, (SA, np.ndarray)):
        r = do_binop('eq', c, x)
        if isinstance(r, SA):
            return box(_unb(or_(*[tB(e) for e in r.data.reshape(-1)])), BOOL)
        return r
    if isinstance(c, MSel):
        e = elem(x)[0]
        return box(_unb(or_(*[and_(g, tB(V.e_cmp(operator.eq, y, e))) for g, y in c.items()])), WB)
    if isinstance(c, CondList):
        return box(_unb(or_(*[and_(g, truth_of(do_binop('eq', x, y))) for g, y in c.items])), WB)
    if isinstance(c, (str, bytes)):
        return x in c
    if isinstance(c, range) and isinstance(x, SV):
        return box(_unb(or_(*[tm.eq(tI(x.t), tm.intc(k)) for k in c])), WB)
    if isinstance(c, (list, tuple, set, frozenset)) or type(c).__name__ in ('dict_keys', 'dict_values'):
        ts = []
        if isinstance(c, (set, frozenset)) and not isinstance(x, SV) and not any(isinstance(y, SV) for y in c):
            return x in c
        for y in c:
            if y is x:
                return True
            t = truth_of(do_binop('eq', x, y) if not isinstance(x, (list, tuple)) else deep_eq(x, y))
            if t is TRUE:
                return True
            ts.append(t)
        return box(_unb(or_(*ts)), WB)
    if isinstance(c, dict):
        if isinstance(x, SV):
            return box(_unb(or_(*[truth_of(do_binop('eq', x, y)) for y in c])), WB)
        return x in c
    m = getattr(type(c), '__contains__', None)
    if m is not None and is_repo_fn(m):
        return call(m, (c, x), {})
    return x in c


def compare(op, a, b):
    k = _CMPN.get(type(op))
    if k is not None:
        return do_binop(k, a, b)
    if isinstance(op, (ast.Is, ast.IsNot)):
        if isinstance(a, SV) or isinstance(b, SV):
            if isinstance(a, SV) and isinstance(b, SV):
                r = a is b
            else:
                s, o = (a, b) if isinstance(a, SV) else (b, a)
                if (o is True or o is False) and s.dt is WB:
                    t = s.t if o else not_(s.t)
                    r = box(_unb(t), WB)
                else:
                    r = False
        else:
            r = a is b
        return r if isinstance(op, ast.Is) else neg_bool(r)
    r = contains(a, b)
    return r if isinstance(op, ast.In) else neg_bool(r)


@expr(ast.Compare)
def _c_cmp(n):
    left = cexpr(n.left)
    rest = [(op, cexpr(c)) for op, c in zip(n.ops, n.comparators)]
    if len(rest) == 1:
        op, r = rest[0]
        k = _CMPN.get(type(op))
        if k is not None:
            return lambda fr: do_binop(k, left(fr), r(fr))
        return lambda fr: compare(op, left(fr), r(fr))

    def f(fr):
        saved, frel = E.cur.guard, fr.rel
        a = left(fr)
        acc = []
        x = None
        for i, (op, r) in enumerate(rest):
            b = r(fr)
            x = compare(op, a, b)
            a = b
            if i == len(rest) - 1:
                break
            t = E.cur.simp(truth_of(x))
            if t is TRUE:
                continue
            if t is FALSE:
                break
            acc.append((not_(t), x))
            fr.rel = and_(fr.rel, t)
            E.cur.guard = and_(E.cur.guard, t)
        E.cur.guard, fr.rel = saved, frel
        for stop, y in reversed(acc):
            x = _merge_bool(stop, y, x, True)
        return x
    return f


@expr(ast.Tuple)
def _c_tuple(n):
    return _seq(n.elts, tuple)


@expr(ast.List)
def _c_list(n):
    return _seq(n.elts, list)


@expr(ast.Set)
def _c_set(n):
    return _seq(n.elts, set)


def _seq(elts, typ):
    if not any(isinstance(e, ast.Starred) for e in elts):
        es = [cexpr(e) for e in elts]
        if typ is list:
            return lambda fr: [e(fr) for e in es]
        return lambda fr: typ([e(fr) for e in es])
    es = [(isinstance(e, ast.Starred), cexpr(e.value if isinstance(e, ast.Starred) else e)) for e in elts]

    def f(fr):
        out = []
        for star, e in es:
            if star:
                out.extend(iterate(e(fr)))
            else:
                out.append(e(fr))
        return typ(out)
    return f


@expr(ast.Dict)
def _c_dict(n):
    ks = [(cexpr(k) if k is not None else None, cexpr(v)) for k, v in zip(n.keys, n.values)]

    def f(fr):
        d = {}
        for k, v in ks:
            if k is None:
                d.update(v(fr))
            else:
                d[native_key(k(fr))] = v(fr)
        return d
    return f


def native_key(k):
    if isinstance(k, SV):
        if kind(k.dt) == 'f':
            return float(k)
        if kind(k.dt) == 'b':
            return E.decide(truth(k), 'key')
        return E.concretise(tI(k.t), 'key')
    if isinstance(k, tuple):
        return tuple(native_key(x) for x in k)
    return k


@expr(ast.Attribute)
def _c_attr(n):
    v, name = cexpr(n.value), n.attr
    return lambda fr: getattr_(v(fr), name)


class SAMethod(object):
    __slots__ = ('obj', 'name', 'fn')

    def __init__(self, obj, name, fn):
        self.obj, self.name, self.fn = obj, name, fn

    def __call__(self, *a, **k):
        return self.fn(self.obj, *a, **k)


class UfuncMethod(object):
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


class ModelFn(object):
    """callable wrapper for a modelled builtin method"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


_UF = {np.add: 'add', np.subtract: 'sub', np.multiply: 'mul', np.divide: 'div', np.logical_and: 'land',
       np.logical_or: 'lor', np.maximum: 'max', np.minimum: 'min', np.logical_xor: 'lxor', np.bitwise_and: 'and',
       np.bitwise_or: 'or', np.bitwise_xor: 'xor', np.equal: 'eq', np.not_equal: 'ne', np.less: 'lt',
       np.less_equal: 'le', np.greater: 'gt', np.greater_equal: 'ge', np.power: 'pow'}


def getattr_(o, name):
    t = type(o)
    if t is SA or t is MSel:
        if name in npm.METHODS:
            return SAMethod(o, name, npm.METHODS[name])
        if name == 'data' and t is SA:
            raise Unsupported('ndarray.data')
        if name in ('shape', 'ndim', 'size', 'dtype', 'T', 'flat', 'nbytes', 'itemsize', 'real') and hasattr(o, name):
            return getattr(o, name)
        if t is MSel:
            return getattr_(V.force(o), name)
        if name == '__len__':
            return ModelFn(lambda: len(o))
        if hasattr(np.ndarray, name):
            raise Unsupported('ndarray.%s' % name)
        raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % name)
    if t is SV or isinstance(o, np.generic) and not isinstance(o, (np.str_, np.void)):
        if name in ('shape', 'ndim', 'size', 'dtype', 'T', 'real', 'itemsize', 'nbytes'):
            if t is SV and V.weak(o.dt) and name != 'real':
                raise AttributeError("'%s' object has no attribute '%s'" % (type(V._REP[o.dt]).__name__, name))
            return getattr(o, name)
        if t is SV and V.weak(o.dt):
            if name in ('conjugate', 'is_integer', 'as_integer_ratio', 'bit_length', 'hex'):
                raise Unsupported(name)
            raise AttributeError("'%s' object has no attribute '%s'" % (type(V._REP[o.dt]).__name__, name))
        if name in npm.METHODS:
            e, d = elem(o)
            z = SA(V._o(e), d)
            return SAMethod(z, name, lambda self, *a, **k: _scal(npm.METHODS[name](self, *a, **k)))
        if t is SV:
            raise Unsupported('scalar attribute %s' % name)
        return getattr(o, name)
    if t is CondList:
        if name == 'append':
            return ModelFn(lambda v: o.items.append((E.cur.guard, v)))
        if name in ('extend', 'count', 'index', 'sort', 'reverse', 'copy', 'insert', 'pop', 'remove'):
            raise Unsupported('conditional list.%s' % name)
        raise AttributeError(name)
    if t is V.USet:
        if name == 'force':
            raise AttributeError(name)
        if isinstance(o, V.SSet):
            if name in ('issubset', 'issuperset'):
                return ModelFn(lambda x: npm.set_op('le' if name == 'issubset' else 'ge', o, list(iterate(x)) if not isinstance(x, V.USet) else x))
            raise Unsupported('set.%s of symbolic values' % name)
        return getattr_(o.force(), name)
    if t is list or t is EagerGen:
        if name in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
            return ModelFn(functools.partial(list_mut, o, name))
        if name in ('count', 'index') and has_sx(o):
            raise Unsupported('list.%s' % name)
        return getattr(o, name)
    if t is dict and name in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
        m = getattr(o, name)

        def mut(*a, **k):
            E.require_guard('dict.' + name)
            return m(*[native_key(x) if i == 0 and name != 'update' else x for i, x in enumerate(a)], **k)
        return ModelFn(mut)
    if t is dict and name == 'get':
        return ModelFn(lambda k, d=None: o.get(native_key(k), d))
    if t is set and name in ('add', 'update', 'discard', 'remove', 'clear', 'pop'):
        m = getattr(o, name)

        def smut(*a):
            E.require_guard('set.' + name)
            return m(*[native_key(x) if name != 'update' else [native_key(y) for y in iterate(x)] for x in a])
        return ModelFn(smut)
    if t is str:
        if name == 'format':
            def fmt(*a, **k):
                if has_sym(a) or has_sym(k):
                    return o
                return o.format(*[to_native(x) for x in a], **{kk: to_native(v) for kk, v in k.items()})
            return ModelFn(fmt)
        return getattr(o, name)
    if isinstance(o, np.ufunc):
        if name == 'reduce':
            return UfuncMethod(npm._ufunc_reduce(_ufname(o)))
        if name == 'outer':
            return UfuncMethod(npm._ufunc_outer(_ufname(o)))
        return getattr(o, name)
    if isinstance(o, types.ModuleType) or isinstance(o, type):
        return getattr(o, name)
    # instances: properties and methods of repo classes are interpreted
    d = None
    for c in t.__mro__:
        if name in c.__dict__:
            d = c.__dict__[name]
            break
    if isinstance(d, property) and d.fget is not None and is_repo_fn(d.fget):
        return call(d.fget, (o,), {})
    if isinstance(d, functools.cached_property) and is_repo_fn(d.func):
        if name not in o.__dict__:
            o.__dict__[name] = call(d.func, (o,), {})
        return o.__dict__[name]
    if isinstance(d, InterpFunction):
        return types.MethodType(d, o)
    inst = getattr(o, '__dict__', None)
    if inst is not None and name in inst:
        v = inst[name]
        if type(v) is Phi:
            return resolve(None, v, None)
        return v
    if d is None:
        for c in t.__mro__:
            g = c.__dict__.get('__getattr__')
            if g is not None and is_repo_fn(g):
                return call(g, (o, name), {})
    return getattr(o, name)


def _ufname(o):
    n = _UF.get(o)
    if n is None:
        raise Unsupported('ufunc %s' % o)
    return n


def _scal(r):
    if isinstance(r, SA) and r.data.ndim == 0:
        return box(r.data[()], r.dtype)
    return r


def list_mut(l, name, *a, **k):
    if name == 'append' or name == 'extend' or name == 'insert' or name == 'pop' or name == 'remove' or \
            name == 'reverse' or name == 'clear':
        E.require_guard('list.' + name)
        if name == 'extend':
            return l.extend(iterate(a[0]))
        if name == 'pop' and a and isinstance(a[0], SV):
            a = (a[0].__index__(),)
        if name == 'remove' and (has_sx(l) or has_sx(a)):
            for i, y in enumerate(l):
                if y is a[0] or E.decide(truth_of(do_binop('eq', y, a[0])), 'remove'):
                    del l[i]
                    return None
            raise ValueError('list.remove(x): x not in list')
        return getattr(l, name)(*a)
    if name == 'sort':
        E.require_guard('list.sort')
        l[:] = _sorted(l, **k)
        return None


def setattr_(o, name, v):
    t = type(o)
    if t is SA:
        if name == 'shape':
            E.require_guard('shape store')
            o.data = o.data.reshape(v)
            return
        raise Unsupported('store to ndarray.%s' % name)
    for c in t.__mro__:
        if name in c.__dict__:
            d = c.__dict__[name]
            if isinstance(d, property):
                if d.fset is None:
                    raise AttributeError("property '%s' has no setter" % name)
                call(d.fset, (o, v), {})
                return
            break
    g = E.cur.simp(E.cur.guard)
    if g is TRUE:
        setattr(o, name, v)
        return
    inst = getattr(o, '__dict__', None)
    if inst is not None and name in inst:
        old = inst[name]
        if old is v:
            return
        if type(old) is not Phi:
            if is_scalar(old) and is_scalar(v):
                try:
                    inst[name] = V.merge_scalars(g, v, old)
                    return
                except CannotMerge:
                    pass
    E.require_guard('attribute store')
    setattr(o, name, v)


@expr(ast.Subscript)
def _c_sub(n):
    v, s = cexpr(n.value), cindex(n.slice)
    return lambda fr: getitem_(v(fr), s(fr))


def cindex(n):
    if isinstance(n, ast.Slice):
        a, b, c = (cexpr(x) if x is not None else None for x in (n.lower, n.upper, n.step))
        return lambda fr: slice(a(fr) if a else None, b(fr) if b else None, c(fr) if c else None)
    if isinstance(n, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.elts):
        es = [cindex(e) for e in n.elts]
        return lambda fr: tuple(e(fr) for e in es)
    return cexpr(n)


_EXPR[ast.Slice] = cindex


def getitem_(o, i):
    t = type(o)
    if t is SA:
        if type(i) is int:
            try:
                r = o.data[i]
            except IndexError:
                raise
            return SA(r, o.dtype, o.ro) if isinstance(r, np.ndarray) else box(r, o.dtype)
        if type(i) is tuple and all(type(x) is int for x in i):
            r = o.data[i]
            return SA(r, o.dtype, o.ro) if isinstance(r, np.ndarray) else box(r, o.dtype)
        return V.getitem(o, i)
    if t is MSel or t is CondList:
        if t is CondList:
            # k-th present element
            if all(g is TRUE for g, _ in o.items):
                return getitem_([v for _, v in o.items], i)
            return getitem_(V.force_list(o), i)
        if (isinstance(i, SA) and kind(i.dtype) == 'b') or isinstance(i, MSel):
            if isinstance(i, MSel) and kind(i.dtype) == 'b' and i.key == o.key:
                return MSel([and_(g, tB(e)) for g, e in zip(o.guards, i.elems)], o.elems, o.dtype)
        return V.getitem(V.force(o), i)
    if t is V.USet:
        return V.getitem(o.force(), i)
    if isinstance(o, np.ndarray):
        if has_sym(i):
            return V.getitem(V.from_ndarray(o), i)
        return from_native_scalar(o[to_native(i)])
    if isinstance(o, (list, tuple, str, range, EagerGen)):
        if isinstance(i, SV):
            n = len(o)
            ti = tI(i.t)
            if ti.op == 'const':
                return o[ti.v]
            E.may_raise(or_(tm.lt(ti, tm.intc(-n)), tm.le(tm.intc(n), ti)), IndexError('list index out of range'))
            r = None
            first = True
            for k in range(-n, n):
                c = E.cur.simp(tm.eq(ti, tm.intc(k)))
                if c is FALSE:
                    continue
                if first:
                    r, first = o[k], False
                else:
                    try:
                        if isinstance(r, SA) or isinstance(o[k], SA):
                            raise CannotMerge()
                        r = merge_values(c, o[k], r)
                    except CannotMerge:
                        return o[E.concretise(ti, 'list index')]
            if first:
                raise E.Infeasible()
            return r
        if isinstance(i, slice):
            i = slice(*[None if x is None else (x.__index__() if isinstance(x, SV) else x) for x in (i.start, i.stop, i.step)])
        if isinstance(i, SA):
            i = E.concretise(tI(i.data[()]), 'index') if i.data.ndim == 0 else i
        return o[i]
    if isinstance(o, dict):
        i = native_key(i)
        m = o.get(i, _MISSING)
        if m is _MISSING:
            return o[i]
        return resolve(None, m, None) if type(m) is Phi else m
    m = getattr(t, '__getitem__', None)
    if m is not None and is_repo_fn(m):
        return call(m, (o, i), {})
    return from_native(o[to_native(i)])


def from_native_scalar(x):
    return from_native(x)


def setitem_(o, i, v):
    t = type(o)
    if t is SA:
        V.setitem(o, i, v)
        return
    if isinstance(o, np.ndarray):
        if o.dtype.kind != 'O':
            raise Unsupported('store into a native array')
        E.require_guard('object array store')
        o[to_native(i)] = v
        return
    if isinstance(o, (list, dict)):
        if isinstance(o, dict):
            i = native_key(i)
            if isinstance(i, tuple):
                i = native_key(i)
        elif isinstance(i, SV):
            i = i.__index__()
        g = E.cur.simp(E.cur.guard)
        if g is not TRUE:
            old = o[i] if isinstance(o, list) and isinstance(i, int) and -len(o) <= i < len(o) else \
                o.get(i) if isinstance(o, dict) else None
            if old is v:
                return
            if is_scalar(old) and is_scalar(v):
                try:
                    o[i] = V.merge_scalars(g, v, old)
                    return
                except CannotMerge:
                    pass
            E.require_guard('container store')
        if isinstance(i, slice):
            v = list(iterate(v))
        o[i] = v
        return
    m = getattr(t, '__setitem__', None)
    if m is not None and is_repo_fn(m):
        call(m, (o, i, v), {})
        return
    if t in (MSel, CondList):
        raise Unsupported('store into a selection')
    E.require_guard('native item store')
    o[to_native(i)] = to_native(v)


@expr(ast.Call)
def _c_call(n):
    if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
        def sup(fr):
            f = fr
            while f.cls is None and f.parent is not None:
                f = f.parent
            self_ = f.vars[f.fn.code.pos[0]]
            cls = f.cells['__class__'].cell_contents if f.cells and '__class__' in f.cells else f.cls
            return super(cls, self_)
        return sup
    fn = cexpr(n.func)
    args = [(isinstance(a, ast.Starred), cexpr(a.value if isinstance(a, ast.Starred) else a)) for a in n.args]
    kws = [(k.arg, cexpr(k.value)) for k in n.keywords]
    if not kws and not any(s for s, _ in args):
        es = [e for _, e in args]
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'globals', 'vars', 'eval', 'exec') and not es:
            def bad(fr):
                if n.func.id == 'globals':
                    return fr.glob
                raise Unsupported(n.func.id)
            return bad
        return lambda fr: call(fn(fr), [e(fr) for e in es], {})

    def f(fr):
        g = fn(fr)
        a = []
        for star, e in args:
            if star:
                a.extend(iterate(e(fr)))
            else:
                a.append(e(fr))
        k = {}
        for name, e in kws:
            if name is None:
                k.update(e(fr))
            else:
                k[name] = e(fr)
        return call(g, a, k)
    return f


@expr(ast.Lambda)
def _c_lambda(n):
    def f(fr):
        code = code_for(n, fr.fn.code.filename)
        fn = InterpFunction(code, fr.glob, fr, None, [d(fr) for d in code.defaults],
                            {k: d(fr) for k, d in code.kwdefaults.items()}, None)
        fn.qual = getattr(fr.fn, 'qual', fr.fn.code.name) + '.<lambda>'
        return fn
    return f


@expr(ast.JoinedStr)
def _c_fstr(n):
    parts = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            parts.append((None, v.value))
        else:
            parts.append((cexpr(v.value), (v.conversion, cexpr(v.format_spec) if v.format_spec else None)))

    def f(fr):
        out = []
        for e, x in parts:
            if e is None:
                out.append(x)
            else:
                v = e(fr)
                if has_sym(v):
                    out.append('<sym>')
                else:
                    v = to_native(v)
                    conv, spec = x
                    if conv == 114:
                        v = repr(v)
                    elif conv == 115:
                        v = str(v)
                    out.append(format(v, spec(fr) if spec else ''))
        return ''.join(out)
    return f


@expr(ast.NamedExpr)
def _c_walrus(n):
    e, name = cexpr(n.value), n.target.id

    def f(fr):
        v = e(fr)
        assign(fr, name, v)
        return v
    return f


@expr(ast.Starred)
def _c_star(n):
    raise Unsupported('starred expression')


@expr(ast.Yield)
def _c_yield(n):
    e = cexpr(n.value) if n.value is not None else (lambda fr: None)

    def f(fr):
        fr.yields.append((E.cur.guard, e(fr)))
        return None
    return f


@expr(ast.YieldFrom)
def _c_yfrom(n):
    e = cexpr(n.value)

    def f(fr):
        for g, v in cond_items(iter_items(e(fr))):
            fr.yields.append((and_(E.cur.guard, g), v))
    return f


# comprehensions
def _comp(n, kindname):
    gens = []
    for g in n.generators:
        gens.append((ctarget(g.target), cexpr(g.iter), [cexpr(c) for c in g.ifs]))
    if kindname == 'dict':
        ek, ev = cexpr(n.key), cexpr(n.value)
    else:
        ee = cexpr(n.elt)
    names = set()
    for g in n.generators:
        for m in ast.walk(g.target):
            if isinstance(m, ast.Name):
                names.add(m.id)

    def f(fr):
        sub = Frame(fr.fn, fr.glob, fr, None)
        sub.cls = None
        sub.fn = _CompFn
        first = gens[0][1](fr)
        out = []

        def rec(i, g):
            if i == len(gens):
                if kindname == 'dict':
                    out.append((g, (ek(sub), ev(sub))))
                else:
                    out.append((g, ee(sub)))
                return
            target, it, ifs = gens[i]
            src = first if i == 0 else it(sub)
            for c, v in iter_guarded(src):
                gg = and_(g, c)
                if gg is FALSE or and_(sub.outer, gg) is FALSE:
                    continue
                saved = E.cur.guard
                E.cur.guard = and_(sub.outer, gg)
                target(sub, v)
                ok = True
                for cond in ifs:
                    t = E.cur.simp(truth_of(cond(sub)))
                    gg = and_(gg, t)
                    E.cur.guard = and_(sub.outer, gg)
                    if E.cur.guard is FALSE or gg is FALSE:
                        ok = False
                        break
                if ok:
                    rec(i + 1, gg)
                E.cur.guard = saved
        rec(0, TRUE)
        out2 = []
        for g, v in out:
            g = E.cur.simp(g)
            if g is FALSE:
                continue
            if g is not TRUE and and_(sub.outer, not_(g)) is FALSE:
                g = TRUE
            out2.append((g, v))
        if kindname in ('list', 'gen'):
            if all(g is TRUE for g, _ in out2):
                return [v for _, v in out2] if kindname == 'list' else EagerGen(v for _, v in out2)
            return CondList(out2)
        keep = [v for g, v in out2 if g is TRUE or E.decide(g, 'comprehension')]
        if kindname == 'dict':
            return {native_key(k): v for k, v in keep}
        return set(native_key(v) for v in keep)
    return f


class _CF(object):
    class code(object):
        locals = frozenset()
        filename = ''
        name = '<comprehension>'
        pos = ()
    qual = '<comprehension>'
    glob = None


_CompFn = _CF()
_EXPR[ast.ListComp] = lambda n: _comp(n, 'list')
_EXPR[ast.SetComp] = lambda n: _comp(n, 'set')
_EXPR[ast.DictComp] = lambda n: _comp(n, 'dict')
_EXPR[ast.GeneratorExp] = lambda n: _comp(n, 'gen')


# iteration
class SymRange(object):
    """range with a symbolic stop"""

    def __init__(self, start, stop, lo, hi):
        self.start, self.stop, self.lo, self.hi = start, stop, lo, hi

    def items(self):
        return [(tm.lt(tm.intc(k), self.stop), k) for k in range(self.start, self.hi)]

    def __iter__(self):
        return iter(range(self.start, E.concretise(self.stop, 'range')))

    def __len__(self):
        return max(0, E.concretise(self.stop, 'range') - self.start)

    def __getitem__(self, i):
        return range(self.start, E.concretise(self.stop, 'range'))[i]


def iter_items(x):
    return x if isinstance(x, CondList) else CondList(list(iter_guarded(x)))


def iter_guarded(x):
    """(guard, element) pairs"""
    if isinstance(x, CondList):
        return list(x.items)
    if isinstance(x, MSel):
        return [(g, box(e, x.dtype)) for g, e in x.items()]
    if isinstance(x, SymRange):
        return x.items()
    return _plain(iterate(x))


def _plain(it):
    for v in it:
        yield TRUE, v


def iterate(x):
    """native iterator over x (forks where the length is symbolic)"""
    if isinstance(x, SA):
        return iter(x)
    if isinstance(x, np.ndarray):
        if x.dtype.kind != 'O':
            return iter(V.from_ndarray(x))
        return iter(x)
    if isinstance(x, CondList):
        return iter(V.force_list(x))
    if isinstance(x, (MSel,)):
        return iter(V.force(x))
    if isinstance(x, V.USet):
        return iter(x.force())
    m = getattr(type(x), '__iter__', None)
    if m is not None and is_repo_fn(m):
        return iterate(call(m, (x,), {}))
    if isinstance(x, SV):
        raise TypeError("'%s' object is not iterable" % ('int' if kind(x.dt) == 'i' else 'float'))
    return iter(x)


# targets
def ctarget(n):
    if isinstance(n, ast.Name):
        name = n.id
        return lambda fr, v: assign(fr, name, v)
    if isinstance(n, ast.Attribute):
        o, name = cexpr(n.value), n.attr
        return lambda fr, v: setattr_(o(fr), name, v)
    if isinstance(n, ast.Subscript):
        o, s = cexpr(n.value), cindex(n.slice)
        return lambda fr, v: setitem_(o(fr), s(fr), v)
    if isinstance(n, (ast.Tuple, ast.List)):
        star = [i for i, e in enumerate(n.elts) if isinstance(e, ast.Starred)]
        ts = [ctarget(e.value if isinstance(e, ast.Starred) else e) for e in n.elts]

        def f(fr, v):
            vs = list(iterate(v))
            if star:
                s = star[0]
                after = len(ts) - s - 1
                if len(vs) < len(ts) - 1:
                    raise ValueError('not enough values to unpack')
                vs = vs[:s] + [vs[s:len(vs) - after]] + vs[len(vs) - after:]
            if len(vs) != len(ts):
                raise ValueError('not enough values to unpack (expected %d, got %d)' % (len(ts), len(vs))
                                 if len(vs) < len(ts) else 'too many values to unpack (expected %d)' % len(ts))
            for t, x in zip(ts, vs):
                t(fr, x)
        return f
    raise Unsupported('target %s' % type(n).__name__)


# ------------------------------------------------------------------ statements
_STMT = {}


def stmt(t):
    def deco(f):
        _STMT[t] = f
        return f
    return deco


def cstmt(n):
    h = _STMT.get(type(n))
    if h is None:
        def bad(fr):
            raise Unsupported('statement %s' % type(n).__name__)
        return bad
    return h(n)


def cblock(body):
    ss = [cstmt(s) for s in body]

    def f(fr):
        for s in ss:
            if fr.rel is FALSE:
                return
            if fr.rel is TRUE:
                E.cur.guard = fr.outer
            else:
                g = and_(fr.outer, fr.rel)
                if g is FALSE or E.cur.simp(g) is FALSE:
                    return
                E.cur.guard = g
            s(fr)
    return f


@stmt(ast.Expr)
def _s_expr(n):
    if isinstance(n.value, ast.Constant):
        return lambda fr: None
    e = cexpr(n.value)

    def f(fr):
        e(fr)
    return f


@stmt(ast.Pass)
def _s_pass(n):
    return lambda fr: None


@stmt(ast.Assign)
def _s_assign(n):
    e = cexpr(n.value)
    ts = [ctarget(t) for t in n.targets]
    if len(ts) == 1:
        t = ts[0]
        return lambda fr: t(fr, e(fr))

    def f(fr):
        v = e(fr)
        for t in ts:
            t(fr, v)
    return f


@stmt(ast.AnnAssign)
def _s_ann(n):
    if n.value is None:
        return lambda fr: None
    e, t = cexpr(n.value), ctarget(n.target)
    return lambda fr: t(fr, e(fr))


def inplace(op, old, v):
    """(result, needs store)"""
    if isinstance(old, SA):
        r = do_binop(op, old, v)
        if isinstance(r, MSel):
            r = V.force(r)
        if isinstance(r, SA) and r.data.shape != old.data.shape:
            raise ValueError('non-broadcastable output operand with shape %s doesn\'t match the broadcast shape %s'
                             % (old.data.shape, r.data.shape))
        rd = r.dtype if isinstance(r, SA) else elem(r)[1]
        if not V.weak(rd) and not np.can_cast(rd, old.dtype, 'same_kind'):
            raise TypeError("Cannot cast ufunc output from %r to %r with casting rule 'same_kind'" % (rd, old.dtype))
        V.setitem(old, Ellipsis, r)
        return old
    if isinstance(old, (list, EagerGen)) and op == 'add':
        E.require_guard('list +=')
        old.extend(iterate(v))
        return old
    if isinstance(old, (set, dict)):
        E.require_guard('in-place update')
        return _INPLACE[op](old, v)
    return do_binop(op, old, v)


@stmt(ast.AugAssign)
def _s_aug(n):
    op = _OPS[type(n.op)]
    e = cexpr(n.value)
    t = n.target
    if isinstance(t, ast.Name):
        name = t.id

        def f(fr):
            old = load(fr, name)
            assign(fr, name, inplace(op, old, e(fr)))
        return f
    o = cexpr(t.value)
    if isinstance(t, ast.Attribute):
        name = t.attr

        def f(fr):
            ob = o(fr)
            setattr_(ob, name, inplace(op, getattr_(ob, name), e(fr)))
        return f
    s = cindex(t.slice)

    def f(fr):
        ob, ix = o(fr), s(fr)
        old = getitem_(ob, ix)
        v = e(fr)
        if isinstance(old, MSel):
            setitem_(ob, ix, do_binop(op, old, v))
        elif isinstance(old, SA) and isinstance(ob, SA):
            r = do_binop(op, old, v)
            rd = r.dtype if isinstance(r, (SA, MSel)) else elem(r)[1]
            if not V.weak(rd) and not np.can_cast(rd, ob.dtype, 'same_kind'):
                raise TypeError('Cannot cast ufunc output')
            setitem_(ob, ix, r)
        else:
            setitem_(ob, ix, inplace(op, old, v))
    return f


def _after(fr, g0, mark):
    """guard after a statement that started under g0: g0 minus the exits recorded since mark"""
    if len(fr.exits) == mark:
        fr.rel = g0
    else:
        fr.rel = and_(g0, *[not_(x[1]) for x in fr.exits[mark:]])


@stmt(ast.If)
def _s_if(n):
    t, a = cexpr(n.test), cblock(n.body)
    b = cblock(n.orelse) if n.orelse else None

    def f(fr):
        c = E.cur.simp(truth_of(t(fr)))
        if c is TRUE:
            a(fr)
            return
        if c is FALSE:
            if b is not None:
                b(fr)
            return
        g = E.cur.guard
        if and_(g, not_(c)) is FALSE:
            a(fr)
            return
        if and_(g, c) is FALSE:
            if b is not None:
                b(fr)
            return
        if g is not TRUE:
            # what the path has decided may exclude one of the branches
            if E.cur.simp(and_(g, c)) is FALSE:
                if b is not None:
                    b(fr)
                return
            if E.cur.simp(and_(g, not_(c))) is FALSE:
                a(fr)
                return
        g0 = fr.rel
        mark = len(fr.exits)
        fr.rel = and_(g0, c)
        a(fr)
        if b is not None:
            fr.rel = and_(g0, not_(c))
            b(fr)
        _after(fr, g0, mark)
    return f


@stmt(ast.Return)
def _s_return(n):
    e = cexpr(n.value) if n.value is not None else None

    def f(fr):
        v = e(fr) if e is not None else None
        fr.exits.append(('return', fr.rel, v))
        fr.rel = FALSE
    return f


@stmt(ast.Break)
def _s_break(n):
    def f(fr):
        fr.exits.append(('break', fr.rel, None))
        fr.rel = FALSE
    return f


@stmt(ast.Continue)
def _s_cont(n):
    def f(fr):
        fr.exits.append(('continue', fr.rel, None))
        fr.rel = FALSE
    return f


def _end_iter(fr, gi, mark):
    """drop continues, keep breaks and returns: guard for the next iteration"""
    ex = fr.exits[mark:]
    if not ex:
        fr.rel = gi
        return gi
    fr.exits[mark:] = [x for x in ex if x[0] != 'continue']
    fr.rel = and_(gi, *[not_(x[1]) for x in ex if x[0] != 'continue'])
    return fr.rel


def _end_loop(fr, g0, mark, orelse):
    ex = fr.exits[mark:]
    brk = [x for x in ex if x[0] == 'break']
    fr.exits[mark:] = [x for x in ex if x[0] != 'break']
    if orelse is not None:
        fr.rel = and_(g0, *[not_(x[1]) for x in ex])
        m2 = len(fr.exits)
        if fr.rel is not FALSE:
            orelse(fr)
    rest = fr.exits[mark:]
    fr.rel = g0 if not rest else and_(g0, *[not_(x[1]) for x in rest])


@stmt(ast.For)
def _s_for(n):
    t, it, body = ctarget(n.target), cexpr(n.iter), cblock(n.body)
    orelse = cblock(n.orelse) if n.orelse else None

    def f(fr):
        src = it(fr)
        g0 = fr.rel
        mark = len(fr.exits)
        count = 0
        for c, v in iter_guarded(src):
            count += 1
            if count & 255 == 0:
                E.deadline_check()
            base = fr.rel
            if base is FALSE or and_(fr.outer, base) is FALSE:
                break
            m = len(fr.exits)
            if c is not TRUE:
                c = E.cur.simp(c)
                gi = and_(base, c)
                if gi is FALSE or and_(fr.outer, gi) is FALSE:
                    continue
                fr.rel = gi
            E.cur.guard = fr.outer if fr.rel is TRUE else and_(fr.outer, fr.rel)
            t(fr, v)
            body(fr)
            _end_iter(fr, base, m)
            if fr.rel is FALSE:
                break
        _end_loop(fr, g0, mark, orelse)
    return f


@stmt(ast.While)
def _s_while(n):
    test, body = cexpr(n.test), cblock(n.body)
    orelse = cblock(n.orelse) if n.orelse else None

    def f(fr):
        g0 = fr.rel
        mark = len(fr.exits)
        left = []         # guards of leaving through the test
        k = 0
        while True:
            k += 1
            E.deadline_check()
            fr.sync()
            if E.cur.guard is FALSE or fr.rel is FALSE or E.cur.simp(E.cur.guard) is FALSE:
                break
            c = E.cur.simp(truth_of(test(fr)))
            if c is FALSE or and_(E.cur.guard, c) is FALSE:
                left.append(fr.rel)
                break
            if k > E.limits['unroll']:
                raise E.BoundExceeded('loop at line %d exceeds the unrolling bound' % n.lineno)
            base = fr.rel
            if c is not TRUE and and_(E.cur.guard, not_(c)) is not FALSE:
                left.append(and_(base, not_(c)))
                fr.rel = and_(base, c)
                if not E.sv.feasible(E.cur.pc + [and_(fr.outer, fr.rel)]):
                    break
            base = fr.rel
            m = len(fr.exits)
            body(fr)
            _end_iter(fr, base, m)
            if fr.rel is not TRUE and fr.rel is not FALSE and k > 3:
                if not E.sv.feasible(E.cur.pc + [and_(fr.outer, fr.rel)]):
                    break
        _end_loop(fr, g0, mark, orelse)
    return f


@stmt(ast.FunctionDef)
def _s_def(n):
    decos = [cexpr(d) for d in n.decorator_list]

    def f(fr):
        code = code_for(n, fr.fn.code.filename)
        fn = InterpFunction(code, fr.glob, fr, None, [d(fr) for d in code.defaults],
                            {k: d(fr) for k, d in code.kwdefaults.items()}, None)
        fn.qual = getattr(fr.fn, 'qual', fr.fn.code.name) + '.' + n.name
        v = fn
        for d in reversed(decos):
            v = call(d(fr), [v], {})
        assign(fr, n.name, v)
    return f


@stmt(ast.Assert)
def _s_assert(n):
    t = cexpr(n.test)

    def f(fr):
        c = E.cur.simp(truth_of(t(fr)))
        if c is TRUE:
            return
        E.may_raise(not_(c), AssertionError())
    return f


@stmt(ast.Raise)
def _s_raise(n):
    e = cexpr(n.exc) if n.exc is not None else None

    def f(fr):
        v = e(fr) if e is not None else None
        E.require_guard('raise')
        if v is None:
            raise
        if isinstance(v, type):
            v = v()
        raise v
    return f


@stmt(ast.Try)
def _s_try(n):
    body = cblock(n.body)
    hs = []
    for h in n.handlers:
        hs.append((cexpr(h.type) if h.type is not None else None, h.name, cblock(h.body)))
    orelse = cblock(n.orelse) if n.orelse else None
    final = cblock(n.finalbody) if n.finalbody else None

    def f(fr):
        g0 = fr.rel
        mark = len(fr.exits)
        d0 = depth[0]
        try:
            try:
                body(fr)
            except Exception as e:
                E.require_guard('exception')
                depth[0] = d0
                fr.rel = g0
                del fr.exits[mark:]
                for typ, name, hb in hs:
                    tt = typ(fr) if typ is not None else Exception
                    if isinstance(e, tt):
                        fr.sync()
                        if name:
                            assign(fr, name, e)
                        hb(fr)
                        break
                else:
                    raise
            else:
                if orelse is not None:
                    orelse(fr)
            _after(fr, g0, mark)
        except Exception:
            if final is not None:
                fr.rel = g0
                final(fr)
            raise
        if final is not None:
            keep = fr.rel
            fr.rel = g0
            final(fr)
            fr.rel = keep if fr.rel is g0 else and_(keep, fr.rel)
    return f


@stmt(ast.With)
def _s_with(n):
    items = [(cexpr(i.context_expr), ctarget(i.optional_vars) if i.optional_vars is not None else None) for i in n.items]
    body = cblock(n.body)

    def f(fr):
        ms = []
        for e, t in items:
            m = e(fr)
            v = m.__enter__()
            ms.append(m)
            if t is not None:
                t(fr, v)
        try:
            body(fr)
        finally:
            for m in reversed(ms):
                m.__exit__(None, None, None)
    return f


@stmt(ast.Import)
def _s_import(n):
    names = [(a.name, a.asname) for a in n.names]

    def f(fr):
        import importlib
        for name, asn in names:
            m = importlib.import_module(name)
            if asn is None:
                import sys
                assign(fr, name.split('.')[0], sys.modules[name.split('.')[0]])
            else:
                assign(fr, asn, m)
    return f


@stmt(ast.ImportFrom)
def _s_importfrom(n):
    def f(fr):
        import importlib
        pkg = fr.glob.get('__package__') or fr.glob.get('__name__', '').rpartition('.')[0]
        m = importlib.import_module('.' * n.level + (n.module or ''), pkg if n.level else None)
        for a in n.names:
            if a.name == '*':
                for k in dir(m):
                    if not k.startswith('_'):
                        assign(fr, k, getattr(m, k))
                continue
            try:
                v = getattr(m, a.name)
            except AttributeError:
                try:
                    v = importlib.import_module(m.__name__ + '.' + a.name)
                except ImportError:
                    raise ImportError('cannot import name %r' % a.name)
            assign(fr, a.asname or a.name, v)
    return f


@stmt(ast.Global)
def _s_global(n):
    def f(fr):
        d = dict(fr.globs) if fr.globs else {}
        for k in n.names:
            d[k] = 'global'
        fr.globs = d
    return f


@stmt(ast.Nonlocal)
def _s_nonlocal(n):
    def f(fr):
        d = dict(fr.globs) if fr.globs else {}
        for k in n.names:
            p = fr.parent
            while p is not None and k not in p.vars:
                p = p.parent
            d[k] = p
        fr.globs = d
    return f


@stmt(ast.Delete)
def _s_del(n):
    ts = []
    for t in n.targets:
        if isinstance(t, ast.Name):
            ts.append(('n', t.id, None))
        elif isinstance(t, ast.Subscript):
            ts.append(('s', cexpr(t.value), cindex(t.slice)))
        else:
            ts.append(('a', cexpr(t.value), t.attr))

    def f(fr):
        for k, a, b in ts:
            E.require_guard('del')
            if k == 'n':
                load(fr, a)
                fr.vars.pop(a, None)
            elif k == 's':
                o, i = a(fr), b(fr)
                del o[native_key(i) if not isinstance(i, slice) else i]
            else:
                delattr(a(fr), b)
    return f


# ------------------------------------------------------------------ calls
BUILTINS = {}


def bi(*fs):
    def deco(g):
        for f in fs:
            BUILTINS[id(f)] = g
            npm._keep.append(f)
        return g
    return deco


def call(f, args=(), kw=None):
    kw = kw or {}
    t = type(f)
    if HOOKS:
        h = HOOKS.get(id(f))
        if h is not None:
            return h(*args, **kw)
    if t is InterpFunction:
        return run_function(f, args, kw)
    if t in (SAMethod, UfuncMethod, ModelFn):
        return f(*args, **kw)
    m = BUILTINS.get(id(f))
    if m is not None:
        return m(*args, **kw)
    m = npm.MODELS.get(id(f))
    if m is not None:
        return m(*args, **kw)
    if t is types.MethodType:
        return call(f.__func__, [f.__self__] + list(args), kw)
    if t is types.FunctionType:
        if in_roots(f.__code__.co_filename):
            return run_function(wrap_function(f), args, kw)
        return native(f, args, kw)
    if t is functools.partial:
        return call(f.func, list(f.args) + list(args), dict(f.keywords, **kw))
    if isinstance(f, type):
        return construct(f, args, kw)
    mod = getattr(t, '__module__', '') or ''
    if mod.startswith('numba') and hasattr(f, 'name') and len(args) == 1 and not kw:
        return V.astype(V.lift(args[0]), np.dtype(str(f.name)))
    if mod.startswith('numba'):
        return native(f, args, kw)
    m = getattr(t, '__call__', None)
    if m is not None and (is_repo_fn(m) or isinstance(m, InterpFunction)):
        return call(m, [f] + list(args), kw)
    if isinstance(f, np.vectorize):
        return _vectorized(f, args, kw)
    if not callable(f):
        raise TypeError("'%s' object is not callable" % t.__name__)
    return native(f, args, kw)


def _vectorized(f, args, kw):
    arrs = [npm.sarr(a) for a in args]
    b = np.broadcast(*[a.data for a in arrs])
    res = [call(f.pyfunc, [box(e, a.dtype) for e, a in zip(es, arrs)], kw) for es in b]
    x = asarray(res)
    if f.otypes:
        x = V.astype(x, np.dtype(f.otypes[0]))
    return SA(x.data.reshape(b.shape), x.dtype)


_PURE = (operator, math)


def native(f, args, kw):
    name = getattr(f, '__name__', str(f))
    if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)) and isinstance(getattr(f, '__self__', None), np.ndarray):
        return call(getattr_(V.from_ndarray(f.__self__), name), args, kw)
    if has_sym(args) or has_sym(kw):
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, str):
            return f(*[str(to_native(a)) if not has_sym(a) else '<sym>' for a in args])
        mod = getattr(f, '__module__', '') or ''
        if mod in ('_operator', 'operator') or mod == 'itertools' or isinstance(f, (operator.itemgetter, operator.attrgetter)):
            return f(*args, **kw)
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, (dict, tuple, list)):
            return f(*[native_key(a) for a in args], **kw)
        if getattr(f, '_sx_native', False):
            return f(*args, **kw)
        raise Unsupported('call of %s.%s with symbolic arguments' % (mod, name))
    if getattr(f, '_sx_native', False):
        return f(*args, **kw)
    if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, (dict, list, set)):
        return f(*args, **kw)
    key = '%s.%s' % (getattr(f, '__module__', None), name)
    native_seen[key] = native_seen.get(key, 0) + 1
    mod = getattr(f, '__module__', '') or ''
    if mod.startswith('numpy.random') or (isinstance(getattr(f, '__self__', None), (np.random.RandomState,))):
        raise Unsupported('random function %s' % name)
    arrs = []
    a2 = [to_native(a, arrs) for a in args]
    k2 = {k: to_native(v, arrs) for k, v in kw.items()}
    if not mod.startswith(('numpy', 'builtins', 'math', 'numba', 'operator', '_operator', 'scipy')):
        E.require_guard('native call of %s' % key)
    r = f(*a2, **k2)
    for sa, a, before in arrs:
        if not np.array_equal(a, before):
            E.require_guard('native in-place call')
            sa.data[...] = V.from_ndarray(a).data
    return from_native(r)


def construct(c, args, kw):
    if c is type:
        return _type(*args)
    if issubclass(c, np.generic) and c is not np.str_:
        if not args:
            return c()
        x = args[0]
        if isinstance(x, (SA, np.ndarray, list, tuple, MSel)):
            return V.astype(asarray(x), c) if not isinstance(x, MSel) else V.astype(x, c)
        if isinstance(x, str):
            return c(x)
        return V.astype(V.lift(x), c)
    if issubclass(c, BaseException):
        return c(*[to_native(a) if not has_sym(a) else '<sym>' for a in args])
    if c is np.ndarray:
        return npm.garbage(npm._shape(args[0] if args else kw['shape']), np.dtype(args[1] if len(args) > 1 else kw.get('dtype', float)))
    if is_repo_cls(c):
        new = c.__new__
        o = object.__new__(c) if new is object.__new__ else new(c, *args, **kw)
        init = c.__init__
        if is_repo_fn(init):
            call(init, [o] + list(args), kw)
        elif init is not object.__init__:
            init(o, *args, **kw)
        return o
    if c is functools.partial:
        return functools.partial(*args, **kw)
    if c in (itertools.product, itertools.chain, itertools.combinations, itertools.permutations, itertools.repeat,
             itertools.count, itertools.islice, itertools.zip_longest, itertools.combinations_with_replacement, itertools.starmap,
             itertools.accumulate):
        a2 = [list(iterate(a)) if isinstance(a, (SA, MSel, CondList, V.USet, np.ndarray)) else
              (a.__index__() if isinstance(a, SV) and kind(a.dt) == 'i' else a) for a in args]
        return c(*a2, **kw)
    if c is np.vectorize:
        return np.vectorize(*args, **kw)
    return native(c, args, kw)


# ---- builtins
@bi(len)
def _len(x):
    if isinstance(x, (MSel, CondList)):
        if isinstance(x, MSel):
            return box(_unc(x.count()), WI)
        t = tm.intc(0)
        for g, _ in x.items:
            t = tm.add(t, tm.b2i(g))
        return box(_unc(t), WI)
    if isinstance(x, SymRange):
        return box(_unc(tm.ite(tm.lt(tm.intc(x.start), x.stop), tm.sub(x.stop, tm.intc(x.start)), tm.intc(0))), WI)
    if isinstance(x, SV):
        raise TypeError("object of type '%s' has no len()" % x.dtype)
    m = getattr(type(x), '__len__', None)
    if m is not None and is_repo_fn(m):
        return call(m, (x,), {})
    return len(x)


@bi(range)
def _range(*a):
    out = []
    for i, x in enumerate(a):
        e, d = elem(x) if elem(x) is not None else (None, None)
        if d is None or kind(d) == 'f':
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
        out.append(tI(e))
    if all(t.op == 'const' for t in out):
        return range(*[t.v for t in out])
    if len(out) == 1:
        start, stop = tm.intc(0), out[0]
    elif len(out) == 2:
        start, stop = out
    else:
        start = stop = None
    if start is not None and start.op == 'const' and stop.hi is not None and stop.hi - start.v <= 64:
        return SymRange(start.v, stop, stop.lo, stop.hi)
    return range(*[E.concretise(t, 'range') for t in out])


try:
    import numba
    bi(numba.prange)(_range)

    def _jit(*a, **k):
        if a and (isinstance(a[0], (InterpFunction, types.FunctionType))) and len(a) == 1:
            return a[0]
        return ModelFn(lambda f: f)
    bi(numba.jit, numba.njit)(_jit)
except ImportError:
    pass


@bi(print)
def _print(*a, **k):
    return None


@bi(str, repr)
def _str(*a, **k):
    if not a:
        return ''
    if has_sym(a[0]):
        return '<sym>'
    m = getattr(type(a[0]), '__str__', None)
    return str(to_native(a[0]), *a[1:], **k)


@bi(format)
def _format(x, spec=''):
    return '<sym>' if has_sym(x) else format(to_native(x), spec)


@bi(int)
def _int(x=0, *a):
    if isinstance(x, str):
        return int(x, *a)
    if isinstance(x, (SA, np.ndarray)):
        x = npm.METHODS['item'](V.lift(x))
    if not is_scalar(x):
        m = getattr(type(x), '__int__', None)
        return int(x)
    return V.to_pyint(x)


@bi(float)
def _float(x=0.0):
    if isinstance(x, str):
        return float(x)
    if isinstance(x, (SA, np.ndarray)):
        x = npm.METHODS['item'](V.lift(x))
    if not is_scalar(x):
        return float(x)
    return V.to_pyfloat(x)


@bi(bool)
def _bool(x=False):
    return box(_unb(truth_of(x)), WB)


@bi(abs)
def _abs(x):
    if is_scalar(x) or isinstance(x, (SA, MSel, np.ndarray)):
        return unop('abs', V.lift(x))
    return abs(x)


@bi(round)
def _round(x, n=None):
    if isinstance(x, (SA, np.ndarray)):
        return npm.MODELS[id(np.round)](x, 0 if n is None else n)
    if not has_sym(x):
        v = to_native(x)
        r = round(v) if n is None else round(v, n)
        if isinstance(r, float):
            return box(*elem(r))
        return r
    e, d = elem(x)
    if kind(d) in 'ib':
        return x
    if n is None:
        r = npm.e_round(e)
        return box(V.cast(r, WF, WI), WI)
    return npm.MODELS[id(np.round)](x, n)


@bi(pow)
def _pow(a, b, m=None):
    r = do_binop('pow', a, b)
    return r if m is None else do_binop('mod', r, m)


@bi(divmod)
def _divmod(a, b):
    return do_binop('floordiv', a, b), do_binop('mod', a, b)


@bi(sum)
def _sum(x, start=0):
    if isinstance(x, (CondList, MSel)):
        acc = start
        for g, v in iter_guarded(x):
            e, d = elem(v)
            gated = box(npm.e_gate(g, e, d), d) if kind(d) != 'b' else box(_unc(tm.b2i(and_(g, tB(e)))), WI)
            acc = do_binop('add', acc, gated)
        return acc
    acc = start
    for v in iterate(x):
        acc = do_binop('add', acc, v)
    return acc


@bi(any)
def _any(x):
    ts = []
    for g, v in iter_guarded(x):
        t = and_(g, truth_of(v))
        if t is TRUE:
            return True
        ts.append(t)
    return box(_unb(or_(*ts)), WB)


@bi(all)
def _all(x):
    ts = []
    for g, v in iter_guarded(x):
        t = or_(not_(g), truth_of(v))
        if t is FALSE:
            return False
        ts.append(t)
    return box(_unb(and_(*ts)), WB)


def _minmax(isless):
    def f(*a, **k):
        key = k.get('key')
        xs = list(iterate(a[0])) if len(a) == 1 else list(a)
        if not xs:
            if 'default' in k:
                return k['default']
            raise ValueError('%s() arg is an empty sequence' % ('min' if isless else 'max'))
        best = xs[0]
        bk = call(key, [best]) if key is not None else best
        for x in xs[1:]:
            xk = call(key, [x]) if key is not None else x
            c = E.cur.simp(truth_of(do_binop('lt' if isless else 'gt', xk, bk)))
            if c is TRUE:
                best, bk = x, xk
            elif c is not FALSE:
                try:
                    nb = merge_values(c, x, best)
                    bk = merge_values(c, xk, bk) if key is not None else nb
                    best = nb
                except CannotMerge:
                    if E.decide(c, 'min/max'):
                        best, bk = x, xk
        return best
    return f


bi(min)(_minmax(True))
bi(max)(_minmax(False))


@bi(enumerate)
def _enumerate(x, start=0):
    if isinstance(x, (CondList, MSel)):
        out = []
        k = tm.intc(start)
        for g, v in iter_guarded(x):
            out.append((g, (box(_unc(k), WI), v)))
            k = tm.add(k, tm.b2i(g))
        return CondList(out)
    return enumerate(iterate(x), start)


@bi(zip)
def _zip(*xs, **k):
    if len(xs) > 0 and all(isinstance(x, (CondList, MSel)) for x in xs):
        gs = [[g for g, _ in iter_guarded(x)] for x in xs]
        if all(len(g) == len(gs[0]) and all(a is b for a, b in zip(g, gs[0])) for g in gs):
            vs = [[v for _, v in iter_guarded(x)] for x in xs]
            return CondList([(gs[0][i], tuple(v[i] for v in vs)) for i in range(len(gs[0]))])
    return zip(*[iterate(x) for x in xs], **k)


@bi(list)
def _list(x=()):
    if isinstance(x, CondList):
        return CondList(list(x.items))
    if isinstance(x, MSel):
        return CondList(list(iter_guarded(x)))
    if isinstance(x, SymRange):
        return CondList(x.items())
    return list(iterate(x))


@bi(tuple)
def _tuple(x=()):
    return tuple(iterate(x))


@bi(set, frozenset)
def _set(x=()):
    vs = list(iterate(x))
    if has_sym(vs):
        return V.SSet(asarray(vs))
    return set(to_native(v) for v in vs)


@bi(dict)
def _dict(*a, **k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for kv in iterate(a[0]):
                x, y = list(iterate(kv))
                d[native_key(x)] = y
    d.update(k)
    return d


@bi(iter)
def _iter(x, *s):
    return iterate(x)


@bi(next)
def _next(it, *d):
    if isinstance(it, CondList):
        it = EagerGen(V.force_list(it))
    E.require_guard('next')
    try:
        return next(it)
    except StopIteration:
        if d:
            return d[0]
        raise


@bi(reversed)
def _reversed(x):
    if isinstance(x, CondList):
        return CondList(list(reversed(x.items)))
    if isinstance(x, SymRange):
        return CondList(list(reversed(x.items())))
    if isinstance(x, range):
        return reversed(x)
    return iter(list(iterate(x))[::-1])


def _sorted(x, key=None, reverse=False):
    xs = list(iterate(x))
    ks = [call(key, [v]) for v in xs] if key is not None else xs
    rev = truth_of(reverse) is TRUE
    # insertion sort, stable
    order = []
    for i in range(len(xs)):
        j = len(order)
        while j > 0:
            a, b = ks[order[j - 1]], ks[i]
            c = do_binop('lt', a, b) if rev else do_binop('lt', b, a)
            if isinstance(c, SV):
                c = E.decide(truth_of(c), 'sort')
            if not c:
                break
            j -= 1
        order.insert(j, i)
    return [xs[i] for i in order]


bi(sorted)(_sorted)


@bi(map)
def _map(f, *xs):
    if len(xs) == 1 and isinstance(xs[0], (CondList, MSel)):
        return CondList([(g, call(f, [v])) for g, v in iter_guarded(xs[0])])
    return EagerGen(call(f, list(vs)) for vs in zip(*[iterate(x) for x in xs]))


@bi(filter)
def _filter(f, x):
    out = []
    for g, v in iter_guarded(x):
        t = truth_of(v if f is None else call(f, [v]))
        out.append((and_(g, t), v))
    out = [(g, v) for g, v in out if g is not FALSE]
    if all(g is TRUE for g, _ in out):
        return EagerGen(v for _, v in out)
    return CondList(out)


@bi(functools.reduce)
def _freduce(f, x, *init):
    it = iterate(x)
    if init:
        acc = init[0]
    else:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError('reduce() of empty iterable with no initial value')
    for v in it:
        acc = call(f, [acc, v])
    return acc


def _type(x, *a):
    if a:
        raise Unsupported('type()')
    if isinstance(x, (SA, MSel)):
        return np.ndarray
    if isinstance(x, SV):
        return {WB: bool, WI: int, WF: float}[x.dt] if V.weak(x.dt) else x.dt.type
    if isinstance(x, (CondList, EagerGen)):
        return list
    if isinstance(x, InterpFunction):
        return types.FunctionType
    return type(x)


bi(type)(_type)


@bi(isinstance)
def _isinstance(x, c):
    if isinstance(c, tuple):
        return any(_isinstance(x, y) for y in c)
    if c is np.ndarray and isinstance(x, (SA, MSel, V.USet)):
        return True
    t = _type(x)
    import numbers
    if c in (numbers.Number, numbers.Real) and isinstance(x, SV):
        return True
    try:
        return issubclass(t, c)
    except TypeError:
        return isinstance(x, c)


@bi(callable)
def _callable(x):
    return isinstance(x, (InterpFunction, SAMethod, ModelFn, UfuncMethod)) or callable(x)


@bi(getattr)
def _getattr(o, name, *d):
    try:
        return getattr_(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


@bi(hasattr)
def _hasattr(o, name):
    try:
        getattr_(o, name)
        return True
    except AttributeError:
        return False


@bi(setattr)
def _setattr(o, name, v):
    setattr_(o, name, v)


@bi(id)
def _id(x):
    return id(x)


@bi(dir)
def _dir(o):
    return dir(np.ndarray) if isinstance(o, SA) else dir(o)


@bi(vars)
def _vars(o):
    return o.__dict__


@bi(slice)
def _slice(*a):
    return slice(*a)


@bi(_copymod.copy)
def _ccopy(x):
    if isinstance(x, SA):
        return SA(x.data.copy(), x.dtype)
    if isinstance(x, list):
        return list(x)
    return _copymod.copy(x)


@bi(_copymod.deepcopy)
def _cdeep(x, memo=None):
    if isinstance(x, SA):
        return SA(x.data.copy(), x.dtype)
    if isinstance(x, list):
        return [_cdeep(y) for y in x]
    if isinstance(x, tuple):
        return tuple(_cdeep(y) for y in x)
    if isinstance(x, dict):
        return {k: _cdeep(v) for k, v in x.items()}
    if is_scalar(x) or isinstance(x, (str, type(None))):
        return x
    return _copymod.deepcopy(x)


for _f, _nm in ((operator.add, 'add'), (operator.sub, 'sub'), (operator.mul, 'mul'), (operator.truediv, 'div'),
                (operator.and_, 'and'), (operator.or_, 'or'), (operator.xor, 'xor'), (operator.eq, 'eq'),
                (operator.ne, 'ne'), (operator.lt, 'lt'), (operator.le, 'le'), (operator.gt, 'gt'),
                (operator.ge, 'ge'), (operator.floordiv, 'floordiv'), (operator.mod, 'mod'), (operator.pow, 'pow')):
    bi(_f)(lambda a, b, _nm=_nm: do_binop(_nm, a, b))
bi(operator.neg)(lambda a: unop('neg', V.lift(a)))
bi(operator.not_)(lambda a: box(_unb(not_(truth_of(a))), WB))
bi(operator.getitem)(getitem_)
