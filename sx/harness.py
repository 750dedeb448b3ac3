"""Harness context: the same harness runs symbolically (deciding) and natively (replaying one model)."""
import json
import math
import os
import random
import sys
import time
import traceback
import types
from fractions import Fraction

import numpy as np

from . import engine as E
from . import terms as tm
from . import vals as V
from . import npm
from . import interp as I
from . import solver as S
from .terms import TRUE, FALSE, and_, not_, or_
from .vals import SA, SV, MSel, CondList, WB, WI, WF, BOOL, F64, elem, box

REPO = os.environ.get('SX_REPO', '/repo')


class Skip(Exception):
    """a concrete run outside the assumptions"""


class Diverged(Exception):
    """the native run draws random numbers differently from the symbolic run"""


class Obligation(object):
    __slots__ = ('label', 'cond')

    def __init__(self, label, cond):
        self.label = label
        self.cond = cond


class Ctx(object):
    def __init__(self, env=None, events=None, params=None):
        self.env = env
        self.symbolic = env is None
        self.inputs = []
        self.obl = []
        self.observed = []
        self.failed = []
        self.events = events or []
        self.params = params or {}
        self.tol = 1e-9
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.skip_observe = False

    def option(self, **k):
        """settings of the encoder, for this case"""
        if self.symbolic:
            V.OPT.update(k)

    # ---------------------------------------------------------------- inputs
    def _in(self, x):
        """register symbolic input; native value in concrete mode"""
        if isinstance(x, SA):
            roots = [e for e in x.data.reshape(-1) if type(e) is tm.T]
        else:
            roots = [x.t] if isinstance(x, SV) else []
        self.inputs.extend(v for v in tm.subterms(roots) if v.op == 'var')
        if self.symbolic:
            return x
        return self._native(x)

    def _ev(self, t):
        for v in tm.subterms([t]):
            if v.op == 'var' and v.v not in self.env:
                self.env[v.v] = default_of(v)
        return tm.evaluate(t, self.env)

    def _native(self, x):
        if isinstance(x, SA):
            a = np.empty(x.data.shape, dtype=x.dtype)
            f = a.reshape(-1)
            for i, e in enumerate(x.data.reshape(-1)):
                f[i] = self._nv(e)
            return f.reshape(x.data.shape)
        if isinstance(x, SV):
            v = self._nv(x.t)
            if x.dt is WB:
                return bool(v)
            if x.dt is WI:
                return int(v)
            if x.dt is WF:
                return float(v)
            return x.dt.type(v)
        return x

    def _nv(self, e):
        if type(e) is tm.T:
            v = self._ev(e)
            return float(v) if e.sort == 'R' else v
        return e

    def factor(self, name, shape, dtype=np.int8):
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            b = tm.var('%s%s' % (name, _ix(i)), 'B')
            r[i] = tm.sub(tm.scale(tm.b2i(b), 2), tm.intc(1))
        return self._in(SA(r, np.dtype(dtype)))

    def data(self, name, shape, dtype=np.int8, zeros=True):
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            p = tm.var('%s+%s' % (name, _ix(i)), 'B')
            if zeros:
                m = tm.var('%s-%s' % (name, _ix(i)), 'B')
                tm.declare_exclusive(p, m)
                r[i] = tm.sub(tm.b2i(p), tm.b2i(m))
            else:
                r[i] = tm.sub(tm.scale(tm.b2i(p), 2), tm.intc(1))
        return self._in(SA(r, np.dtype(dtype)))

    def bits(self, name, shape, dtype=np.int8):
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            b = tm.var('%s%s' % (name, _ix(i)), 'B')
            r[i] = b if np.dtype(dtype).kind == 'b' else tm.b2i(b)
        return self._in(SA(r, np.dtype(dtype)))

    def ints(self, name, shape, lo, hi, dtype=np.int64):
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            r[i] = tm.var('%s%s' % (name, _ix(i)), 'I', lo, hi)
        return self._in(SA(r, np.dtype(dtype)))

    def reals(self, name, shape, lo=None, hi=None, ls=False, hs=False, dtype=np.float64):
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            r[i] = tm.var('%s%s' % (name, _ix(i)), 'R', lo, hi, ls, hs)
        return self._in(SA(r, np.dtype(dtype)))

    def real(self, name, lo=None, hi=None, ls=False, hs=False, dt=WF):
        return self._in(SV(tm.var(name, 'R', lo, hi, ls, hs), dt))

    def int(self, name, lo, hi, dt=WI):
        t = tm.var(name, 'I', lo, hi)
        if t.op == 'const':
            return t.v
        return self._in(SV(t, dt))

    def bool(self, name):
        return self._in(SV(tm.var(name, 'B'), WB))

    def choice(self, name, options):
        """fork over a list of options"""
        options = list(options)
        t = tm.var(name, 'I', 0, len(options) - 1)
        self.inputs.append(t)
        if self.symbolic:
            if len(options) == 1:
                return options[0]
            return options[E.concretise(t, 'choice')]
        return options[self._ev(t)]

    def value(self, t, dt=WF):
        """scalar with the value of term t"""
        if self.symbolic:
            return SV(t, dt)
        return self._native(SV(t, dt))

    def var_t(self, name, lo=None, hi=None):
        """term of a new real input"""
        v = tm.var(name, 'R', lo, hi)
        self.inputs.append(v)
        return v if self.symbolic else tm.realc(Fraction(self._ev(v)))

    def fork_int(self, t):
        """integer value of term t on this path"""
        if self.symbolic:
            return E.concretise(t, 'value')
        return int(self._num(t))

    def const(self, x):
        """array of concrete values, as the code under test sees it"""
        if self.symbolic:
            return V.from_ndarray(np.asarray(x))
        return np.array(x)

    # ---------------------------------------------------------------- running the code
    def call(self, f, *a, **k):
        if self.symbolic:
            assert E.cur.guard is TRUE or E.cur.simp(E.cur.guard) is TRUE
            try:
                r = I.call(f, a, k)
            except Exception:
                E.require_guard('exception')
                raise
            E.cur.guard = TRUE
            return r
        return f(*a, **k)

    def attr(self, o, name):
        if self.symbolic:
            return I.getattr_(o, name)
        return getattr(o, name)

    def setattr(self, o, name, v):
        if self.symbolic:
            I.setattr_(o, name, v)
        else:
            setattr(o, name, v)

    def copy(self, a):
        if isinstance(a, SA):
            return SA(a.data.copy(), a.dtype)
        return a.copy()

    def copyval(self, x):
        """present value of an array or scalar"""
        if isinstance(x, SA):
            return SA(x.data.copy(), x.dtype)
        if isinstance(x, (MSel, CondList, V.USet)):
            return self.copyval(V.force(x) if not isinstance(x, V.USet) else x.force())
        return x.copy() if isinstance(x, np.ndarray) else x

    def item(self, a, idx):
        return V.getitem(a, idx) if self.symbolic else a[idx]

    def raises(self, f, *a, **k):
        """exception raised by the call, or None"""
        try:
            self.call(f, *a, **k)
        except Exception as e:
            if self.symbolic:
                I.depth[0] = 0
            return e
        return None

    def mark(self):
        """position in the sequence of random draws"""
        return len(E.cur.events) if self.symbolic else self.script.i

    def draws(self, mark, kinds=('uniform', 'binomial')):
        """[(guard, term)] of the uniform numbers drawn since mark"""
        if self.symbolic:
            return [(e[1], t) for e in E.cur.events[mark:] if e[0] in kinds for t in e[2]]
        return [(TRUE, tm.realc(Fraction(x))) for e in self.script.events[mark:self.script.i] if e[0] in kinds for x in e[1]]

    # ---------------------------------------------------------------- values
    def t(self, x):
        """term of a scalar"""
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x[()]
        r = elem(x)
        if r is None:
            raise TypeError('not a scalar: %r' % (x,))
        e, d = r
        if type(e) is tm.T:
            return e
        if isinstance(e, bool):
            return tm.boolc(e)
        if isinstance(e, float):
            raise S.Inconclusive('non-finite value') if self.symbolic else NonFinite(e)
        return tm.intc(e)

    def real_t(self, x):
        return tm.to_real(self.t(x))

    def shape(self, x):
        if isinstance(x, SV) or np.isscalar(x):
            return ()
        if isinstance(x, (MSel, CondList, V.USet)):
            x = V.force(x) if not isinstance(x, V.USet) else x.force()
        return tuple(x.shape)

    def arr(self, x):
        """object ndarray of terms"""
        if isinstance(x, (MSel, CondList)):
            x = V.force(x)
        if isinstance(x, V.USet):
            x = x.force()
        if isinstance(x, SA):
            d = x.data
        elif isinstance(x, np.ndarray):
            d = V.from_ndarray(x).data
        else:
            d = V.asarray(x).data
        out = np.empty(d.size, dtype=object)
        for i, e in enumerate(d.reshape(-1)):
            out[i] = e if type(e) is tm.T else (tm.boolc(e) if isinstance(e, bool) else tm.intc(e) if isinstance(e, int)
                                                else NonFiniteMark(e))
        return out.reshape(d.shape)

    def dtype(self, x):
        return getattr(x, 'dtype', None)

    # ---------------------------------------------------------------- conditions
    def eq(self, a, b):
        """Bool term for a == b (terms); numeric tolerance in concrete mode"""
        if isinstance(a, NonFiniteMark) or isinstance(b, NonFiniteMark):
            return tm.boolc(isinstance(a, NonFiniteMark) and isinstance(b, NonFiniteMark) and repr(a.v) == repr(b.v))
        if self.symbolic or (a.sort != 'R' and b.sort != 'R'):
            return tm.eq(a, b)
        x, y = float(self._num(a)), float(self._num(b))
        return tm.boolc(abs(x - y) <= self.tol * max(1.0, abs(x), abs(y)))

    def _num(self, t):
        return tm.evaluate(t, self.env if self.env is not None else {})

    def truth(self, cond):
        """concrete truth of a Bool term"""
        return bool(tm.evaluate(cond, self.env))

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            cond = tm.boolc(bool(cond))
        if isinstance(cond, SV):
            cond = V.truth(cond)
        if self.symbolic:
            if cond is TRUE:
                return
            if not S.feasible(E.cur.pc + [cond]):
                raise E.Infeasible()
            E.cur.fact(cond)
        elif not self.truth(cond):
            raise Skip()

    def check(self, cond, label):
        if isinstance(cond, (bool, np.bool_)):
            cond = tm.boolc(bool(cond))
        if isinstance(cond, SV):
            cond = V.truth(cond)
        if self.symbolic:
            self.obl.append(Obligation(label, cond))
        elif not self.truth(cond):
            self.failed.append(label)

    def check_eq(self, got, want, label, dtype=None):
        """got (value of the code) equals want (array or nested list of terms / scalars)"""
        g = self.arr(got) if not isinstance(got, tm.T) else _wrap0(got)
        if isinstance(want, tm.T):
            w = _wrap0(want)
        elif isinstance(want, np.ndarray) and want.dtype == object:
            w = want
        else:
            w = self.arr(want)
        if dtype is not None and isinstance(got, (SA, np.ndarray)):
            self.check(np.dtype(got.dtype) == np.dtype(dtype), label + ': dtype')
        if g.shape != w.shape:
            self.check(False, label + ': shape')
            return
        self.observe(label, got)
        for i in np.ndindex(*g.shape):
            self.check(self.eq(g[i], w[i]), label)

    def observe(self, label, val):
        if self.skip_observe:
            return
        if isinstance(val, tm.T):
            flat = [val]
        else:
            flat = list(self.arr(val).reshape(-1))
        self.observed.append((label, flat))


class NonFinite(Exception):
    pass


class NonFiniteMark(object):
    sort = 'R'

    def __init__(self, v):
        self.v = v


def _wrap0(t):
    r = np.empty((), dtype=object)
    r[()] = t
    return r


def _ix(i):
    return '[' + ','.join(map(str, i)) + ']'


def default_of(v):
    if v.sort == 'B':
        return False
    lo, hi = v.lo, v.hi
    x = 0
    if lo is not None and x < lo or (lo is not None and x == lo and v.ls):
        x = lo if not v.ls else (Fraction(lo + hi, 2) if hi is not None else lo + 1)
    if hi is not None and (x > hi or (x == hi and v.hs)):
        x = hi if not v.hs else (Fraction(lo + hi, 2) if lo is not None else hi - 1)
    return tm.norm_num(Fraction(x)) if v.sort == 'R' else int(x)


def random_env(vs, rng):
    env = {}
    for v in vs:
        if v.sort == 'B':
            if any(env.get(tm._byid(e).v) for e in tm._exclusive.get(v.id, ()) if tm._byid(e) is not None):
                env[v.v] = False
            else:
                env[v.v] = rng.random() < .5
        elif v.sort == 'I':
            lo = v.lo if v.lo is not None else -4
            hi = v.hi if v.hi is not None else lo + 8
            if hi - lo > 200:
                lo, hi = max(lo, -100), min(hi, 100)
            env[v.v] = rng.randint(lo, hi)
        else:
            lo = Fraction(v.lo) if v.lo is not None else Fraction(-3)
            hi = Fraction(v.hi) if v.hi is not None else lo + 6
            env[v.v] = tm.norm_num(lo + (hi - lo) * Fraction(2 * rng.randint(0, 511) + 1, 1024))
    return env


# ------------------------------------------------------------------ native replay
class Script(object):
    def __init__(self, events):
        self.events = list(events)
        self.i = 0

    def next(self):
        """kind of the next event"""
        i = self.i
        while i < len(self.events) and self.events[i][0] == 'arange':
            i += 1
        return self.events[i][0] if i < len(self.events) else None

    def pop(self, kind):
        while self.i < len(self.events) and self.events[self.i][0] == 'arange':
            self.i += 1
        if self.i >= len(self.events):
            raise Diverged('no %s left in the script' % kind)
        e = self.events[self.i]
        if e[0] != kind:
            raise Diverged('code asks for %s, script has %s' % (kind, e[0]))
        self.i += 1
        return e


def _arr(vals, shape, dt):
    a = np.array(vals, dtype=dt).reshape(shape)
    return a


class Patch(object):
    """replace numpy's random functions and np.empty, for calls made by the code under test"""

    def __init__(self, script):
        s = self.script = script
        R = np.random
        self.saved = []

        def shape_of(size):
            return () if size is None else tuple(size) if isinstance(size, (list, tuple)) else (int(size),)

        def uni(shape, kind='uniform'):
            e = s.pop(kind)
            if tuple(e[2]) != tuple(shape):
                raise Diverged('shape %s instead of %s' % (shape, e[2]))
            return float(e[1][0]) if shape == () else _arr([float(x) for x in e[1]], shape, float)

        def rand(*sh):
            return uni(tuple(int(x) for x in sh))

        def random_(size=None):
            return uni(shape_of(size))

        def uniform(low=0.0, high=1.0, size=None):
            return low + (high - low) * uni(shape_of(size))

        def binomial(n, p, size=None):
            sh = np.shape(p) if size is None else shape_of(size)
            u = uni(sh, 'binomial')
            r = u < p
            return int(r) if sh == () else np.asarray(r).astype(np.int64)

        def randint(low, high=None, size=None, dtype=int):
            e = s.pop('randint')
            return int(e[1][0]) if size is None else _arr(e[1], e[2], dtype)

        def choice(a, size=None, replace=True, p=None):
            pop = list(range(int(a))) if np.ndim(a) == 0 else list(a)
            if p is not None:
                if s.next() == 'choice_i':
                    e = s.pop('choice_i')
                    ks = list(e[1])
                else:
                    e = s.pop('choice_p')
                    ks = []
                    for u in e[1]:
                        acc = 0.
                        for k, q in enumerate(np.asarray(p, dtype=float)):
                            acc += q
                            if float(u) < acc:
                                break
                        ks.append(k)
                if len(ks) != (1 if size is None else int(np.prod(shape_of(size)))):
                    raise Diverged('choice size')
                if size is None:
                    return pop[ks[0]]
                return np.array(pop)[np.array(ks, dtype=int)].reshape(shape_of(size))
            n = 1 if size is None else int(np.prod(shape_of(size)))
            if not replace and n > len(pop):
                raise ValueError("Cannot take a larger sample than population when replace is False")
            if not pop and n > 0:
                raise ValueError("a cannot be empty unless no samples are taken")
            e = s.pop('choice')
            if len(e[1]) != n:
                raise Diverged('choice size')
            left = list(range(len(pop)))
            out = []
            for k in e[1]:
                if k >= len(pop if replace else left):
                    raise Diverged('choice from %d' % len(pop))
                out.append(pop[k] if replace else pop[left.pop(k)])
            if size is None:
                return out[0]
            if not out:
                return np.empty(shape_of(size), dtype=np.array(pop).dtype if pop else int)
            return np.array(out).reshape(shape_of(size))

        def order(n):
            e = s.pop('perm')
            if len(e[1]) != max(n - 1, 0):
                raise Diverged('permutation size')
            left = list(range(n))
            return [left.pop(k) for k in e[1]] + left

        def permutation(x):
            if np.ndim(x) == 0 and not isinstance(x, (list, tuple)):
                return np.array(order(int(x)))
            if isinstance(x, (list, tuple)):
                o = order(len(x))
                y = [x[i] for i in o]
                if all(isinstance(z, (int, float, np.generic)) for z in y):
                    return np.array(y)
                r = np.empty(len(y), dtype=object)
                for i, z in enumerate(y):
                    r[i] = z
                return r
            return x[order(len(x))]

        def shuffle(x):
            o = order(len(x))
            x[:] = [x[i] for i in o] if isinstance(x, list) else x[o]

        empty0 = np.empty

        def empty(shape, dtype=float, *a, **k):
            e = s.pop('garbage')
            r = empty0(shape, dtype)
            f = r.reshape(-1)
            if f.size != len(e[1]):
                raise Diverged('np.empty size')
            for i, x in enumerate(e[1]):
                f[i] = x
            return f.reshape(r.shape)

        def empty_like(a, dtype=None, *x, **k):
            return empty(np.shape(a), a.dtype if dtype is None else dtype)

        self.map = {}
        for mod, names in ((R, {'rand': rand, 'random': random_, 'random_sample': random_, 'ranf': random_, 'sample': random_,
                                'uniform': uniform,
                                'binomial': binomial, 'randint': randint, 'choice': choice,
                                'permutation': permutation, 'shuffle': shuffle}),
                           (np, {'empty': empty, 'empty_like': empty_like})):
            for n, f in names.items():
                self.map[id(getattr(mod, n))] = (mod, n, getattr(mod, n), self.guard(getattr(mod, n), f))

    @staticmethod
    def guard(orig, new):
        def f(*a, **k):
            fr = sys._getframe(1)
            if I.in_roots(fr.f_code.co_filename) or fr.f_code.co_filename.endswith('/props.py'):
                return new(*a, **k)
            return orig(*a, **k)
        return f

    def __enter__(self):
        mods = [m for k, m in list(sys.modules.items()) if k.split('.')[0] == 'lom' and m is not None]
        for mod, n, orig, new in self.map.values():
            self.saved.append((mod, n, orig))
            setattr(mod, n, new)
            for m in mods:
                for k, v in list(vars(m).items()):
                    if v is orig:
                        self.saved.append((m, k, orig))
                        setattr(m, k, new)
        return self

    def __exit__(self, *a):
        for mod, n, orig in reversed(self.saved):
            setattr(mod, n, orig)


def eval_events(events, env):
    out = []
    for e in events:
        kind, guard, ts, shape, dt = e[:5]
        for v in tm.subterms([guard] + list(ts)):
            if v.op == 'var' and v.v not in env:
                env[v.v] = default_of(v)
        if not tm.evaluate(guard, env):
            continue
        out.append((kind, [tm.evaluate(t, env) for t in ts], shape))
    return out


def native_run(fn, params, env, script):
    """(ctx, exception) of running harness fn on concrete values with the real code"""
    ctx = Ctx(dict(env), script, params)
    ctx.env_used = ctx.env
    out = sys.stdout
    ctx.script = Script(script)
    try:
        sys.stdout = open(os.devnull, 'w')
        with np.errstate(all='ignore'):
            with Patch(ctx.script):
                fn(ctx, **params)
        return ctx, None
    except Exception as e:      # noqa
        return ctx, e
    finally:
        sys.stdout.close()
        sys.stdout = out


# ------------------------------------------------------------------ deciding one case
class Result(object):
    def __init__(self):
        self.violations = []      # (label, replay dict)
        self.errors = []
        self.paths = 0
        self.obligations = 0
        self.validated = 0
        self.samples = []


def _ser(env):
    return {k: (bool(v) if isinstance(v, (bool, np.bool_)) else int(v) if isinstance(v, int) else
                str(Fraction(v))) for k, v in env.items()}


def _deser(env):
    return {k: (tm.norm_num(Fraction(v)) if isinstance(v, str) else v) for k, v in env.items()}


def _ser_ev(evs):
    return [[k, [x if isinstance(x, bool) else int(x) if isinstance(x, int) else str(Fraction(x)) for x in v], list(s)]
            for k, v, s in evs]


def _deser_ev(evs):
    return [(k, [tm.norm_num(Fraction(x)) if isinstance(x, str) else x for x in v], tuple(s)) for k, v, s in evs]


def run_case(prop, case, fn, params, seed=1, deadline=None, max_valid=3, max_viol=3):
    """decide one harness; returns Result"""
    tm.reset()
    S.reset()
    E.limits['deadline'] = deadline
    E.counts.update({k: 0 for k in E.counts})
    E._reasons.clear()
    S.stats.update({k: (0 if k != 'time' else 0.0) for k in S.stats})
    I.encoded.clear()
    I.native_seen.clear()
    res = Result()
    rng = random.Random(seed * 7919 + hash_str(case))
    seen_labels = set()

    def harness():
        ctx = Ctx(None, None, params)
        I.depth[0] = 0
        try:
            fn(ctx, **params)
        except Exception as e:
            E.require_guard('exception')
            ctx.exc = (e, traceback.format_exc())
            ctx.obl.append(Obligation('exception %s' % type(e).__name__, FALSE))
        else:
            ctx.exc = None
        return ctx

    def all_vars(ctx, path):
        vs = {v.v: v for v in ctx.inputs}
        for e in path.events:
            for v in tm.subterms([e[1]] + [t for t in e[2]]):
                if v.op == 'var':
                    vs.setdefault(v.v, v)
        return vs

    def complete(env, vs):
        env = dict(env)
        for v in vs.values():
            if v.v not in env:
                env[v.v] = default_of(v)
        return env

    def replay(env, path):
        script = eval_events(path.events, env)
        return native_run(fn, params, env, script), script

    def on_path(path, ctx):
        res.paths += 1
        res.obligations += len(ctx.obl)
        vs = all_vars(ctx, path)
        roots = [c for c in path.pc]
        bad = [o for o in ctx.obl if path.simp(o.cond) is not TRUE]
        if bad:
            # one query for the whole path; individual queries only when something fails
            labels = []
            for o in bad:
                if o.label not in labels:
                    labels.append(o.label)
            r, _ = S.check(roots + [not_(and_(*[o.cond for o in bad]))])
            if r == 'unknown' and len(bad) > 1:
                r = 'split'
            if r != 'unsat':
                for lab in labels:
                    if lab in seen_labels:
                        continue
                    conds = [o.cond for o in bad if o.label == lab]
                    goal = roots + [not_(and_(*conds))]
                    decide_label(lab, goal, path, ctx, vs, conds)
        if not ctx.obl:
            pass
        # validate the translation on this path: a model of the path, run natively
        if res.validated < max_valid and not bad or (res.validated < max_valid and not res.violations and ctx.exc is None):
            validate(path, ctx, vs, roots)

    def decide_label(lab, goal, path, ctx, vs, conds):
        tries = []
        pinned = []
        u = [v for v in vs.values() if v.sort == 'R' and (v.v.startswith('u!'))]
        for attempt in range(4):
            prefer = []
            if attempt == 1:
                # away from the boundaries
                for c in conds[:40]:
                    pass
                prefer = [or_(*[tm.eq(x, tm.realc(q)) for q in S.NICE if 0 <= q < 1]) for x in u[:8]]
            elif attempt == 2:
                prefer = [or_(*[tm.eq(x, tm.realc(q)) for q in S.NICE]) for x in vs.values() if x.sort == 'R'][:12]
            elif attempt == 3:
                prefer = [or_(*[tm.eq(x, tm.realc(Fraction(k, 10))) for k in range(1, 10)]) for x in u[:8]]
            if attempt and not prefer:
                continue
            r, env = S.find_model(goal, prefer)
            if r is None:
                return          # refuted with the real functions: the obligation holds
            if r == 'unknown' and env is None:
                if attempt == 0 and len(conds) > 1:
                    # split: decide the conjuncts one by one
                    ok = True
                    for c in conds:
                        rr, e2 = S.find_model(goal[:-1] + [not_(c)])
                        if rr is None:
                            continue
                        ok = False
                        if rr == 'sat':
                            r, env = rr, e2
                        break
                    if ok:
                        return
                if env is None:
                    tries.append('solver: unknown')
                    continue
            env = complete(env, vs)
            (nctx, exc), script = replay(env, path)
            hit = None
            if exc is not None:
                if isinstance(exc, Skip):
                    tries.append('outside the assumptions')
                elif isinstance(exc, Diverged):
                    tries.append('diverged: %s' % exc)
                else:
                    hit = 'exception %s' % type(exc).__name__
                    if not lab.startswith('exception') and not nctx.failed and False:
                        hit = None
            if exc is not None and hit is not None and not in_code(exc):
                tries.append('error in the harness, not in the code: %r' % exc)
                hit = None
            elif exc is None and nctx.failed:
                hit = lab if lab in nctx.failed else nctx.failed[0]
            elif exc is None:
                tries.append('not reproduced')
            if hit is not None and exc is not None and not lab.startswith('exception') and not in_code(exc):
                tries.append('native harness error: %r' % exc)
                hit = None
            if hit is not None:
                seen_labels.add(lab)
                res.violations.append((hit, {
                    'property': prop, 'case': case, 'label': hit, 'env': _ser(env), 'events': _ser_ev(script),
                    'exception': None if exc is None else '%s: %s' % (type(exc).__name__, exc)}))
                return
        seen_labels.add(lab)
        msg = '%s [%s]: counterexample not confirmed natively (%s)' % (case, lab, '; '.join(tries))
        if ctx.exc is not None:
            msg += '\n' + ctx.exc[1]
        res.errors.append(msg)

    def validate(path, ctx, vs, roots):
        envs = []
        for _ in range(10 if roots else 1):
            e = random_env(list(vs.values()), rng)
            if not roots or S.holds(roots, e):
                envs.append(e)
                break
        if not envs:
            r, e = S.find_model(roots)
            if r != 'sat':
                return
            # randomise the variables the path does not constrain
            free = random_env([v for v in vs.values() if v.v not in e], rng)
            free.update(e)
            if not all(not (free.get(v.v) and free.get(tm._byid(x).v)) for v in vs.values()
                       for x in tm._exclusive.get(v.id, ()) if tm._byid(x) is not None):
                free = complete(e, vs)
            envs.append(free)
        for env in envs:
            env = complete(env, vs)
            (nctx, exc), script = replay(env, path)
            if isinstance(exc, Skip):
                return
            if exc is not None:
                res.errors.append('%s: native run of a feasible path failed where the symbolic one did not: %s: %s\n%s'
                                  % (case, type(exc).__name__, exc, ''.join(traceback.format_exception(exc))[-1500:]))
                return
            mism = compare(ctx, nctx, env)
            if mism:
                # a tie in floating point?  accept only if another model of the path agrees
                res.errors.append('%s: symbolic and native results differ: %s env=%s' % (case, mism, _ser(env)))
                return
            res.validated += 1
            if len(res.samples) < 1:
                res.samples.append({'case': case, 'inputs': dict(list(_ser(env).items())[:40]),
                                    'labels': sorted({o.label for o in ctx.obl})[:8],
                                    'native': [(l, [float_of(x) for x in f[:12]]) for l, f in nctx.observed[:3]]})

    try:
        E.explore(harness, on_path)
    except S.Inconclusive as e:
        res.errors.append('%s: inconclusive: %s' % (case, e))
    except E.Unsupported as e:
        res.errors.append('%s: unsupported: %s\n%s' % (case, e, traceback.format_exc()[-2500:]))
    except E.BoundExceeded as e:
        res.errors.append('%s: bound exceeded: %s' % (case, e))
    except Exception as e:
        res.errors.append('%s: %s: %s\n%s' % (case, type(e).__name__, e, traceback.format_exc()[-3000:]))
    if not res.errors and res.obligations == 0:
        res.errors.append('%s: vacuous: no obligation reached on any feasible path' % case)
    if not res.errors and not res.violations and res.validated == 0 and max_valid:
        res.errors.append('%s: no path could be validated natively' % case)
    res.counts = dict(E.counts)
    res.stats = dict(S.stats)
    res.encoded = {'%s:%s' % (os.path.relpath(k[0], REPO), k[1]): v for k, v in I.encoded.items()}
    res.native = dict(I.native_seen)
    res.reasons = dict(E._reasons)
    return res


def in_code(exc):
    tb = exc.__traceback__
    while tb is not None:
        if I.in_roots(tb.tb_frame.f_code.co_filename):
            return True
        tb = tb.tb_next
    return False


def float_of(x):
    try:
        v = tm.evaluate(x, {})
        return v if isinstance(v, (bool, int)) else float(v)
    except Exception:
        return str(x)


def compare(sctx, nctx, env):
    so, no = sctx.observed, nctx.observed
    if len(so) != len(no):
        return 'observed %d values, native %d' % (len(so), len(no))
    for (l1, a), (l2, b) in zip(so, no):
        if l1 != l2 or len(a) != len(b):
            return 'observation %s/%s: %d / %d values' % (l1, l2, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, NonFiniteMark) or isinstance(y, NonFiniteMark):
                if not (isinstance(x, NonFiniteMark) and isinstance(y, NonFiniteMark)):
                    return '%s[%d]: non-finite' % (l1, i)
                continue
            for v in tm.subterms([x]):
                if v.op == 'var' and v.v not in env:
                    env[v.v] = default_of(v)
            p = tm.evaluate(x, env)
            q = tm.evaluate(y, {})
            if abs(float(p) - float(q)) > 1e-5 * max(1.0, abs(float(p))):
                return '%s[%d]: symbolic %s native %s' % (l1, i, float(p), float(q))
    return None


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h
