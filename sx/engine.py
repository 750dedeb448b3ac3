"""Path exploration: facts decided on the current path, forking by re-execution, non-deterministic inputs.

A run of a harness is a partition of the input space: every fork splits the set of all valuations of the
symbolic variables by the truth of one Boolean term, each part is executed once, and infeasible parts are
discarded by the solver.  Within a path, branches on undecided conditions are executed under guards and
merged (see interp.py), so one path stands for many concrete runs.
"""
import os
import time

from . import terms as tm
from . import solver as sv
from .terms import TRUE, FALSE, and_, not_


class Restart(BaseException):
    def __init__(self, cond):
        self.cond = cond


class Infeasible(BaseException):
    pass


class Unsupported(BaseException):
    """the interpreter has no model for something the code does"""


class BoundExceeded(BaseException):
    pass


class Path(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.known = {}
        self.pc = []
        self.guard = TRUE
        self.counters = {}
        self.stream = None
        self.events = []       # non-deterministic values in order: (kind, guard, terms)
        self.memo = {}
        self.new = []          # prefixes discovered on this path
        self.decisions = []
        self.merged = 0
        self.replay = None     # concrete mode: script of events
        self.inputs = {}
        for c, v in prefix:
            self.fact(c if v else not_(c))
            self.decisions.append((c, v))

    def fact(self, t):
        """assume t on this path"""
        if t is TRUE:
            return
        self.pc.append(t)
        self.memo.clear()
        todo = [t]
        while todo:
            x = todo.pop()
            self.known[x.id] = True
            n = not_(x)
            self.known[n.id] = False
            if x.op == 'and':
                todo.extend(x.args)

    def simp(self, t):
        if not self.known or t is TRUE or t is FALSE:
            return t
        k = self.known.get(t.id)
        if k is not None:
            return TRUE if k else FALSE
        r = self.memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'and':
            r = and_(*[self.simp(a) for a in t.args])
        elif t.op == 'not':
            r = not_(self.simp(t.args[0]))
        elif t.op == 'iff':
            r = tm.iff(self.simp(t.args[0]), self.simp(t.args[1]))
        else:
            r = t
        self.memo[t.id] = r
        return r

    def seed(self, k):
        """random numbers drawn after the same seed and the same sequence of draws are the same"""
        self.stream = None if k is None else (streams.setdefault(('seed', k), len(streams)), None, [])

    def draw(self, kind, sort, lo=None, hi=None, ls=False, hs=False):
        """new random number; after a seed, the one at this position of the seeded sequence"""
        if self.stream is None:
            return self.fresh(kind, sort, lo, hi, ls, hs)
        root, sig, before = self.stream
        if sig != (kind, lo, hi):
            root = streams.setdefault((root, sig, tuple(self.simp(g).id for g in before), kind, lo, hi), len(streams))
            before = []
        gs = [self.simp(g) for g in before]
        self.stream = (root, (kind, lo, hi), before + [self.guard])
        first = sum(g is TRUE for g in gs)
        pos = tm.intc(first)
        for g in gs:
            if g is not TRUE:
                pos = tm.add(pos, tm.b2i(g))
        var = [tm.var('%s@%d.%d' % (kind, root, k), sort, lo, hi, ls, hs) for k in range(first, len(gs) + 1)]
        r = var[0]
        for k, v in enumerate(var[1:]):
            r = tm.ite(tm.eq(pos, tm.intc(first + 1 + k)), v, r)
        return r

    def fresh(self, kind, sort, lo=None, hi=None, ls=False, hs=False):
        k = self.counters.get(kind, 0)
        self.counters[kind] = k + 1
        return tm.var('%s!%d' % (kind, k), sort, lo, hi, ls, hs)


streams = {}
cur = Path([])
limits = {'paths': int(os.environ.get('SX_MAX_PATHS', '20000')), 'unroll': 400, 'deadline': None}
counts = {'paths': 0, 'infeasible': 0, 'forks': 0, 'restarts': 0, 'merges': 0}
_reasons = {}


def full():
    return cur.guard


def deadline_check():
    d = limits['deadline']
    if d is not None and time.time() > d:
        raise sv.Inconclusive('time budget exhausted')


def decide(cond, why=''):
    """truth of cond on this path (under the current guard); forks when both are possible"""
    c = cur.simp(cond)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    g = cur.simp(cur.guard)
    if and_(g, c) is FALSE:
        return False
    if and_(g, not_(c)) is FALSE:
        return True
    deadline_check()
    base = cur.pc + ([g] if g is not TRUE else [])
    ft = sv.feasible(base + [c])
    ff = sv.feasible(base + [not_(c)])
    if ft and ff:
        counts['forks'] += 1
        if why:
            _reasons[why] = _reasons.get(why, 0) + 1
        cur.new.append(cur.decisions + [(c, False)])
        cur.decisions.append((c, True))
        cur.fact(c)
        return True
    if not ft and not ff:
        raise Infeasible()
    if g is TRUE:
        cur.fact(c if ft else not_(c))
    return ft


def valid(cond):
    """does cond hold on this path under the current guard?"""
    c = cur.simp(cond)
    if c is TRUE:
        return True
    if c is FALSE and cur.guard is TRUE:
        return False
    g = cur.simp(cur.guard)
    if and_(g, not_(c)) is FALSE:
        return True
    return not sv.feasible(cur.pc + [g, not_(c)])


def require_guard(why=''):
    """continue only when the current statement is certainly executed"""
    g = cur.guard
    if g is TRUE:
        return
    g = cur.simp(g)
    if g is TRUE:
        return
    if why:
        _reasons[why] = _reasons.get(why, 0) + 1
    if g is FALSE:
        raise sv.Inconclusive('statement under an impossible condition')
    raise Restart(g)


def may_raise(cond, exc):
    """raise exc when cond holds (forking)"""
    c = cur.simp(and_(cur.guard, cond))
    if c is FALSE:
        return
    if c is not TRUE and not sv.feasible(cur.pc + [c]):
        return
    saved = cur.guard
    cur.guard = TRUE
    try:
        hit = decide(c, 'may_raise %s' % type(exc).__name__)
    finally:
        cur.guard = saved
    if hit:
        require_guard('exception')
        raise exc


def concretise(t, why='value'):
    """integer value of t on this path, forking over the possibilities"""
    if t.op == 'const':
        return t.v
    deadline_check()
    if t.lo is not None and t.hi is not None and t.hi - t.lo <= 64 and t.sort == 'I':
        for k in range(t.lo, t.hi + 1):
            e = tm.eq(t, tm.intc(k))
            if e is FALSE:
                continue
            if decide(e, 'concretise ' + why):
                return k
        raise Infeasible()
    for _ in range(200):
        g = cur.simp(cur.guard)
        r, m = sv.check(cur.pc + [g, tm.eq(t, t)] , None, True)
        if r == 'unsat':
            raise Infeasible()
        if r == 'unknown':
            raise sv.Inconclusive('concretise')
        v = sv._val(m, sv.to_z3(t), t.sort)
        if decide(tm.eq(t, tm.intc(v) if t.sort == 'I' else tm.realc(v)), 'concretise ' + why):
            return v
    raise Unsupported('too many values for ' + why)


def explore(fn, on_path=None):
    """run fn on every path; fn sees engine.cur"""
    global cur
    todo = [[]]
    done = 0
    while todo:
        deadline_check()
        prefix = todo.pop()
        if prefix:
            facts = [c if v else not_(c) for c, v in prefix]
            r, _ = sv.check(facts, 20000)
            if r == 'unsat':
                counts['infeasible'] += 1
                continue
        cur = Path(prefix)
        try:
            try:
                res = fn()
            finally:
                todo.extend(cur.new)
        except Restart as e:
            counts['restarts'] += 1
            todo.append(cur.decisions + [(e.cond, False)])
            todo.append(cur.decisions + [(e.cond, True)])
            continue
        except Infeasible:
            counts['infeasible'] += 1
            continue
        done += 1
        counts['paths'] += 1
        if on_path is not None:
            on_path(cur, res)
        if done > limits['paths']:
            raise BoundExceeded('more than %d paths' % limits['paths'])
    return done
