"""
Path exploration: a harness is run again and again, each run following one
path; every branch on a symbolic condition asks the solver which sides are
feasible, and the sides not taken are queued until none is left.
"""
import time
import traceback

from . import terms as T
from .solver import Solver


class Control(BaseException):
    """Base of the engine's own control flow; never caught by code under test
    that catches Exception."""


class PathDropped(Control):
    """An assumption is unsatisfiable on this path."""


class Violation(Control):

    def __init__(self, message, model, known=None):
        super(Violation, self).__init__(message)
        self.message = message
        self.model = model
        self.known = known


class Limit(Control):
    pass


class Hang(Control):
    pass


class Nondeterminism(Control):
    pass


class Engine(object):

    def __init__(self, which='z3'):
        self.which, self.which2 = which, None
        self.solver = self.second = None
        self.tasks = 0
        self.pending = []
        self.stats = dict(
            paths=0, dropped=0, branches=0, forced=0, obligations=0,
            obligations_solver=0, obligations_folded=0, obligations_failed=0, concretised=0, unknown=0,
            second_solver=0, validated=0)
        self.covers = {}
        self.notes = {}
        self.known_hits = {}
        self.max_branches = 200000

    def restart_solvers(self):
        self.tasks += 1
        for s in (self.solver, self.second):
            if s is not None:
                s.close()
        self.solver = Solver(self.which)
        self.second = Solver(self.which2) if self.which2 else None

    # path state

    def begin(self, prefix, model):
        self.prefix, self.old_values = prefix
        self.taken = []
        self.values = []
        self.model = dict(model)
        self.pc = []
        self.facts = {}
        self.names = []
        self.name_set = set()
        self.labels = {}
        self.inputs = []
        self.observed = []
        self.fresh_n = 0
        self.checks = []

    def label(self, label):
        n = self.labels.get(label, 0)
        self.labels[label] = n + 1
        return '%s#%d' % (label, n) if n else label

    def new_int(self, label, lo, hi):
        v = T.var(label, lo, hi)
        a = v.items[0][0]
        if a.smt not in self.name_set:
            self.name_set.add(a.smt)
            self.names.append((a.smt, 'Int'))
            self.model.setdefault(a.smt, T.default_value(a))
            if lo is not None or hi is not None:
                self.pc.append(T.bound(v))
        return v

    def new_bool(self, label):
        b = T.bvar(label)
        s = T.symbol(label)
        if s not in self.name_set:
            self.name_set.add(s)
            self.names.append((s, 'Bool'))
            self.model.setdefault(s, False)
        return b

    # branching

    def learn(self, term, value):
        """Record that `term` is `value` on this path."""
        t = term if value else T.not_(term)
        self.pc.append(t)
        self._fact(t)

    def _fact(self, t):
        self.facts[t.id] = True
        n = T.not_(t)
        if isinstance(n, T.B):
            self.facts[n.id] = False
        if t.op == 'and':
            for x in t.args:
                if x.id not in self.facts:
                    self._fact(x)

    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        known = self.facts.get(cond.id)
        if known is not None:
            return known
        i = len(self.taken)
        if i < len(self.prefix):
            v, tid = self.prefix[i]
            if tid is not None and tid != cond.id:
                raise Nondeterminism('branch %d: %s' % (i, T.smt(cond)[:200]))
            self.taken.append((v, tid))
            self.learn(cond, v)
            return v
        if i > self.max_branches:
            raise Limit('more than %d branches' % self.max_branches)
        v = T.eval_bool(cond, self.model)
        other = T.not_(cond) if v else cond
        verdict, m = self.solver.check(self.pc, other, self.names)
        self.stats['branches'] += 1
        if verdict == 'unsat':
            self.stats['forced'] += 1
            # forced: remembered as a fact, asserted for the benefit of the solver
            self.taken.append((v, cond.id))
            self.learn(cond, v)
            return v
        if verdict == 'unknown':
            self.stats['unknown'] += 1
            self.notes['incomplete: solver gave up on a branch'] = True
            m = self.model
        self.pending.append(((self.taken + [(not v, cond.id)], list(self.values)), m))
        self.taken.append((v, cond.id))
        self.learn(cond, v)
        return v

    def choose(self, var, n):
        """Multi-way split of a fresh variable over 0..n-1."""
        i = len(self.taken)
        a = var.items[0][0]
        if n == 1:
            return 0
        if i < len(self.prefix):
            v, tid = self.prefix[i]
            if tid is not None and tid != var.id:
                raise Nondeterminism('choice %d' % i)
        else:
            v = 0
            for j in range(n - 1, 0, -1):
                m = dict(self.model)
                m[a.smt] = j
                self.pending.append(((self.taken + [(j, var.id)], list(self.values)), m))
            self.stats['branches'] += n - 1
        self.taken.append((v, var.id))
        self.model[a.smt] = v
        t = T.eq(var, v)
        if t is not True:
            self.learn(t, True)
        return v

    def concretise_int(self, lin, limit=400):
        """Case split over all the values of an integer term."""
        if isinstance(lin, int):
            return lin
        for _ in range(limit):
            i = len(self.values)
            v = self.old_values[i] if i < len(self.old_values) else T.eval_int(lin, self.model)
            self.values.append(v)
            if self.branch(T.eq(lin, v)):
                return v
        raise Limit('case split over more than %d values' % limit)

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathDropped()
        if self.facts.get(cond.id) is True:
            return
        if not T.eval_bool(cond, self.model):
            verdict, m = self.solver.check(self.pc, cond, self.names)
            if verdict == 'unsat':
                raise PathDropped()
            if verdict == 'sat':
                self.model.update(m)
            else:
                self.stats['unknown'] += 1
        self.learn(cond, True)

    def assume_domain(self, lin, dom):
        """Restrict a fresh variable to a set of values."""
        a = lin.items[0][0]
        dom = sorted(dom)
        parts, i = [], 0
        while i < len(dom):
            j = i
            while j + 1 < len(dom) and dom[j + 1] == dom[j] + 1:
                j += 1
            parts.append(T.and_(T.le(dom[i], lin), T.le(lin, dom[j])))
            i = j + 1
        t = T.or_(*parts)
        if t is True:
            return
        if self.model.get(a.smt) not in dom:
            self.model[a.smt] = dom[0]
        self.learn(t, True)

    def check(self, cond, message, known=()):
        """Obligation: cond holds on every input of this path.  `known` is a
        list of (finding id, predicate term)."""
        self.stats['obligations'] += 1
        if cond is True:
            self.stats['obligations_folded'] += 1
            return
        neg = T.not_(cond)
        for fid, pred in known:
            hit = T.and_(neg, pred)
            if hit is False:
                continue
            if fid not in self.known_hits:
                verdict, m = self._sat(hit)
                if verdict == 'sat':
                    self.known_hits[fid] = dict(message=message, model=m, inputs=list(self.inputs))
            neg = T.and_(neg, T.not_(pred))
        if neg is False:
            return
        verdict, m = self._sat(neg)
        self.stats['obligations_solver'] += 1
        if verdict == 'sat':
            self.stats['obligations_failed'] += 1
            raise Violation(message, m)
        if verdict == 'unknown':
            self.stats['unknown'] += 1
        self.assume(T.not_(neg))

    def _sat(self, t):
        if t is True:
            return 'sat', dict(self.model)
        verdict, m = self.solver.check(self.pc, t, self.names)
        if self.second is not None and verdict in ('sat', 'unsat'):
            v2, _ = self.second.check(self.pc, t, self.names)
            self.stats['second_solver'] += 1
            if v2 != verdict and v2 != 'unknown':
                raise RuntimeError('solvers disagree: %s/%s on %s' % (verdict, v2, T.smt(t)[:500]))
        return verdict, m


#: The engine of the current process; None when running natively.
E = None


def set_engine(e):
    global E
    E = e
    return e


def current():
    return E
