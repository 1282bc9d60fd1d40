"""
Hash-consed terms of quantifier-free linear integer arithmetic with booleans.

Integer terms are either Python ints (constants) or `Lin`: a linear
combination of atoms (`Var`, `Ite`, `Div`, `Mod`) plus a constant.  Boolean
terms are Python bools (constants) or `B` nodes.  Construction normalises and
folds, using the declared bounds of the variables, so that most comparisons of
concrete values never reach the solver.
"""
from math import gcd

_ids = [0]


def _next():
    _ids[0] += 1
    return _ids[0]


class Atom(object):
    """Integer atom."""
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'smt', 'name')


class Lin(object):
    __slots__ = ('id', 'items', 'k', 'lo', 'hi', '_smt')

    def __repr__(self):
        return lin_smt(self)


class B(object):
    """Boolean node: op in var, le, eq, not, and, or, bound."""
    __slots__ = ('id', 'op', 'args', 'neg', '_smt')

    def __repr__(self):
        return smt(self)


_atoms = {}
_lins = {}
_bools = {}
INF = float('inf')


def _atom(key, kind, args, lo, hi, s, name=None):
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = _next()
        a.kind, a.args, a.lo, a.hi, a.smt, a.name = kind, args, lo, hi, s, name
        _atoms[key] = a
    return a


def reset_tables():
    """Forget interned terms (only between harnesses)."""
    _atoms.clear()
    _lins.clear()
    _bools.clear()


def symbol(name):
    return '|' + name.replace('|', '!').replace('\\', '!') + '|'


def var(name, lo=None, hi=None):
    key = ('v', name, lo, hi)
    a = _atoms.get(key)
    if a is None:
        s = symbol('%s{%s,%s}' % (name, lo, hi))
        a = _atom(key, 'var', (), -INF if lo is None else lo, INF if hi is None else hi, s, name)
    return lin1(a)


def lin1(atom):
    return _mk(((atom, 1),), 0)


def _mk(items, k):
    if not items:
        return k
    key = (tuple((a.id, c) for a, c in items), k)
    t = _lins.get(key)
    if t is None:
        t = Lin()
        t.id = _next()
        t.items = items
        t.k = k
        lo = hi = k
        for a, c in items:
            if c > 0:
                lo += c * a.lo
                hi += c * a.hi
            else:
                lo += c * a.hi
                hi += c * a.lo
        t.lo, t.hi, t._smt = lo, hi, None
        _lins[key] = t
    return t


def add(x, y):
    if isinstance(x, int):
        if isinstance(y, int):
            return x + y
        x, y = y, x
    if isinstance(y, int):
        return _mk(x.items, x.k + y) if y else x
    d = {}
    for a, c in x.items:
        d[a.id] = (a, c)
    for a, c in y.items:
        if a.id in d:
            c += d[a.id][1]
            if c == 0:
                del d[a.id]
                continue
        d[a.id] = (a, c)
    return _mk(tuple(d[i] for i in sorted(d)), x.k + y.k)


def mul(c, x):
    if isinstance(x, int):
        return c * x
    if c == 0:
        return 0
    if c == 1:
        return x
    return _mk(tuple((a, c * d) for a, d in x.items), c * x.k)


def sub(x, y):
    return add(x, mul(-1, y))


def ite(cond, x, y):
    if cond is True:
        return x
    if cond is False:
        return y
    if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
        return x
    key = ('ite', cond.id, _tid(x), _tid(y))
    a = _atoms.get(key)
    if a is None:
        lo = min(_lo(x), _lo(y))
        hi = max(_hi(x), _hi(y))
        a = _atom(key, 'ite', (cond, x, y), lo, hi,
                  '(ite %s %s %s)' % (smt(cond), lin_smt(x), lin_smt(y)))
    return lin1(a)


def _tid(x):
    return ('c', x) if isinstance(x, int) else x.id


def _lo(x):
    return x if isinstance(x, int) else x.lo


def _hi(x):
    return x if isinstance(x, int) else x.hi


def div(x, n):
    """Floor division by a positive constant."""
    assert n > 0
    if isinstance(x, int):
        return x // n
    if n == 1:
        return x
    if all(c % n == 0 for _, c in x.items):
        return _mk(tuple((a, c // n) for a, c in x.items), x.k // n)
    key = ('div', x.id, n)
    a = _atoms.get(key)
    if a is None:
        lo = x.lo // n if x.lo != -INF else -INF
        hi = x.hi // n if x.hi != INF else INF
        a = _atom(key, 'div', (x, n), lo, hi, '(div %s %d)' % (lin_smt(x), n))
    return lin1(a)


def mod(x, n):
    assert n > 0
    return sub(x, mul(n, div(x, n)))


def _bool(key, op, args):
    t = _bools.get(key)
    if t is None:
        t = B()
        t.id = _next()
        t.op, t.args, t.neg, t._smt = op, args, None, None
        _bools[key] = t
    return t


def bvar(name):
    return _bool(('v', name), 'var', (name,))


def le0(t):
    """t <= 0"""
    if isinstance(t, int):
        return t <= 0
    if t.hi <= 0:
        return True
    if t.lo > 0:
        return False
    g = 0
    for _, c in t.items:
        g = gcd(g, c)
    if g > 1:
        t = _mk(tuple((a, c // g) for a, c in t.items), -((-t.k) // g))
    return _bool(('le', t.id), 'le', (t,))


def le(x, y):
    return le0(sub(x, y))


def lt(x, y):
    return le0(add(sub(x, y), 1))


def eq(x, y):
    t = sub(x, y)
    if isinstance(t, int):
        return t == 0
    if t.lo > 0 or t.hi < 0:
        return False
    if t.lo == 0 == t.hi:
        return True
    g = 0
    for _, c in t.items:
        g = gcd(g, c)
    if t.k % g:
        return False
    if t.items[0][1] < 0:
        g = -g
    if g != 1:
        t = _mk(tuple((a, c // g) for a, c in t.items), t.k // g)
    return _bool(('eq', t.id), 'eq', (t,))


def not_(b):
    if b is True:
        return False
    if b is False:
        return True
    if b.neg is not None:
        return b.neg
    if b.op == 'not':
        n = b.args[0]
    elif b.op == 'le':
        n = le0(add(mul(-1, b.args[0]), 1))
    elif b.op == 'and':
        n = or_(*[not_(x) for x in b.args])
    elif b.op == 'or':
        n = and_(*[not_(x) for x in b.args])
    else:
        n = _bool(('not', b.id), 'not', (b,))
    b.neg = n
    if isinstance(n, B):
        n.neg = b
    return n


def _nary(op, absorbing, args):
    out, seen = [], set()
    for x in args:
        if x is absorbing:
            return absorbing
        if x is (not absorbing):
            continue
        for y in (x.args if x.op == op else (x,)):
            if y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    for y in out:
        n = not_(y)
        if isinstance(n, B) and n.id in seen:
            return absorbing
    if not out:
        return not absorbing
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _bool((op,) + tuple(t.id for t in out), op, tuple(out))


def and_(*args):
    return _nary('and', False, args)


def or_(*args):
    return _nary('or', True, args)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return not_(b)
    if b is False:
        return not_(a)
    if a is b:
        return True
    return or_(and_(a, b), and_(not_(a), not_(b)))


def bound(v):
    """The declared bounds of variable `v` as a constraint (never folded)."""
    a = v.items[0][0]
    return _bool(('bound', a.id), 'bound', (a,))


def _n(i):
    return str(i) if i >= 0 else '(- %d)' % -i


def lin_smt(t):
    if isinstance(t, int):
        return _n(t)
    if t._smt is None:
        parts = []
        for a, c in t.items:
            parts.append(a.smt if c == 1 else '(* %s %s)' % (_n(c), a.smt))
        if t.k:
            parts.append(_n(t.k))
        t._smt = parts[0] if len(parts) == 1 else '(+ %s)' % ' '.join(parts)
    return t._smt


def smt(b):
    if b is True:
        return 'true'
    if b is False:
        return 'false'
    if b._smt is None:
        op = b.op
        if op == 'var':
            s = symbol(b.args[0])
        elif op in ('le', 'eq'):
            t = b.args[0]
            rel = '<=' if op == 'le' else '='
            s = '(%s %s %s)' % (rel, lin_smt(_mk(t.items, 0)), _n(-t.k))
        elif op == 'not':
            s = '(not %s)' % smt(b.args[0])
        elif op == 'bound':
            a = b.args[0]
            parts = []
            if a.lo != -INF:
                parts.append('(<= %s %s)' % (_n(a.lo), a.smt))
            if a.hi != INF:
                parts.append('(<= %s %s)' % (a.smt, _n(a.hi)))
            s = '(and true %s)' % ' '.join(parts)
        else:
            s = '(%s %s)' % (op, ' '.join(smt(x) for x in b.args))
        b._smt = s
    return b._smt


# evaluation under a model: {var name: value}; a missing variable takes the
# value nearest to zero within its bounds.

def default_value(a):
    v = 0
    if a.lo > 0:
        v = a.lo
    elif a.hi < 0:
        v = a.hi
    return v


def eval_atom(a, m):
    k = a.kind
    if k == 'var':
        v = m.get(a.smt)
        return default_value(a) if v is None else v
    if k == 'ite':
        c, x, y = a.args
        return eval_int(x if eval_bool(c, m) else y, m)
    if k == 'div':
        return eval_int(a.args[0], m) // a.args[1]
    raise AssertionError(k)


def eval_int(t, m):
    if isinstance(t, int):
        return t
    r = t.k
    for a, c in t.items:
        r += c * eval_atom(a, m)
    return r


def eval_bool(b, m):
    if b is True or b is False:
        return b
    op = b.op
    if op == 'le':
        return eval_int(b.args[0], m) <= 0
    if op == 'eq':
        return eval_int(b.args[0], m) == 0
    if op == 'var':
        return m.get(symbol(b.args[0]), False)
    if op == 'not':
        return not eval_bool(b.args[0], m)
    if op == 'and':
        for x in b.args:
            if not eval_bool(x, m):
                return False
        return True
    if op == 'or':
        for x in b.args:
            if eval_bool(x, m):
                return True
        return False
    if op == 'bound':
        a = b.args[0]
        return a.lo <= eval_atom(a, m) <= a.hi
    raise AssertionError(op)
