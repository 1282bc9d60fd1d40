"""
What a harness uses.  The same harness runs symbolically (inputs are solver
variables, `check` is a proof obligation) and natively (inputs are given
concrete values, `check` is an assertion): the second is how a counterexample
is replayed on the real, uninstrumented code.
"""
import datetime
import decimal
import json
import uuid

from . import engine
from . import terms as T
from . import models
from .values import (
    Sym, SymBool, SymInt, SymFloat, SymDecimal, SymStr, SymNum, Ext, Base, mkbool, term_of, ext, ext_eq, is_strlike,
)


class ReplayViolation(Exception):
    pass


class ReplayDiverged(Exception):
    pass


class Native(object):
    """Provider of concrete inputs."""

    def __init__(self, inputs):
        self.inputs = inputs
        self.labels = {}
        self.observed = []
        self.known = []
        self.covers = set()

    def label(self, label):
        n = self.labels.get(label, 0)
        self.labels[label] = n + 1
        return '%s#%d' % (label, n) if n else label

    def get(self, label):
        label = self.label(label)
        if label not in self.inputs:
            raise ReplayDiverged('no value for %s' % label)
        return decode(self.inputs[label])


NATIVE = None


def set_native(n):
    global NATIVE
    NATIVE = n
    return n


def symbolic():
    return NATIVE is None


# -- encoding of concrete values in replay files

def encode(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return {'float': repr(v)}
    if isinstance(v, decimal.Decimal):
        return {'decimal': str(v)}
    raise TypeError(repr(v))


def decode(v):
    if isinstance(v, dict):
        if 'float' in v:
            return float(v['float'])
        return decimal.Decimal(v['decimal'])
    return v


def lower(v, m):
    """The concrete value of v under model m."""
    if isinstance(v, Sym):
        return v.lower_(m)
    if isinstance(v, models.ReprOf):
        return repr(lower(v.v, m))
    t = type(v)
    if t is list:
        return [lower(x, m) for x in v]
    if t is tuple:
        return tuple(lower(x, m) for x in v)
    if isinstance(v, dict):
        return {lower(k, m): lower(x, m) for k, x in dict.items(v)}
    return v


# -- inputs

ASCII = tuple(range(32, 127))


def _record(label, v):
    engine.E.inputs.append((label, v))
    return v


def int_(label, lo, hi):
    """An integer lo <= i <= hi."""
    if NATIVE is not None:
        return NATIVE.get(label)
    e = engine.E
    label = e.label(label)
    if lo == hi:
        return _record(label, lo)
    return _record(label, SymInt(e.new_int(label, lo, hi)))


def bool_(label):
    if NATIVE is not None:
        return NATIVE.get(label)
    e = engine.E
    label = e.label(label)
    return _record(label, SymBool(e.new_bool(label)))


def float_(label, lo, hi, special=True, den=8):
    """A float n/den with lo <= n/den <= hi, or (special) nan, inf, -inf."""
    if NATIVE is not None:
        return NATIVE.get(label)
    e = engine.E
    label = e.label(label)
    kind = e.new_int(label + '.kind', 0, 3) if special else 0
    num = e.new_int(label + '.num', lo * den, hi * den)
    return _record(label, SymFloat(Ext(kind, num, den)))


def decimal_(label, lo, hi, special=True, den=100):
    if NATIVE is not None:
        return NATIVE.get(label)
    e = engine.E
    label = e.label(label)
    kind = e.new_int(label + '.kind', 0, 3) if special else 0
    num = e.new_int(label + '.num', lo * den, hi * den)
    return _record(label, SymDecimal(Ext(kind, num, den)))


def str_(label, cap, alphabet=ASCII, least=0):
    """A string of least..cap characters of the alphabet."""
    if NATIVE is not None:
        return NATIVE.get(label)
    e = engine.E
    label = e.label(label)
    if isinstance(alphabet, str):
        alphabet = tuple(sorted(set(map(ord, alphabet))))
    if cap == 0:
        return _record(label, '')
    n = e.new_int(label + '.len', least, cap) if least != cap else cap
    return _record(label, SymStr([Base(label, n, cap, alphabet)]))


def choice(label, options):
    """One of the options: the path is split over them."""
    options = list(options)
    if NATIVE is not None:
        i = NATIVE.get(label)
        if not 0 <= i < len(options):
            raise ReplayDiverged(label)
        return options[i]
    e = engine.E
    label = e.label(label)
    if len(options) == 1:
        _record(label, 0)
        return options[0]
    v = e.new_int(label, 0, len(options) - 1)
    i = e.choose(v, len(options))
    _record(label, i)
    return options[i]


def flag(label):
    """A native truth value: the path is split."""
    return choice(label, [False, True])


def pick(label, n):
    """A native integer 0..n-1: the path is split."""
    return choice(label, range(n))


def date_(label, ylo=1999, yhi=2001):
    """Any date of the years ylo..yhi."""
    y, m, d = int_(label + '.y', ylo, yhi), int_(label + '.m', 1, 12), int_(label + '.d', 1, 31)
    if NATIVE is not None:
        return datetime.date(y, m, d)
    from . import temporal as P
    engine.E.assume(P.valid_date(P.lin(y), P.lin(m), P.lin(d)))
    return P.SymDate(P.lin(y), P.lin(m), P.lin(d))


def datetime_(label, ylo=1999, yhi=2001, tz=None):
    d = date_(label, ylo, yhi)
    H, M, S = int_(label + '.H', 0, 23), int_(label + '.M', 0, 59), int_(label + '.S', 0, 59)
    if NATIVE is not None:
        return datetime.datetime(d.year, d.month, d.day, H, M, S, tzinfo=tz)
    from . import temporal as P
    return P.SymDatetime(d.y, d.m, d.d, P.lin(H), P.lin(M), P.lin(S), 0, tz)


def time_(label):
    H, M, S = int_(label + '.H', 0, 23), int_(label + '.M', 0, 59), int_(label + '.S', 0, 59)
    if NATIVE is not None:
        return datetime.time(H, M, S)
    from . import temporal as P
    return P.SymTime(P.lin(H), P.lin(M), P.lin(S))


def struct_(label, ylo=1999, yhi=2001):
    """Any moment of those years as a time.struct_time."""
    d = datetime_(label, ylo, yhi)
    if NATIVE is not None:
        return d.timetuple()
    from . import temporal as P
    return P.SymStruct(d.y, d.m, d.d, d.H, d.M, d.S)


class JsonText(Sym):
    """The JSON text of a document with symbolic leaves; only json.loads looks
    into it."""
    __slots__ = ('data', 'cls')

    def __init__(self, data, cls=str):
        self.data, self.cls = data, cls

    __class__ = property(lambda self: self.cls)

    def json_payload(self):
        def copied(v):
            if type(v) is list:
                return [copied(x) for x in v]
            if type(v) is dict:
                return dict((k, copied(x)) for k, x in v.items())
            return v
        return copied(self.data)

    def lower_(self, m):
        text = json.dumps(lower(self.data, m))
        return text if self.cls is str else text.encode('utf-8')

    def decode(self, *a, **k):
        return JsonText(self.data)

    def encode(self, *a, **k):
        return JsonText(self.data, bytes)

    def strip(self):
        return self

    def __bool__(self):
        return True


def json_text(data, encoded=False):
    """The JSON text of plain data (lists, dicts with text keys, scalars)."""
    if NATIVE is not None:
        text = json.dumps(data)
        return text.encode('utf-8') if encoded else text
    return JsonText(data, bytes if encoded else str)


# -- obligations

def assume(cond):
    if NATIVE is not None:
        if not cond:
            raise ReplayDiverged('assumption')
        return
    engine.E.assume(term_of(cond))


def check(cond, message, known=()):
    """Obligation.  known: [(finding id, predicate)] of listed findings."""
    if NATIVE is not None:
        if not cond:
            for fid, pred in known:
                if pred:
                    NATIVE.known.append((fid, message))
                    return
            raise ReplayViolation(message)
        return
    engine.E.check(term_of(cond), message, [(f, term_of(p)) for f, p in known])


def fail(message, known=()):
    check(False, message, known)


def cover(label):
    if NATIVE is not None:
        NATIVE.covers.add(label)
        return
    c = engine.E.covers
    c[label] = c.get(label, 0) + 1


def observe(value):
    """Part of the outcome that a native run on the same input must share."""
    if NATIVE is not None:
        NATIVE.observed.append(show(value))
        return
    engine.E.observed.append(value)


def show(v):
    """Canonical text of a concrete value."""
    if isinstance(v, dict):
        return '{%s}' % ', '.join(sorted('%s: %s' % (show(k), show(x)) for k, x in dict.items(v)))
    if isinstance(v, (list, tuple)):
        return '[%s]' % ', '.join(show(x) for x in v)
    if isinstance(v, float):
        # signed zeros are not told apart
        return repr(v or 0.0)
    if isinstance(v, decimal.Decimal):
        return 'D' + ('0' if v.is_zero() else str(v) if v.is_nan() else str(v.normalize()))
    if v is None or isinstance(v, (bool, int, str, uuid.UUID, datetime.date, datetime.time)):
        return repr(v)
    return type(v).__name__.replace('Sym', '')


# -- comparing results

def and_(*xs):
    if NATIVE is not None:
        return all(xs)
    return mkbool(T.and_(*[term_of(x) for x in xs]))


def or_(*xs):
    if NATIVE is not None:
        return any(xs)
    return mkbool(T.or_(*[term_of(x) for x in xs]))


def not_(x):
    if NATIVE is not None:
        return not x
    return mkbool(T.not_(term_of(x)))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if NATIVE is not None:
        return bool(a) == bool(b)
    return mkbool(T.iff(term_of(a), term_of(b)))


def kind(v):
    """The Python type a value stands for, for comparing results."""
    return v.__class__


def same(a, b):
    """Equal in type and value (nan equals nan, dict subclasses equal dicts)."""
    if a is b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        if a.__class__ is not b.__class__:
            return False
        if not isinstance(a, Sym):
            a, b = b, a
        ea, eb = ext(a), ext(b)
        if ea is not None and eb is not None:
            return mkbool(T.or_(ext_eq(ea, eb), T.and_(ea.is_(1), eb.is_(1))))
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(dict.keys(a)), list(dict.keys(b))
        if len(ka) != len(kb) or any(k not in kb for k in ka):
            return False
        return and_(*[same(dict.__getitem__(a, k), dict.__getitem__(b, k)) for k in ka])
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        return and_(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, (float, decimal.Decimal)) and a != a and b != b:
        return True
    return a == b


def text(x):
    """str(x), possibly symbolic."""
    if NATIVE is not None:
        return str(x)
    return models.m_str(x)


def length(x):
    return len(x) if NATIVE is not None else models.m_len(x)


# -- registration of harnesses

class Harness(object):

    def __init__(self, fn, cases, thorough, covers, budget):
        self.fn, self.name = fn, fn.__name__
        self.cases = cases
        self.thorough = thorough
        self.covers = covers
        self.budget = budget


def harness(cases=((),), thorough=None, covers=(), budget=None):
    """cases: argument tuples, run as separate tasks."""
    def deco(fn):
        h = Harness(fn, [tuple(c) for c in cases], [tuple(c) for c in (thorough or cases)], tuple(covers), budget)
        fn.__globals__.setdefault('HARNESSES', []).append(h)
        return fn
    return deco
