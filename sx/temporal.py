"""Symbolic dates, times and datetimes, and what the datetime/time functions
do with symbolic text."""
import datetime
import time

from . import engine
from . import models
from . import regex
from . import terms as T
from .values import Sym, SymInt, SymStr, mkbool, neg, term_of, native


def E():
    return engine.E


def lin(x):
    if isinstance(x, SymInt):
        return x.l
    return int(x)


def is_leap(y):
    def m(k):
        return T.eq(T.mod(y, k), 0)
    return T.or_(T.and_(m(4), T.not_(m(100))), m(400))


DIM = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def dim(y, m):
    """Days in month m of year y."""
    if type(m) is int and 1 <= m <= 12 and m != 2:
        return DIM[m - 1]
    feb = T.ite(is_leap(y), 29, 28)
    t31 = T.or_(*[T.eq(m, k) for k in (1, 3, 5, 7, 8, 10, 12)])
    return T.ite(T.eq(m, 2), feb, T.ite(t31, 31, 30))


def ordinal(y, m, d):
    p = T.sub(y, 1)
    days = T.add(T.mul(365, p), T.sub(T.add(T.div(p, 4), T.div(p, 400)), T.div(p, 100)))
    before, acc = 0, 0
    parts = []
    for k in range(12):
        parts.append((k + 1, acc))
        acc += DIM[k]
    before = parts[11][1]
    for k, a in reversed(parts[:11]):
        before = T.ite(T.eq(m, k), a, before)
    leap = T.ite(T.and_(T.lt(2, m), is_leap(y)), 1, 0)
    return T.add(T.add(days, before), T.add(leap, d))


def valid_date(y, m, d):
    return T.and_(T.le(1, y), T.le(y, 9999), T.le(1, m), T.le(m, 12), T.le(1, d), T.le(d, dim(y, m)))


def valid_time(H, M, S, us=0):
    return T.and_(T.le(0, H), T.le(H, 23), T.le(0, M), T.le(M, 59), T.le(0, S), T.le(S, 59),
                  T.le(0, us), T.le(us, 999999))


def symbolic(*xs):
    return any(isinstance(x, Sym) for x in xs)


class Ordered(Sym):
    __slots__ = ()

    def __lt__(self, o):
        return self._cmp(o, '<', lambda a, b: T.lt(a, b))

    def __le__(self, o):
        return self._cmp(o, '<=', lambda a, b: T.le(a, b))

    def __gt__(self, o):
        return self._cmp(o, '>', lambda a, b: T.lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, '>=', lambda a, b: T.le(b, a))

    def __eq__(self, o):
        k = self._key(o)
        return False if k is None else mkbool(T.eq(self.key(), k))

    def __ne__(self, o):
        return neg(self == o)

    def _cmp(self, o, op, f):
        k = self._key(o, True)
        if k is None:
            raise TypeError("'%s' not supported between instances of %r and %r" % (
                op, self.__class__.__name__, o.__class__.__name__))
        return mkbool(f(self.key(), k))

    def __hash__(self):
        return hash(self.native())

    def __str__(self):
        return str(self.native())

    def __repr__(self):
        return repr(self.native())

    def __format__(self, spec):
        return format(self.native(), spec)

    def strftime(self, fmt):
        out = written(self, fmt)
        return self.native().strftime(native(fmt)) if out is None else out

    def isoformat(self, *a):
        return self.native().isoformat(*a)

    def native(self):
        c = E().concretise_int
        return self.build(*[c(x) for x in self.parts()])

    def lower_(self, m):
        return self.build(*[T.eval_int(x, m) for x in self.parts()])

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        E().notes['concretised: %s.%s' % (self.__class__.__name__, name)] = True
        return getattr(self.native(), name)


class SymDate(Ordered):
    __slots__ = ('y', 'm', 'd')

    def __init__(self, y, m, d):
        self.y, self.m, self.d = y, m, d

    __class__ = property(lambda self: datetime.date)

    def parts(self):
        return self.y, self.m, self.d

    build = staticmethod(lambda y, m, d: datetime.date(y, m, d))

    def key(self):
        return ordinal(self.y, self.m, self.d)

    def _key(self, o, order=False):
        if type(o) is SymDate:
            return o.key()
        if isinstance(o, datetime.date) and not isinstance(o, datetime.datetime) and not isinstance(o, Sym):
            return o.toordinal()
        return None

    year = property(lambda self: models.mkint(self.y))
    month = property(lambda self: models.mkint(self.m))
    day = property(lambda self: models.mkint(self.d))

    def toordinal(self):
        return models.mkint(self.key())


class SymDatetime(Ordered):
    __slots__ = ('y', 'm', 'd', 'H', 'M', 'S', 'us', 'tz')

    def __init__(self, y, m, d, H, M, S, us=0, tz=None):
        self.y, self.m, self.d, self.H, self.M, self.S, self.us, self.tz = y, m, d, H, M, S, us, tz

    __class__ = property(lambda self: datetime.datetime)

    def parts(self):
        return self.y, self.m, self.d, self.H, self.M, self.S, self.us

    def build(self, *p):
        return datetime.datetime(*p, tzinfo=self.tz)

    def key(self):
        secs = T.add(T.mul(3600, self.H), T.add(T.mul(60, self.M), self.S))
        t = T.add(T.mul(86400, ordinal(self.y, self.m, self.d)), secs)
        if self.tz is not None:
            off = self.tz.utcoffset(None)
            t = T.sub(t, int(off.total_seconds()))
        return T.add(T.mul(1000000, t), self.us)

    def _key(self, o, order=False):
        if not isinstance(o, datetime.datetime):
            return None
        if type(o) is not SymDatetime:
            o = SymDatetime(o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond, o.tzinfo)
        if (o.tz is None) != (self.tz is None):
            if order:
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            return None
        return o.key()

    tzinfo = property(lambda self: self.tz)
    year = property(lambda self: models.mkint(self.y))
    month = property(lambda self: models.mkint(self.m))
    day = property(lambda self: models.mkint(self.d))
    hour = property(lambda self: models.mkint(self.H))
    minute = property(lambda self: models.mkint(self.M))
    second = property(lambda self: models.mkint(self.S))
    microsecond = property(lambda self: models.mkint(self.us))

    def date(self):
        return SymDate(self.y, self.m, self.d)

    def time(self):
        return SymTime(self.H, self.M, self.S, self.us)

    def timetuple(self):
        return SymStruct(self.y, self.m, self.d, self.H, self.M, self.S)

    def replace(self, tzinfo=0, **k):
        if k or tzinfo == 0:
            return self.native().replace(**k)
        return SymDatetime(*self.parts(), tz=tzinfo)


class SymTime(Ordered):
    __slots__ = ('H', 'M', 'S', 'us')

    def __init__(self, H, M, S, us=0):
        self.H, self.M, self.S, self.us = H, M, S, us

    __class__ = property(lambda self: datetime.time)

    def parts(self):
        return self.H, self.M, self.S, self.us

    build = staticmethod(lambda *p: datetime.time(*p))

    def key(self):
        secs = T.add(T.mul(3600, self.H), T.add(T.mul(60, self.M), self.S))
        return T.add(T.mul(1000000, secs), self.us)

    def _key(self, o, order=False):
        if not isinstance(o, datetime.time):
            return None
        if type(o) is not SymTime:
            o = SymTime(o.hour, o.minute, o.second, o.microsecond)
        return o.key()

    hour = property(lambda self: models.mkint(self.H))
    minute = property(lambda self: models.mkint(self.M))
    second = property(lambda self: models.mkint(self.S))


class SymStruct(Ordered):
    """time.struct_time, as time.strptime returns it."""
    __slots__ = ('y', 'm', 'd', 'H', 'M', 'S')

    def __init__(self, y, m, d, H, M, S):
        self.y, self.m, self.d, self.H, self.M, self.S = y, m, d, H, M, S

    __class__ = property(lambda self: time.struct_time)

    def parts(self):
        return self.y, self.m, self.d, self.H, self.M, self.S

    @staticmethod
    def build(*p):
        tt = datetime.date(*p[:3]).timetuple()
        return time.struct_time(tt[:3] + p[3:] + tt[6:])

    def key(self):
        secs = T.add(T.mul(3600, self.H), T.add(T.mul(60, self.M), self.S))
        return T.add(T.mul(86400, ordinal(self.y, self.m, self.d)), secs)

    def _key(self, o, order=False):
        # the fields after the sixth are functions of the first three
        if type(o) is SymStruct:
            return o.key()
        if isinstance(o, time.struct_time) and not isinstance(o, Sym):
            return SymStruct(*o[:6]).key()
        return None

    tm_year = property(lambda self: models.mkint(self.y))
    tm_mon = property(lambda self: models.mkint(self.m))
    tm_mday = property(lambda self: models.mkint(self.d))
    tm_hour = property(lambda self: models.mkint(self.H))
    tm_min = property(lambda self: models.mkint(self.M))
    tm_sec = property(lambda self: models.mkint(self.S))

    def __getitem__(self, i):
        if isinstance(i, int) and not isinstance(i, Sym) and 0 <= i < 6:
            return models.mkint(self.parts()[i])
        return self.native()[i]

    def __iter__(self):
        return iter(self.native())

    def __len__(self):
        return 9


DIRECTIVES = {
    'Y': r'(?P<Y>\d\d\d\d)', 'y': r'(?P<y>\d\d)', 'm': r'(?P<m>1[0-2]|0[1-9]|[1-9])',
    'd': r'(?P<d>3[0-1]|[1-2]\d|0[1-9]|[1-9]| [1-9])', 'H': r'(?P<H>2[0-3]|[0-1]\d|\d)',
    'M': r'(?P<M>[0-5]\d|\d)', 'S': r'(?P<S>6[0-1]|[0-5]\d|\d)', '%': '%',
}


def format_regex(fmt):
    """The regular expression _strptime compiles for fmt, or None."""
    import re
    fmt = re.sub(r'([\\.^$*+?\(\){}\[\]|])', r'\\\1', fmt)
    fmt = re.sub(r'\s+', r'\\s+', fmt)
    out, i = '', 0
    while i < len(fmt):
        if fmt[i] == '%':
            i += 1
            if i >= len(fmt) or fmt[i] not in DIRECTIVES:
                return None
            out += DIRECTIVES[fmt[i]]
        else:
            out += fmt[i]
        i += 1
    return re.compile(out, re.IGNORECASE)


def parse(text, fmt):
    """Fields of text in format fmt; None where it is not modelled."""
    rx = format_regex(fmt)
    if rx is None:
        return None
    m = regex.run(rx, 'match', text)
    if m is None:
        raise ValueError('time data does not match format')
    if m.end() != len(text.chars()):
        raise ValueError('unconverted data remains')
    g = {}
    for k, v in m.groupdict().items():
        x = models.m_int(v.strip() if k == 'd' else v)
        g[k] = lin(x)
    year = g.get('Y')
    if 'y' in g:
        year = T.ite(T.le(g['y'], 68), T.add(g['y'], 2000), T.add(g['y'], 1900))
    month, day = g.get('m', 1), g.get('d', 1)
    fix = False
    if year is None:
        year = 1900
        if E().branch(T.and_(T.eq(month, 2), T.eq(day, 29))):
            fix = True
    if not fix and not E().branch(valid_date(year, month, day)):
        raise ValueError('day is out of range for month')
    return year, month, day, g.get('H', 0), g.get('M', 0), g.get('S', 0), fix


def m_strptime(text, fmt):
    if type(text) is not SymStr and type(fmt) is not SymStr:
        return datetime.datetime.strptime(text, fmt)
    p = parse(text, native(fmt)) if type(text) is SymStr else None
    if p is None:
        return datetime.datetime.strptime(native(text), native(fmt))
    y, m, d, H, M, S, fix = p
    if fix or not E().branch(T.le(S, 59)):
        raise ValueError('day is out of range for month' if fix else 'second must be in 0..59')
    return SymDatetime(y, m, d, H, M, S)


def m_time_strptime(text, fmt='%a %b %d %H:%M:%S %Y'):
    if type(text) is not SymStr:
        return time.strptime(text, native(fmt))
    p = parse(text, native(fmt))
    if p is None:
        return time.strptime(native(text), native(fmt))
    y, m, d, H, M, S, fix = p
    if fix:
        return time.strptime(native(text), native(fmt))
    return SymStruct(y, m, d, H, M, S)


def m_datetime(*a, **k):
    if not symbolic(*a) and not symbolic(*k.values()):
        return datetime.datetime(*a, **k)
    names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')
    v = dict(zip(names, a), **k)
    tz = v.pop('tzinfo', None)
    p = [lin(v.get(n, 0)) for n in names[:7]]
    if not E().branch(T.and_(valid_date(*p[:3]), valid_time(*p[3:]))):
        raise ValueError('datetime field out of range')
    return SymDatetime(*p, tz=tz)


def m_date(*a, **k):
    if not symbolic(*a) and not symbolic(*k.values()):
        return datetime.date(*a, **k)
    v = dict(zip(('year', 'month', 'day'), a), **k)
    p = [lin(v[n]) for n in ('year', 'month', 'day')]
    if not E().branch(valid_date(*p)):
        raise ValueError('date field out of range')
    return SymDate(*p)


def m_time(*a, **k):
    if not symbolic(*a) and not symbolic(*k.values()):
        return datetime.time(*a, **k)
    v = dict(zip(('hour', 'minute', 'second', 'microsecond'), a), **k)
    p = [lin(v.get(n, 0)) for n in ('hour', 'minute', 'second', 'microsecond')]
    if not E().branch(valid_time(*p)):
        raise ValueError('time field out of range')
    return SymTime(*p)


def padded(x, n):
    """The last n digits of x."""
    return [T.add(48, T.mod(T.div(x, 10 ** k), 10)) for k in reversed(range(n))]


def written(v, fmt):
    """The text of v in the format fmt; None where it is not modelled."""
    if type(fmt) is not str:
        return None
    g = dict((k, getattr(v, a) if a in type(v).__slots__ else default) for k, a, default in (
        ('Y', 'y', 1900), ('m', 'm', 1), ('d', 'd', 1), ('H', 'H', 0), ('M', 'M', 0), ('S', 'S', 0)))
    g['y'] = g['Y']
    out, i = [], 0
    while i < len(fmt):
        c = fmt[i]
        if c == '%':
            i += 1
            if i >= len(fmt) or fmt[i] not in DIRECTIVES:
                return None
            if fmt[i] == '%':
                out.append(ord('%'))
            elif fmt[i] == 'Y':
                if not E().branch(T.le(1000, g['Y'])):
                    return None
                out.extend(padded(g['Y'], 4))
            else:
                out.extend(padded(g[fmt[i]], 2))
        else:
            out.append(ord(c))
        i += 1
    return SymStr.of_chars(out)


def m_time_strftime(fmt, *a):
    if len(a) == 1 and type(a[0]) is SymStruct:
        out = written(a[0], fmt)
        if out is not None:
            return out
    return time.strftime(fmt, *[native(x) if isinstance(x, Sym) else x for x in a])


models.METHODS[(id(datetime.datetime), 'strptime')] = m_strptime
models.register(time.strptime, m_time_strptime)
models.register(time.strftime, m_time_strftime)
models.register(datetime.datetime, m_datetime)
models.register(datetime.date, m_date)
models.register(datetime.time, m_time)
