"""
Symbolic stand-ins for Python values.

Each answers `__class__` with the Python type it stands for, so that
isinstance() in the code under test sees that type, and turns comparisons into
solver terms.  A native `__bool__`, `__index__` or `__hash__` splits the path.
"""
import decimal

from . import terms as T
from . import engine


def E():
    return engine.E


class Sym(object):
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def term_of(b):
    """Boolean term of a (symbolic or native) truth value."""
    if b is True or b is False:
        return b
    if isinstance(b, SymBool) and type(b) is SymBool:
        return b.t
    if isinstance(b, T.B):
        return b
    if b is NotImplemented:
        return False
    return bool(b)


def mkbool(t):
    if t is True or t is False:
        return t
    return SymBool(t)


def mkint(l):
    if type(l) is int:
        return l
    return SymInt(l)


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return E().branch(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def _lin(self):
        return T.ite(self.t, 1, 0)

    def __eq__(self, o):
        if o is True or o is False:
            return mkbool(self.t if o else T.not_(self.t))
        if type(o) is SymBool:
            return mkbool(T.iff(self.t, o.t))
        return SymInt(self._lin()).__eq__(o)

    def __ne__(self, o):
        return neg(self == o)

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(T.and_(self.t, term_of(o)))
        return mkint(self._lin()) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(T.or_(self.t, term_of(o)))
        return mkint(self._lin()) | o

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(T.not_(T.iff(self.t, term_of(o))))

    def __lt__(self, o):
        return SymInt(self._lin()) < o

    def __le__(self, o):
        return SymInt(self._lin()) <= o

    def __gt__(self, o):
        return SymInt(self._lin()) > o

    def __ge__(self, o):
        return SymInt(self._lin()) >= o

    def __add__(self, o):
        return SymInt(self._lin()) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(self._lin()) * o

    __rmul__ = __mul__

    def __str__(self):
        return 'True' if self else 'False'

    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def lower_(self, m):
        return T.eval_bool(self.t, m)


def neg(b):
    if b is NotImplemented:
        return b
    return mkbool(T.not_(term_of(b)))


class Ext(object):
    """An extended rational: kind 0 finite num/den, 1 nan, 2 +inf, 3 -inf."""
    __slots__ = ('kind', 'num', 'den')

    def __init__(self, kind, num, den):
        self.kind, self.num, self.den = kind, num, den

    def is_(self, k):
        return T.eq(self.kind, k)


def ext(x):
    """Extended rational of a number, or None."""
    t = type(x)
    if t is bool or t is int:
        return Ext(0, int(x), 1)
    if t is SymInt:
        return Ext(0, x.l, 1)
    if t is SymBool:
        return Ext(0, x._lin(), 1)
    if t is SymFloat or t is SymDecimal:
        return x.e
    if t is float:
        if x != x:
            return Ext(1, 0, 1)
        if x in (float('inf'), float('-inf')):
            return Ext(2 if x > 0 else 3, 0, 1)
        n, d = x.as_integer_ratio()
        return Ext(0, n, d)
    if isinstance(x, decimal.Decimal) and not isinstance(x, Sym):
        if x.is_nan():
            return Ext(1, 0, 1)
        if x.is_infinite():
            return Ext(2 if x > 0 else 3, 0, 1)
        n, d = x.as_integer_ratio()
        return Ext(0, n, d)
    return None


def ext_eq(a, b):
    fin = T.and_(a.is_(0), b.is_(0), T.eq(T.mul(b.den, a.num), T.mul(a.den, b.num)))
    return T.or_(fin, T.and_(a.is_(2), b.is_(2)), T.and_(a.is_(3), b.is_(3)))


def ext_le(a, b, strict):
    f = T.lt if strict else T.le
    fin = T.and_(a.is_(0), b.is_(0), f(T.mul(b.den, a.num), T.mul(a.den, b.num)))
    num = T.and_(T.not_(a.is_(1)), T.not_(b.is_(1)))
    if strict:
        rest = T.or_(T.and_(a.is_(3), T.not_(b.is_(3))), T.and_(b.is_(2), T.not_(a.is_(2))))
    else:
        rest = T.or_(a.is_(3), b.is_(2))
    return T.or_(fin, T.and_(num, rest))


class SymNum(Sym):
    __slots__ = ()

    def _cmp(self, o, op):
        b = ext(o)
        if b is None:
            return NotImplemented
        a = ext(self)
        if op != 'eq' and (isinstance(self, decimal.Decimal) or isinstance(o, decimal.Decimal)):
            if E().branch(T.or_(a.is_(1), b.is_(1))):
                raise decimal.InvalidOperation('comparison involving NaN')
        if op == 'eq':
            return mkbool(ext_eq(a, b))
        if op == 'lt':
            return mkbool(ext_le(a, b, True))
        if op == 'le':
            return mkbool(ext_le(a, b, False))
        if op == 'gt':
            return mkbool(ext_le(b, a, True))
        return mkbool(ext_le(b, a, False))

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return neg(self == o)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __str__(self):
        return str(self.native())

    def __repr__(self):
        return repr(self.native())

    def __format__(self, spec):
        return format(self.native(), spec)

    def __hash__(self):
        return hash(self.native())


class SymInt(SymNum):
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    __class__ = property(lambda self: int)

    def native(self):
        return E().concretise_int(self.l)

    def __bool__(self):
        return E().branch(T.not_(T.eq(self.l, 0)))

    def __index__(self):
        return self.native()

    __int__ = __index__

    def __float__(self):
        return float(self.native())

    def __trunc__(self):
        return self

    def _arith(self, o, f):
        if type(o) is int or type(o) is bool:
            return mkint(f(self.l, int(o)))
        if type(o) is SymInt:
            return mkint(f(self.l, o.l))
        if type(o) is SymBool:
            return mkint(f(self.l, o._lin()))
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, T.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, T.sub)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: T.sub(b, a))

    def __neg__(self):
        return mkint(T.mul(-1, self.l))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(T.ite(T.le(0, self.l), self.l, T.mul(-1, self.l)))

    def __mul__(self, o):
        if type(o) is SymInt:
            o = o.native()
        if type(o) is int or type(o) is bool:
            return mkint(T.mul(int(o), self.l))
        if isinstance(o, (str, list, tuple)):
            return o * self.native()
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return mkint(T.div(self.l, o))
        return self.native() // o

    def __rfloordiv__(self, o):
        return o // self.native()

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(T.mod(self.l, o))
        return self.native() % o

    def __rmod__(self, o):
        return o % self.native()

    def __truediv__(self, o):
        return self.native() / o

    def __rtruediv__(self, o):
        return o / self.native()

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return self.native() ** o

    def __and__(self, o):
        return self.native() & o

    def __or__(self, o):
        return self.native() | o

    def __xor__(self, o):
        return self.native() ^ o

    def __invert__(self):
        return mkint(T.sub(-1, self.l))

    def __lshift__(self, o):
        return self.native() << o

    def __rshift__(self, o):
        return self.native() >> o

    def bit_length(self):
        return self.native().bit_length()

    def is_integer(self):
        return True

    numerator = property(lambda self: self)
    denominator = 1
    real = property(lambda self: self)
    imag = 0

    def conjugate(self):
        return self

    def lower_(self, m):
        return T.eval_int(self.l, m)


class SymFloat(SymNum):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: float)

    def native(self):
        k = E().concretise_int(self.e.kind)
        if k:
            return (None, float('nan'), float('inf'), float('-inf'))[k]
        return E().concretise_int(self.e.num) / self.e.den

    def __bool__(self):
        return E().branch(T.not_(T.and_(self.e.is_(0), T.eq(self.e.num, 0))))

    def __float__(self):
        return self.native()

    def is_integer(self):
        if self.e.den == 1:
            return mkbool(self.e.is_(0))
        return mkbool(T.and_(self.e.is_(0), T.eq(T.mod(self.e.num, self.e.den), 0)))

    def __trunc__(self):
        return self.trunc()

    def __int__(self):
        return int(self.native())

    def trunc(self):
        """int(self)"""
        if E().branch(self.e.is_(1)):
            raise ValueError('cannot convert float NaN to integer')
        if not E().branch(self.e.is_(0)):
            raise OverflowError('cannot convert float infinity to integer')
        n, d = self.e.num, self.e.den
        return mkint(T.ite(T.le(0, n), T.div(n, d), T.mul(-1, T.div(T.mul(-1, n), d))))

    def __neg__(self):
        k = self.e.kind
        k = T.ite(T.eq(k, 2), 3, T.ite(T.eq(k, 3), 2, k))
        return SymFloat(Ext(k, T.mul(-1, self.e.num), self.e.den))

    def __abs__(self):
        return -self if self < 0 else self

    def _arith(self, o, f):
        b = ext(o)
        if b is None:
            return NotImplemented
        a = self.e
        if E().branch(T.and_(a.is_(0), b.is_(0))):
            return SymFloat(Ext(0, f(T.mul(b.den, a.num), T.mul(a.den, b.num)), a.den * b.den))
        x = self.native()
        y = o.native() if isinstance(o, Sym) else o
        return x + y if f is T.add else x - y

    def __add__(self, o):
        return self._arith(o, T.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, T.sub)

    def __rsub__(self, o):
        return -(self - o)

    def __mul__(self, o):
        return self.native() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.native() / o

    def __rtruediv__(self, o):
        return o / self.native()

    def __floordiv__(self, o):
        return self.native() // o

    def __mod__(self, o):
        return self.native() % o

    def __floor__(self):
        import math
        return math.floor(self.native())

    def __round__(self, n=None):
        return round(self.native(), n) if n is not None else round(self.native())

    def as_integer_ratio(self):
        return self.native().as_integer_ratio()

    def hex(self):
        return self.native().hex()

    real = property(lambda self: self)
    imag = 0.0

    def lower_(self, m):
        k = T.eval_int(self.e.kind, m)
        if k:
            return (None, float('nan'), float('inf'), float('-inf'))[k]
        return T.eval_int(self.e.num, m) / self.e.den


class SymDecimal(SymNum):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: decimal.Decimal)

    def native(self):
        k = E().concretise_int(self.e.kind)
        if k:
            return decimal.Decimal((None, 'NaN', 'Infinity', '-Infinity')[k])
        return decimal.Decimal(E().concretise_int(self.e.num)) / self.e.den

    def __bool__(self):
        return E().branch(T.not_(T.and_(self.e.is_(0), T.eq(self.e.num, 0))))

    def _arith(self, o, f):
        if isinstance(o, float):
            return NotImplemented
        b = ext(o)
        if b is None:
            return NotImplemented
        a = self.e
        if E().branch(T.and_(a.is_(0), b.is_(0))):
            return SymDecimal(Ext(0, f(T.mul(b.den, a.num), T.mul(a.den, b.num)), a.den * b.den))
        x = self.native()
        y = native(o)
        return x + y if f is T.add else x - y

    def __add__(self, o):
        return self._arith(o, T.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, T.sub)

    def __mul__(self, o):
        b = ext(o)
        if isinstance(o, Sym) or b is None or isinstance(o, float) or b.kind != 0:
            return self.native() * native(o)
        if E().branch(self.e.is_(0)):
            return SymDecimal(Ext(0, T.mul(b.num, self.e.num), self.e.den * b.den))
        return self.native() * o

    __rmul__ = __mul__

    def __rsub__(self, o):
        return native(o) - self.native()

    def __neg__(self):
        return -self.native()

    def __abs__(self):
        return abs(self.native())

    def __truediv__(self, o):
        return self.native() / native(o)

    def __floordiv__(self, o):
        return self.native() // native(o)

    def __mod__(self, o):
        return self.native() % native(o)

    def __float__(self):
        return float(self.native())

    def __int__(self):
        return int(self.native())

    def is_nan(self):
        return mkbool(self.e.is_(1))

    def is_qnan(self):
        return mkbool(self.e.is_(1))

    def is_snan(self):
        return False

    def is_infinite(self):
        return mkbool(T.or_(self.e.is_(2), self.e.is_(3)))

    def is_finite(self):
        return mkbool(self.e.is_(0))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        E().notes['concretised: Decimal.%s' % name] = True
        return getattr(self.native(), name)

    def lower_(self, m):
        k = T.eval_int(self.e.kind, m)
        if k:
            return decimal.Decimal((None, 'NaN', 'Infinity', '-Infinity')[k])
        return decimal.Decimal(T.eval_int(self.e.num, m)) / self.e.den


class Base(object):
    """A string variable: symbolic length, symbolic code points."""
    __slots__ = ('name', 'n', 'cap', 'dom', '_chars')

    def __init__(self, name, n, cap, dom):
        self.name, self.n, self.cap, self.dom, self._chars = name, n, cap, dom, []

    def char(self, i):
        cs = self._chars
        while len(cs) <= i:
            lo, hi = min(self.dom), max(self.dom)
            c = E().new_int('%s[%d]' % (self.name, len(cs)), lo, hi)
            if len(self.dom) != hi - lo + 1:
                E().assume_domain(c, self.dom)
            cs.append(c)
        return cs[i]


class Digits(object):
    """str(int) as a string segment, expanded only when looked into."""
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l


class Opaque(object):
    """str(value) of a value whose text is not modelled (floats, ...)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


WS = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0)


def ch(c):
    return chr(c) if type(c) is int else SymStr([(c,)])


def is_strlike(x):
    return type(x) is SymStr or (isinstance(x, str) and not isinstance(x, Sym))


def same_seg(a, b):
    if a is b:
        return True
    if type(a) is Digits and type(b) is Digits:
        return a.l is b.l
    return type(a) is Opaque and type(b) is Opaque and a.v is b.v


def cancel(x, y):
    """Drop the common prefix of two segment lists; None if they differ."""
    x, y = list(x), list(y)
    while x and y:
        a, b = x[0], y[0]
        if type(a) is str and type(b) is str:
            n = min(len(a), len(b))
            if a[:n] != b[:n]:
                return None
            x[:1] = [a[n:]] if len(a) > n else []
            y[:1] = [b[n:]] if len(b) > n else []
        elif same_seg(a, b):
            del x[0], y[0]
        else:
            break
    return x, y


class SymStr(Sym):
    """A string: a list of segments, each a native str, a tuple of code point
    terms, a `Base`, `Digits` or `Opaque`."""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = segs

    __class__ = property(lambda self: str)

    # -- structure

    @staticmethod
    def lift(x):
        if type(x) is SymStr:
            return x
        return SymStr([str.__str__(x)] if x else [])

    @staticmethod
    def concat(parts):
        segs = []
        for p in parts:
            if type(p) is SymStr:
                segs.extend(p.segs)
            elif p:
                segs.append(str(p))
        out = []
        for s in segs:
            if type(s) is str and out and type(out[-1]) is str:
                out[-1] += s
            elif type(s) is tuple and out and type(out[-1]) is tuple:
                out[-1] += s
            elif s:
                out.append(s)
        return SymStr(out).simplify()

    def simplify(self):
        if not self.segs:
            return ''
        if len(self.segs) == 1 and type(self.segs[0]) is str:
            return self.segs[0]
        return self

    @staticmethod
    def of_chars(cs):
        if all(type(c) is int for c in cs):
            return ''.join(map(chr, cs))
        return SymStr([tuple(cs)])

    def length(self):
        """Length term, without looking into the content."""
        n = 0
        for i, s in enumerate(self.segs):
            if type(s) is Base:
                n = T.add(n, s.n)
            else:
                if type(s) not in (str, tuple):
                    s = self._expand(i)
                n = T.add(n, len(s))
        return n

    def _expand(self, i):
        s = self.segs[i]
        if type(s) is Base:
            n = E().concretise_int(s.n)
            s = tuple(s.char(j) for j in range(n))
        elif type(s) is Digits:
            s = digits(s.l)
        elif type(s) is Opaque:
            E().notes['concretised: text of %s' % type(s.v).__name__] = True
            E().stats['concretised'] += 1
            s = str(s.v)
        self.segs[i] = s
        return s

    def chars(self):
        """List of code point terms; splits the path on unknown lengths."""
        out = []
        for i in range(len(self.segs)):
            s = self._expand(i)
            if type(s) is str:
                out.extend(map(ord, s))
            else:
                out.extend(s)
        return out

    def native(self):
        cs = self.chars()
        return ''.join(chr(E().concretise_int(c)) for c in cs)

    def lower_(self, m):
        out = []
        for s in self.segs:
            if type(s) is str:
                out.append(s)
            elif type(s) is tuple:
                out.extend(chr(T.eval_int(c, m)) for c in s)
            elif type(s) is Base:
                out.extend(chr(eval_char(s, i, m)) for i in range(T.eval_int(s.n, m)))
            elif type(s) is Digits:
                out.append(str(T.eval_int(s.l, m)))
            else:
                v = s.v
                out.append(str(v.lower_(m) if isinstance(v, Sym) else v))
        return ''.join(out)

    # -- protocol

    def __bool__(self):
        if any(type(s) is str or type(s) is tuple or type(s) in (Digits, Opaque) for s in self.segs if s):
            return True
        return E().branch(T.not_(T.eq(self.length(), 0)))

    def __len__(self):
        return E().concretise_int(self.length())

    def __hash__(self):
        return hash(self.native())

    def __str__(self):
        return self.native()

    def __repr__(self):
        return repr(self.native())

    def __format__(self, spec):
        return format(self.native(), spec)

    def _eq(self, o):
        if len(self.segs) == 1 and type(self.segs[0]) is Base:
            b = self.segs[0]
            if type(o) is str:
                if len(o) > b.cap:
                    return False
                t = T.eq(b.n, len(o))
                if t is False:
                    return False
                return T.and_(t, *[T.eq(b.char(i), ord(c)) for i, c in enumerate(o)])
            if len(o.segs) == 1 and type(o.segs[0]) is Base:
                c = o.segs[0]
                if c is b:
                    return True
                k = min(b.cap, c.cap)
                return T.and_(T.eq(b.n, c.n), *[
                    T.or_(T.le(b.n, i), T.eq(b.char(i), c.char(i))) for i in range(k)])
        elif type(o) is not str and len(o.segs) == 1 and type(o.segs[0]) is Base:
            return o._eq(self)
        c = cancel(self.segs, SymStr.lift(o).segs)
        if c is None:
            return False
        if not c[0] and not c[1]:
            return True
        x, y = SymStr(c[0]).chars(), SymStr(c[1]).chars()
        if len(x) != len(y):
            return False
        return T.and_(*[T.eq(a, b) for a, b in zip(x, y)])

    def __eq__(self, o):
        if not is_strlike(o):
            return False
        return mkbool(self._eq(o if type(o) is SymStr else str.__str__(o)))

    def __ne__(self, o):
        return neg(self == o)

    def _less(self, o, strict):
        x = self.chars()
        y = list(map(ord, o)) if type(o) is not SymStr else o.chars()
        res = (len(x) < len(y)) if strict else (len(x) <= len(y))
        for a, b in reversed(list(zip(x, y))):
            res = T.or_(T.lt(a, b), T.and_(T.eq(a, b), res))
        return mkbool(res)

    def __lt__(self, o):
        return self._less(o, True) if is_strlike(o) else NotImplemented

    def __le__(self, o):
        return self._less(o, False) if is_strlike(o) else NotImplemented

    def __gt__(self, o):
        return SymStr.lift(o)._less(self, True) if is_strlike(o) else NotImplemented

    def __ge__(self, o):
        return SymStr.lift(o)._less(self, False) if is_strlike(o) else NotImplemented

    def __add__(self, o):
        return SymStr.concat([self, o]) if is_strlike(o) else NotImplemented

    def __radd__(self, o):
        return SymStr.concat([o, self]) if is_strlike(o) else NotImplemented

    def __mul__(self, n):
        return SymStr.of_chars(self.chars() * n)

    __rmul__ = __mul__

    def __mod__(self, a):
        return self.native() % a

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr.of_chars(self.chars()[i])
        if type(i) is SymInt:
            i = i.native()
        if len(self.segs) == 1 and type(self.segs[0]) is Base and i >= 0:
            b = self.segs[0]
            if i < b.cap and E().branch(T.lt(i, b.n)):
                return ch(b.char(i))
            raise IndexError('string index out of range')
        return ch(self.chars()[i])

    def __iter__(self):
        if len(self.segs) == 1 and type(self.segs[0]) is Base:
            b = self.segs[0]
            i = 0
            while i < b.cap and E().branch(T.lt(i, b.n)):
                yield ch(b.char(i))
                i += 1
            return
        for c in self.chars():
            yield ch(c)

    def __reversed__(self):
        return iter([ch(c) for c in reversed(self.chars())])

    def _at(self, x, y, i):
        return T.and_(*[T.eq(a, b) for a, b in zip(x[i:i + len(y)], y)])

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        if not is_strlike(o):
            raise TypeError("'in <string>' requires string as left operand, not " + type(o).__name__)
        x, y = self.chars(), SymStr.lift(o).chars()
        return mkbool(T.or_(*[self._at(x, y, i) for i in range(len(x) - len(y) + 1)]))

    # -- methods

    def _find(self, x, y, start=0):
        for i in range(start, len(x) - len(y) + 1):
            if E().branch(self._at(x, y, i)):
                return i
        return -1

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return mkbool(T.or_(*[term_of(self.startswith(q, *a)) for q in p]))
        if a:
            x, y = self.chars()[slice(*a)], SymStr.lift(p).chars()
            return mkbool(len(y) <= len(x) and self._at(x, y, 0))
        c = cancel(self.segs, SymStr.lift(p).segs)
        if c is None:
            return False
        x, y = SymStr(c[0]), SymStr(c[1]).chars()
        cs = []
        for i in range(len(x.segs)):
            if len(cs) >= len(y):
                break
            t = x._expand(i)
            cs.extend(map(ord, t) if type(t) is str else t)
        return mkbool(len(y) <= len(cs) and self._at(cs, y, 0))

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return mkbool(T.or_(*[term_of(self.endswith(q, *a)) for q in p]))
        x, y = self.chars(), SymStr.lift(p).chars()
        if a:
            x = x[slice(*a)]
        return mkbool(len(y) <= len(x) and self._at(x, y, len(x) - len(y)))

    def find(self, o, *a):
        if a:
            return self.native().find(native(o), *a)
        return self._find(self.chars(), SymStr.lift(o).chars())

    def index(self, o, *a):
        i = self.find(o, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, o, *a):
        if a:
            return self.native().count(native(o), *a)
        x, y = self.chars(), SymStr.lift(o).chars()
        if len(y) == 1:
            n = 0
            for c in x:
                n = T.add(n, T.ite(T.eq(c, y[0]), 1, 0))
            return mkint(n)
        if not y:
            return len(x) + 1
        n = i = 0
        while True:
            i = self._find(x, y, i)
            if i < 0:
                return n
            n += 1
            i += len(y)

    def _map(self, f):
        return SymStr.of_chars([f(c) for c in self.chars()])

    def lower(self):
        return self._map(lambda c: T.ite(T.and_(T.le(65, c), T.le(c, 90)), T.add(c, 32), c))

    casefold = lower

    def upper(self):
        return self._map(lambda c: T.ite(T.and_(T.le(97, c), T.le(c, 122)), T.sub(c, 32), c))

    def swapcase(self):
        return self._map(lambda c: T.ite(
            T.and_(T.le(97, c), T.le(c, 122)), T.sub(c, 32),
            T.ite(T.and_(T.le(65, c), T.le(c, 90)), T.add(c, 32), c)))

    def _strip(self, chars, left, right):
        cs = self.chars()
        ws = WS if chars is None else [ord(c) for c in native(chars)]

        def drop(c):
            return E().branch(T.or_(*[T.eq(c, w) for w in ws]))
        i, j = 0, len(cs)
        while left and i < j and drop(cs[i]):
            i += 1
        while right and i < j and drop(cs[j - 1]):
            j -= 1
        return SymStr.of_chars(cs[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        cs, out, cur = self.chars(), [], []
        if sep is None:
            for k, c in enumerate(cs):
                if E().branch(T.or_(*[T.eq(c, w) for w in WS])):
                    if cur:
                        out.append(SymStr.of_chars(cur))
                        cur = []
                else:
                    if maxsplit >= 0 and len(out) == maxsplit and not cur:
                        out.append(SymStr.lift(SymStr.of_chars(cs[k:])).rstrip())
                        return out
                    cur.append(c)
            if cur:
                out.append(SymStr.of_chars(cur))
            return out
        y = SymStr.lift(sep).chars()
        if not y:
            raise ValueError('empty separator')
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self._find(cs, y, i)
            if j < 0:
                break
            out.append(SymStr.of_chars(cs[i:j]))
            i = j + len(y)
        out.append(SymStr.of_chars(cs[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        return self.native().rsplit(sep, maxsplit)

    def partition(self, sep):
        cs, y = self.chars(), SymStr.lift(sep).chars()
        j = self._find(cs, y)
        if j < 0:
            return self, '', ''
        return SymStr.of_chars(cs[:j]), sep, SymStr.of_chars(cs[j + len(y):])

    def rpartition(self, sep):
        cs, y = self.chars(), SymStr.lift(sep).chars()
        for j in range(len(cs) - len(y), -1, -1):
            if E().branch(self._at(cs, y, j)):
                return SymStr.of_chars(cs[:j]), sep, SymStr.of_chars(cs[j + len(y):])
        return '', '', self

    def rfind(self, o):
        cs, y = self.chars(), SymStr.lift(o).chars()
        for j in range(len(cs) - len(y), -1, -1):
            if E().branch(self._at(cs, y, j)):
                return j
        return -1

    def replace(self, a, b, n=-1):
        parts = self.split(a, n)
        out = []
        for i, p in enumerate(parts):
            if i:
                out.append(b)
            out.append(p)
        return SymStr.concat(out)

    def splitlines(self, keepends=False):
        if keepends:
            return self.native().splitlines(True)
        cs, out, cur, i = self.chars(), [], [], 0
        while i < len(cs):
            c = cs[i]
            if E().branch(T.or_(*[T.eq(c, w) for w in (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)])):
                if E().branch(T.eq(c, 13)) and i + 1 < len(cs) and E().branch(T.eq(cs[i + 1], 10)):
                    i += 1
                out.append(SymStr.of_chars(cur))
                cur = []
                i += 1
                continue
            cur.append(c)
            i += 1
        if cur:
            out.append(SymStr.of_chars(cur))
        return out

    def _all(self, pred):
        cs = self.chars()
        return mkbool(bool(cs) and T.and_(*[pred(c) for c in cs]))

    def isdigit(self):
        return self._all(is_digit)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(is_alpha)

    def isalnum(self):
        return self._all(lambda c: T.or_(is_digit(c), is_alpha(c)))

    def isspace(self):
        return self._all(lambda c: T.or_(*[T.eq(c, w) for w in WS]))

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out.append(self)
            out.append(x)
        return SymStr.concat(out)

    def zfill(self, n):
        return self.native().zfill(n)

    def format(self, *a, **k):
        return self.native().format(*a, **k)

    def encode(self, *a):
        return self.native().encode(*a)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr('', name):
            raise AttributeError("'str' object has no attribute %r" % name)
        E().notes['concretised: str.%s' % name] = True
        E().stats['concretised'] += 1
        return getattr(self.native(), name)


def eval_char(base, i, m):
    if i < len(base._chars):
        return T.eval_int(base._chars[i], m)
    return base.dom[0] if 97 not in base.dom else 97


def is_digit(c):
    return T.and_(T.le(48, c), T.le(c, 57))


def is_alpha(c):
    return T.or_(T.and_(T.le(65, c), T.le(c, 90)), T.and_(T.le(97, c), T.le(c, 122)))


def digits(l):
    """The decimal digits of an integer term, as code point terms."""
    if type(l) is int:
        return str(l)
    e = E()
    sign = ()
    if e.branch(T.lt(l, 0)):
        sign = (45,)
        l = T.mul(-1, l)
    k = 1
    while not e.branch(T.lt(l, 10 ** k)):
        k += 1
        if k > 30:
            raise engine.Limit('integer too wide to print')
    out = []
    for i in range(k - 1, -1, -1):
        out.append(T.add(48, T.mod(T.div(l, 10 ** i), 10)))
    return sign + tuple(out)


def native(x):
    """A native value for x; splits the path as needed."""
    if isinstance(x, Sym) and type(x) is not SymBool:
        return x.native()
    if type(x) is SymBool:
        return bool(x)
    return x
