"""
What builtins and library functions do when given symbolic arguments.

`call`/`callm`/`getitem`/`contains`/... are what the instrumented source calls
instead of the plain operations.  With native arguments they do exactly the
plain operation.
"""
import builtins
import datetime
import decimal
import functools
import importlib
import itertools
import json
import operator
import re
import shlex
import string
import sys
import time
import types
import uuid

from . import engine
from . import regex
from . import terms as T
from .values import (
    Sym, SymBool, SymInt, SymFloat, SymDecimal, SymStr, SymNum, Ext, Digits, Opaque,
    mkbool, mkint, neg, term_of, native, ext, is_strlike, is_digit, WS, ch,
)


def E():
    return engine.E


def pyfunc(f):
    """Is f a function with Python code (PyPy gives builtins __code__ too)?"""
    return isinstance(getattr(f, '__code__', None), types.CodeType)


def sym(x):
    return isinstance(x, Sym)


NATIVE = (str, int, float, bool, type(None), type, complex, bytes)


# -- text

class ReprOf(object):

    def __init__(self, v):
        self.v = v


def has_sym(x, depth=4):
    if isinstance(x, Sym):
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in dict.values(x))
    return False


def m_str(*args):
    if len(args) != 1:
        return str(*args)
    x = args[0]
    t = type(x)
    if t in NATIVE:
        return str(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return SymStr([Digits(x.l)])
    if t is SymBool:
        return 'True' if x else 'False'
    if isinstance(x, Sym):
        return SymStr([Opaque(x)])
    f = getattr(t, '__str__', None)
    if pyfunc(f):
        return f(x)
    if isinstance(x, BaseException):
        if len(x.args) == 1 and not isinstance(x, KeyError):
            return m_str(x.args[0])
        return str(x)
    if pyfunc(t.__dict__.get('__repr__')):
        return t.__repr__(x)
    if has_sym(x):
        return SymStr([Opaque(x)])
    return str(x)


def m_repr(x):
    if has_sym(x):
        return SymStr([Opaque(ReprOf(x))])
    return repr(x)


def m_format_builtin(x, spec=''):
    if spec == '' and (sym(x) or not type(x) in NATIVE):
        return m_str(x)
    return format(native(x), spec)


FORMATTER = string.Formatter()


def str_format(fmt, /, *args, **kw):
    for a in args:
        if type(a) not in NATIVE:
            break
    else:
        for a in kw.values():
            if type(a) not in NATIVE:
                break
        else:
            return fmt.format(*args, **kw)
    out, auto = [], 0
    for lit, field, spec, conv in FORMATTER.parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        obj, _ = FORMATTER.get_field(field, args, kw)
        if conv == 'r':
            obj = m_repr(obj)
        elif conv == 's':
            obj = m_str(obj)
        if spec:
            out.append(format(native(obj), spec))
        else:
            if type(obj).__format__ is not object.__format__ and not sym(obj) and type(obj) not in NATIVE \
                    and pyfunc(type(obj).__format__):
                out.append(format(obj, ''))
            else:
                out.append(m_str(obj))
    return SymStr.concat(out)


def str_join(sep, it):
    items = list(it)
    for x in items:
        if type(x) is SymStr:
            out = []
            for i, y in enumerate(items):
                if not is_strlike(y):
                    raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(y).__name__))
                if i:
                    out.append(sep)
                out.append(y)
            return SymStr.concat(out)
    return sep.join(items)


def mod(a, b):
    if type(a) is str:
        args = b if type(b) is tuple else (b,)
        if any(type(x) not in NATIVE for x in args):
            if isinstance(b, dict) or not re.fullmatch(r'(?:[^%]|%[%srd])*', a):
                return a % (tuple(map(native, b)) if type(b) is tuple else native(b))
            out, i = [], 0
            for piece in re.split(r'(%[%srd])', a):
                if piece == '%%':
                    out.append('%')
                elif piece in ('%s', '%r', '%d'):
                    out.append(m_repr(args[i]) if piece == '%r' else m_str(args[i]))
                    i += 1
                else:
                    out.append(piece)
            return SymStr.concat(out)
    return a % b


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 'r':
                v = m_repr(v)
            elif conv == 's':
                v = m_str(v)
            out.append(m_format_builtin(v, spec))
        else:
            out.append(p)
    return SymStr.concat(out)


# -- numbers

def _strip(cs):
    s = SymStr.lift(SymStr.of_chars(cs)).strip()
    return SymStr.lift(s).chars()


def _is(c, *codes):
    return E().branch(T.or_(*[T.eq(c, k) for k in codes]))


def _digit_run(cs, i):
    """Digits with single underscores between them: (terms, next index)."""
    out = []
    while i < len(cs):
        if E().branch(is_digit(cs[i])):
            out.append(T.sub(cs[i], 48))
            i += 1
        elif out and i + 1 < len(cs) and _is(cs[i], 95) and E().branch(is_digit(cs[i + 1])):
            i += 1
        else:
            break
    return out, i


def _value(ds):
    v = 0
    for d in ds:
        v = T.add(T.mul(10, v), d)
    return v


SPACES = (9, 10, 11, 12, 13, 32)
try:
    #: this interpreter (PyPy) takes spaces between sign and digits
    SPACED_SIGN = int('- 1') == -1
except ValueError:
    SPACED_SIGN = False


def parse_int(s):
    """int(str) on code points below 128; None if it is malformed."""
    if len(s.segs) == 1 and type(s.segs[0]) is Digits:
        return s.segs[0].l
    cs = _strip(s.chars())
    i, sign = 0, 1
    if cs and _is(cs[0], 43, 45):
        sign = -1 if _is(cs[0], 45) else 1
        i = 1
        while SPACED_SIGN and i < len(cs) and _is(cs[i], *SPACES):
            i += 1
    ds, j = _digit_run(cs, i)
    if not ds or j != len(cs):
        return None
    return T.mul(sign, _value(ds))


WORDS = (('nan', 1), ('inf', 2), ('infinity', 2))


def parse_real(s, dec=False):
    """float(str) / Decimal(str): an Ext, or None if it is malformed."""
    if len(s.segs) == 1 and type(s.segs[0]) is Digits:
        return Ext(0, s.segs[0].l, 1)
    cs = _strip(s.chars())
    i, sign = 0, 1
    if cs and _is(cs[0], 43, 45):
        sign = -1 if _is(cs[0], 45) else 1
        i = 1
    rest = cs[i:]
    for w, k in WORDS:
        if len(w) == len(rest) and E().branch(T.and_(*[
                T.or_(T.eq(c, ord(x)), T.eq(c, ord(x.upper()))) for c, x in zip(rest, w)])):
            return Ext(3 if sign < 0 and k == 2 else k, 0, 1)
    ip, i = _digit_run(cs, i)
    fp = []
    if i < len(cs) and _is(cs[i], 46):
        i += 1
        fp, i = _digit_run(cs, i)
    if not ip and not fp:
        return None
    exp = 0
    if i < len(cs) and _is(cs[i], 101, 69):
        i += 1
        es = 1
        if i < len(cs) and _is(cs[i], 43, 45):
            es = -1 if _is(cs[i], 45) else 1
            i += 1
        ed, i = _digit_run(cs, i)
        if not ed:
            return None
        exp = es * E().concretise_int(_value(ed))
    if i != len(cs):
        return None
    num = T.mul(sign, _value(ip + fp))
    den = 10 ** len(fp)
    if not dec and exp > 300:
        # beyond the float range unless it is zero
        if E().branch(T.eq(num, 0)):
            return Ext(0, 0, 1)
        raise engine.Limit('float exponent')
    if exp > 0:
        num = T.mul(10 ** exp, num)
    elif exp < 0:
        den *= 10 ** -exp
    return Ext(0, num, den)


def m_int(*a, **k):
    if a and type(a[0]) is SymStr and (a[1:] == (10,) and not k or len(a) == 1 and k == {'base': 10}):
        a, k = a[:1], {}
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymInt:
            return x
        if t is SymBool:
            return mkint(x._lin())
        if t is SymFloat:
            return x.trunc()
        if t is SymDecimal:
            if E().branch(x.e.is_(1)):
                raise ValueError('cannot convert NaN to integer')
            if not E().branch(x.e.is_(0)):
                raise OverflowError('cannot convert Infinity to integer')
            return SymFloat(x.e).trunc()
        if t is SymStr:
            v = parse_int(x)
            if v is None:
                raise ValueError('invalid literal for int() with base 10')
            return mkint(v)
    elif a and type(a[0]) is SymStr:
        return int(a[0].native(), *map(native, a[1:]), **k)
    return int(*a, **k)


def nearest_float(e):
    """The float nearest to an extended rational, ties to even; None if it is not bounded."""
    n, d = e.num, e.den
    pow2 = d & (d - 1) == 0
    lo, hi = T._lo(n), T._hi(n)
    if lo is None or hi is None or lo < -2 ** 900 or hi > 2 ** 900 or d > 2 ** 900:
        return None
    if pow2 and -2 ** 53 <= lo and hi <= 2 ** 53:
        return SymFloat(e)
    if not E().branch(e.is_(0)):
        return SymFloat(Ext(e.kind, 0, 1))
    if E().branch(T.eq(n, 0)):
        return SymFloat(Ext(0, 0, 1))
    minus = E().branch(T.lt(n, 0))
    a = T.mul(-1, n) if minus else n
    if pow2 and E().branch(T.le(a, 2 ** 53)):
        return SymFloat(Ext(0, n, d))
    most = max(abs(lo), abs(hi))
    # 2**k <= a/d < 2**(k+1)
    k = most.bit_length() - d.bit_length() + 1
    least = (54 if pow2 else 1) - d.bit_length() - 1
    while k > least and not E().branch(T.le(d << k, a) if k >= 0 else T.le(d, T.mul(1 << -k, a))):
        k -= 1
    shift = k - 52
    num, den = (a, d << shift) if shift >= 0 else (T.mul(1 << -shift, a), d)
    m, r = T.div(num, den), T.mod(num, den)
    up = T.or_(T.lt(den, T.mul(2, r)), T.and_(T.eq(T.mul(2, r), den), T.eq(T.mod(m, 2), 1)))
    m = T.add(m, T.ite(up, 1, 0))
    if minus:
        m = T.mul(-1, m)
    return SymFloat(Ext(0, T.mul(1 << shift, m), 1) if shift >= 0 else Ext(0, m, 1 << -shift))


def m_float(*a):
    if a:
        x = a[0]
        t = type(x)
        if t is SymFloat:
            return x
        if t is SymInt or t is SymBool or t is SymDecimal:
            f = nearest_float(ext(x))
            return float(x.native()) if f is None else f
        if t is SymStr:
            v = parse_real(x)
            if v is None:
                raise ValueError('could not convert string to float')
            return SymFloat(v)
    return float(*a)


def m_bool(*a):
    if a:
        x = a[0]
        t = type(x)
        if t is SymBool:
            return x
        if t is SymInt:
            return mkbool(T.not_(T.eq(x.l, 0)))
    return bool(*a)


def m_decimal(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymDecimal:
            return x
        if t is SymInt or t is SymBool or t is SymFloat:
            return SymDecimal(ext(x))
        if t is SymStr:
            v = parse_real(x, True)
            if v is None:
                raise decimal.InvalidOperation([decimal.ConversionSyntax])
            return SymDecimal(v)
    return decimal.Decimal(*map(native, a), **k)


def m_len(x):
    if type(x) is SymStr:
        return mkint(x.length())
    if isinstance(x, Sym) and not isinstance(x, SymNum) and type(x) is not SymBool:
        return x.__len__()
    return len(x)


def m_type(*a):
    if len(a) == 1:
        x = a[0]
        return x.__class__ if isinstance(x, Sym) else type(x)
    return type(*a)


class SymSet(Sym):
    """set() of values some of which are symbolic."""
    __slots__ = ('raw', 'items')

    def __init__(self, raw):
        self.raw = list(raw)
        self.items = None

    __class__ = property(lambda self: set)

    def native(self):
        return set(native(x) for x in self.raw)

    def distinct(self):
        if self.items is None:
            out = []
            for x in self.raw:
                if not any(bool(x == y) for y in out):
                    out.append(x)
            self.items = out
        return self.items

    def __bool__(self):
        return bool(self.raw)

    def __len__(self):
        return len(self.distinct())

    def __iter__(self):
        return iter(list(self.distinct()))

    def __contains__(self, x):
        return bool(any_eq(x, self.raw))

    def _terms(self, o):
        return list(o.raw if type(o) is SymSet else o)

    def difference(self, *others):
        out = self.raw
        for o in others:
            o = self._terms(o)
            out = [x for x in out if not any_eq(x, o)]
        return SymSet(out)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __and__(self, o):
        o = self._terms(o)
        return SymSet([x for x in self.raw if any_eq(x, o)])

    intersection = __rand__ = __and__

    def __or__(self, o):
        return SymSet(self.raw + self._terms(o))

    union = __ror__ = __or__

    def issubset(self, o):
        o = self._terms(o)
        return mkbool(T.and_(*[term_of(any_eq(x, o)) for x in self.raw]))

    __le__ = issubset

    def add(self, x):
        self.raw.append(x)
        self.items = None

    def __eq__(self, o):
        return self.native() == (o.native() if type(o) is SymSet else o)

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(set, name):
            raise AttributeError(name)
        return getattr(self.native(), name)


def m_set(*a):
    if a:
        items = a[0].raw if type(a[0]) is SymSet else list(a[0])
        if any(isinstance(x, Sym) for x in items):
            return SymSet(items)
        return set(items)
    return set()


def any_eq(x, items):
    return mkbool(T.or_(*[term_of(x == y) for y in items]))


def m_getattr(obj, name, *default):
    if type(name) is SymStr:
        name = attr_name(obj, name)
        if name is None:
            if default:
                return default[0]
            raise AttributeError('no such attribute')
    return getattr(obj, name, *default)


def m_hasattr(obj, name):
    if type(name) is SymStr:
        name = attr_name(obj, name)
        if name is None:
            return False
    return hasattr(obj, name)


def attr_name(obj, name):
    """Which attribute of obj a symbolic name means (splits the path)."""
    names = sorted(set(dir(obj)))
    conds = [(n, term_of(name == n)) for n in names]
    conds = [(n, c) for n, c in conds if c is not False]
    if not E().branch(T.or_(*[c for _, c in conds])):
        return None
    for n, c in conds:
        if E().branch(c):
            return n
    return None


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def m_reduce(f, it, *start):
    it = iter(it)
    acc = start[0] if start else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def m_frozenset(*a):
    items = list(a[0]) if a and type(a[0]) is not SymSet else a[0].raw if a else []
    return SymSet(items) if any(isinstance(x, Sym) for x in items) else frozenset(items)


def lifted(f):
    """f, for a builtin that will call it."""
    if f is None or type(f) is types.FunctionType and id(f) not in MODELS:
        return f
    return lambda *a, **k: call(f, *a, **k)


def m_map(f, *its):
    return map(lifted(f), *its)


def m_filter(f, it):
    if f is None or f is bool:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def keyed(orig):
    def m(*a, **k):
        if 'key' in k:
            k['key'] = lifted(k['key'])
        return orig(*a, **k)
    return m


def m_partial(f, *a, **k):
    return functools.partial(lifted(f), *a, **k)


def first(orig):
    return lambda f, *a: orig(lifted(f), *a)


def unbound(t, name):
    """t.name called with the instance as its first argument"""
    orig = getattr(t, name)

    def m(*a, **k):
        if a:
            if type(a[0]) is SymStr:
                return getattr(a[0], name)(*a[1:], **k)
            if type(a[0]) is str:
                return callm(a[0], name, *a[1:], **k)
        return orig(*a, **k)
    return m


def unbound_dict(name):
    orig = getattr(dict, name)

    def m(*a, **k):
        if len(a) > 1 and isinstance(a[0], dict) and not isinstance(a[0], Sym) and sym_key(a[1]):
            hashable(a[1])
            key = dict_key(a[0], a[1])
            if name != 'setdefault' or type(key) is not Missing:
                a = (a[0], key) + a[2:]
        return orig(*a, **k)
    return m


def m_exec(code, *a):
    return exec(native(code) if type(code) is SymStr else code, *a)


def module_name(name):
    """The module a symbolic name means (splits the path): one of those there
    are, or else importing it fails, whatever it is (harnesses limit texts so
    that no other module is called that)."""
    if type(name) is not SymStr:
        return name
    for n in sorted(sys.modules):
        if E().branch(term_of(name == n)):
            return n
    return native(name)


def m_import(name, *a, **k):
    return __import__(module_name(name), *a, **k)


def m_import_module(name, package=None):
    return importlib.import_module(module_name(name), package)


def json_hooked(v, k):
    """A document as json.loads with these hooks gives it."""
    json.loads('0', **k)
    pairs, obj = k.get('object_pairs_hook'), k.get('object_hook')
    numbers = dict((n, k[n]) for n in ('parse_int', 'parse_float', 'parse_constant') if k.get(n) is not None)

    def walk(v):
        t = type(v)
        if t is list:
            return [walk(x) for x in v]
        if t is dict:
            items = [(n, walk(x)) for n, x in v.items()]
            return call(pairs, items) if pairs is not None else call(obj, dict(items)) if obj is not None else dict(items)
        if numbers and v.__class__ in (int, float):
            if v.__class__ is int:
                return call(numbers['parse_int'], m_str(v)) if 'parse_int' in numbers else v
            if v - v == 0:
                return call(numbers['parse_float'], m_repr(v)) if 'parse_float' in numbers else v
            return call(numbers['parse_constant'], json.dumps(native(v))) if 'parse_constant' in numbers else v
        return v

    return walk(v)


def m_json_loads(text, *a, **k):
    payload = getattr(text, 'json_payload', None) if isinstance(text, Sym) else None
    if payload is not None:
        return json_hooked(payload(), k) if k else payload()
    return json.loads(native(text), *a, **k)


def m_shlex_split(s, comments=False, posix=True):
    if type(s) is not SymStr:
        return shlex.split(s, comments, posix)
    cs = s.chars()
    special = [34, 39, 92] + ([35] if comments else [])
    if E().branch(T.or_(*[T.eq(c, q) for c in cs for q in special])) or not posix:
        return shlex.split(s.native(), comments, posix)
    out, cur = [], []
    for c in cs:
        if E().branch(T.or_(*[T.eq(c, w) for w in (32, 9, 13, 10)])):
            if cur:
                out.append(SymStr.of_chars(cur))
                cur = []
        else:
            cur.append(c)
    if cur:
        out.append(SymStr.of_chars(cur))
    return out


MODELS = {
    id(str): m_str, id(repr): m_repr, id(format): m_format_builtin,
    id(int): m_int, id(float): m_float, id(bool): m_bool, id(len): m_len,
    id(type): m_type, id(set): m_set, id(getattr): m_getattr, id(hasattr): m_hasattr,
    id(functools.reduce): m_reduce, id(exec): m_exec, id(__import__): m_import,
    id(importlib.import_module): m_import_module,
    id(any): m_any, id(all): m_all, id(sum): m_sum,
    id(decimal.Decimal): m_decimal,
    id(json.loads): m_json_loads, id(shlex.split): m_shlex_split,
    id(frozenset): m_frozenset, id(map): m_map, id(filter): m_filter, id(sorted): keyed(sorted),
    id(min): keyed(min), id(max): keyed(max), id(functools.partial): m_partial,
    id(itertools.starmap): first(itertools.starmap), id(itertools.takewhile): first(itertools.takewhile),
    id(itertools.dropwhile): first(itertools.dropwhile), id(itertools.filterfalse): first(itertools.filterfalse),
    id(operator.contains): lambda c, x: contains(x, c), id(operator.getitem): lambda o, i: getitem(o, i),
    id(operator.not_): lambda x: not_(x), id(operator.is_): lambda a, b: is_(a, b),
    id(operator.is_not): lambda a, b: is_not(a, b), id(operator.mod): lambda a, b: mod(a, b),
}


def register(f, m):
    MODELS[id(f)] = m


# -- calls

SAFE_MODULES = frozenset((
    'functools', 'contextlib', 'six', 'copy', 'collections', 'collections.abc', '_collections_abc',
    'weakref', 'typing', 'warnings', 'threading', 'builtins', 'abc', '_weakref', 'operator', '_functools',
    '_operator', 'itertools', '__builtin__', '_weakrefset', 'string', 'sx', 'inspect', '_abc',
    'configparser', 'six.moves', 'six.moves.configparser', 'types',
))
_origin = {}


def instrumented(module):
    return module is not None and (
        module == 'pilo' or module.startswith('pilo.') or module.startswith('props') or module.startswith('sx.')
        or module.startswith('iso8601'))


def foreign(f):
    """Is f stdlib code that would look into the text of a str argument?"""
    mod_ = getattr(f, '__module__', None)
    if not isinstance(mod_, str):
        return False
    if instrumented(mod_) or mod_ in SAFE_MODULES:
        return False
    if isinstance(f, type) and issubclass(f, BaseException):
        return False
    if isinstance(f, types.MethodType) or isinstance(f, types.FunctionType) or isinstance(f, type):
        return True
    return False


def call(f, /, *a, **k):
    m = MODELS.get(id(f))
    if m is not None:
        return m(*a, **k)
    if a and sym_key(a[0]):
        on = getattr(f, '__self__', None)
        if on is not None and not pyfunc(f) and (
                type(on) in (str, PATTERN) and type(a[0]) is SymStr
                or isinstance(on, dict) and not isinstance(on, Sym) and f.__name__ in DICT_METHODS and f.__name__ != 'setdefault'):
            return callm(on, f.__name__, *a, **k)
    for x in a:
        if type(x) is SymStr:
            return call_str(f, a, k)
    for x in k.values():
        if type(x) is SymStr:
            return call_str(f, a, k)
    return f(*a, **k)


def call_str(f, a, k):
    if foreign(f):
        return f(*nativise(f, a), **{n: native(v) if type(v) is SymStr else v for n, v in k.items()})
    if isinstance(f, types.BuiltinFunctionType):
        try:
            return f(*a, **k)
        except TypeError:
            return f(*nativise(f, a), **{n: native(v) if type(v) is SymStr else v for n, v in k.items()})
    return f(*a, **k)


def nativise(f, a):
    E().notes['concretised: argument of %s' % getattr(f, '__name__', f)] = True
    E().stats['concretised'] += 1
    return [native(x) if type(x) is SymStr else x for x in a]


for _n in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'split', 'rsplit', 'startswith', 'endswith', 'replace',
           'partition', 'rpartition', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'find', 'index', 'count', 'format',
           'join', 'splitlines', 'title', 'capitalize', 'encode', 'zfill', 'swapcase', 'isdecimal', 'isnumeric',
           'casefold', '__len__', '__contains__', '__eq__', '__getitem__'):
    MODELS[id(getattr(str, _n))] = unbound(str, _n)
for _n in ('get', 'pop', '__contains__', '__getitem__', 'setdefault'):
    MODELS[id(getattr(dict, _n))] = unbound_dict(_n)

RE_METHODS = frozenset(('match', 'search', 'fullmatch', 'sub', 'split', 'findall', 'finditer', 'subn'))
#: (id of object, method name) -> model
METHODS = {}
PATTERN = type(re.compile(''))
DICT_METHODS = frozenset(('get', 'pop', '__contains__', '__getitem__', 'setdefault', 'has_key'))


def callm(obj, name, /, *a, **k):
    t = type(obj)
    if t is str:
        if name == 'format':
            return str_format(obj, *a, **k)
        if name == 'join':
            return str_join(obj, *a)
        for x in a:
            if type(x) is SymStr or (type(x) is tuple and has_sym(x)):
                return getattr(SymStr([obj] if obj else []), name)(*a, **k)
    elif t is PATTERN and name in RE_METHODS:
        if name in ('match', 'search', 'fullmatch') and len(a) == 1 and type(a[0]) is SymStr:
            return regex.run(obj, name, a[0])
        if any(type(x) is SymStr for x in a):
            return getattr(obj, name)(*nativise(getattr(obj, name), a), **k)
    elif t is types.ModuleType:
        if obj is re and name in RE_METHODS:
            if len(a) == 2 and name in ('match', 'search', 'fullmatch') and type(a[1]) is SymStr:
                return regex.run(re.compile(a[0]), name, a[1])
            if any(type(x) is SymStr for x in a):
                return getattr(obj, name)(*nativise(getattr(obj, name), a), **k)
    elif name in DICT_METHODS and isinstance(obj, dict) and a and sym_key(a[0]) and not isinstance(obj, Sym) \
            and not pyfunc(getattr(t, name, None)):
        hashable(a[0])
        d = obj.__self__ if t is super else obj
        key = dict_key(d, a[0])
        if name != 'setdefault' or type(key) is not Missing:
            a = (key,) + a[1:]
        if (id(obj), name) not in METHODS:
            return getattr(obj, name)(*a, **k)
    m = METHODS.get((id(obj), name))
    if m is not None:
        return m(*a, **k)
    return call(getattr(obj, name), *a, **k)


class Missing(object):
    """A key equal to nothing; stands for a symbolic key known to be absent."""

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return repr(self.key)


def dict_key(d, key):
    """The key of d equal to a symbolic key (splits the path)."""
    for k in list(dict.keys(d)):
        if key == k:
            return k
    return Missing(key)


def getitem(o, i):
    if type(i) is tuple and isinstance(o, dict) and sym_key(i) and not pyfunc(type(o).__getitem__):
        hashable(i)
        k = dict_key(o, i)
        if type(k) is not Missing:
            return o[k]
        if not hasattr(type(o), '__missing__'):
            raise KeyError(i)
    if isinstance(i, Sym):
        t = type(o)
        if isinstance(o, dict) and not isinstance(o, Sym) and not pyfunc(t.__getitem__):
            k = dict_key(o, i)
            if type(k) is Missing:
                if pyfunc(getattr(t, '__missing__', None)):
                    return t.__missing__(o, i)
                raise KeyError(i)
            return o[k]
        if t is str:
            return SymStr.lift(o)[i] if o else o[i.native()]
        if t in (list, tuple):
            if type(i) is SymStr:
                raise TypeError('list indices must be integers or slices, not str')
            if type(i) is SymInt:
                n = len(o)
                if not E().branch(T.and_(T.le(-n, i.l), T.lt(i.l, n))):
                    raise IndexError('list index out of range')
                return o[i.native()]
    if isinstance(i, slice) and (isinstance(i.start, Sym) or isinstance(i.stop, Sym)):
        i = slice(native(i.start), native(i.stop), native(i.step))
    return o[i]


def sym_key(x):
    """Is x a key whose hash depends on symbolic values?"""
    return isinstance(x, Sym) or type(x) is tuple and any(sym_key(y) for y in x)


def hashable(x):
    """Raises as hash(x) would, without a look at symbolic values."""
    if type(x) is tuple:
        for y in x:
            hashable(y)
    elif not isinstance(x, Sym):
        hash(x)


def contains(x, c):
    """x in c"""
    t = type(c)
    if type(x) is tuple and (isinstance(c, dict) and not isinstance(c, Sym) and not pyfunc(t.__contains__)
                             or t in (set, frozenset, type({}.keys()))) and sym_key(x):
        hashable(x)
        return any_eq(x, list(c))
    if isinstance(x, Sym):
        if t is str:
            return SymStr.lift(c).contains(x)
        if t in (list, tuple, set, frozenset):
            return any_eq(x, c)
        if isinstance(c, dict) and not isinstance(c, Sym) and not pyfunc(t.__contains__):
            return any_eq(x, list(dict.keys(c)))
        if t in (type({}.keys()),):
            return any_eq(x, list(c))
    if t is SymStr:
        return c.contains(x)
    if t in (list, tuple) and type(x) in (str, int, float) and any(isinstance(y, Sym) for y in c):
        return any_eq(x, c)
    return x in c


def not_contains(x, c):
    return neg(contains(x, c))


def is_(a, b):
    if b is True or b is False:
        if type(a) is SymBool:
            return a == b
    elif a is True or a is False:
        if type(b) is SymBool:
            return b == a
    return a is b


def is_not(a, b):
    return neg(is_(a, b))


def not_(a):
    if type(a) is SymBool:
        return neg(a)
    return not a


def to_slice(*a):
    return slice(*[native(x) for x in a])


def compare(op, reflected):
    # a native left operand must not look into a symbolic right one
    def fn(a, b):
        if isinstance(b, Sym) and not isinstance(a, Sym):
            return reflected(b, a)
        return op(a, b)
    return fn


RUNTIME = {
    '__sx_lt__': compare(operator.lt, operator.gt), '__sx_le__': compare(operator.le, operator.ge),
    '__sx_gt__': compare(operator.gt, operator.lt), '__sx_ge__': compare(operator.ge, operator.le),
    '__sx_eq__': compare(operator.eq, operator.eq), '__sx_ne__': compare(operator.ne, operator.ne),
    '__sx_call__': call, '__sx_callm__': callm, '__sx_getitem__': getitem,
    '__sx_in__': contains, '__sx_notin__': not_contains, '__sx_is__': is_, '__sx_isnot__': is_not,
    '__sx_not__': not_, '__sx_mod__': mod, '__sx_fstr__': fstr, '__sx_slice__': to_slice,
}
