"""A reference mapper, written from pilo's documentation: given a schema and
data it says which values a form must hold and which errors must be reported,
where.  `build` makes the pilo field of the same schema.

Data are plain dicts, lists and scalars (the scalars possibly symbolic)."""
import pilo
from sx.api import *      # noqa: F401,F403

UNSET = pilo.NOT_SET
ABSENT = pilo.NONE


class _Rejected(object):
    def __repr__(self):
        return 'REJECTED'


#: an error was reported (or a validate hook said no): there is no value
REJECTED = _Rejected()
#: no value, and nothing (more) to report
NOTHING = (ABSENT, REJECTED)


def is_nothing(v):
    return v is ABSENT or v is REJECTED


class Node(object):

    def __init__(self, kind, src=UNSET, default=UNSET, default_hook=None, nullable=UNSET, ignore=(), translate=None,
                 munge=None, filter=None, validate=None, tags=(), **limits):
        self.kind = kind
        self.src = src
        self.default = default
        self.default_hook = default_hook
        self.nullable = nullable
        self.ignore = tuple(ignore)
        self.translate = translate
        self.munge, self.filter, self.validate = munge, filter, validate
        self.tags = tags
        self.limits = limits
        self.item = limits.pop('item', None)
        self.items = limits.pop('items', None)
        self.fields = limits.pop('fields', None)
        self.key = limits.pop('key', None)
        self.unmapped = limits.pop('unmapped', 'ignore')


SCALARS = {
    'any': pilo.fields.Field, 'str': pilo.fields.String, 'int': pilo.fields.Integer, 'float': pilo.fields.Float,
    'bool': pilo.fields.Boolean,
}


def _hook(field, which, fn):
    if which == 'default':
        def body(self):
            return fn()
    else:
        def body(self, value):
            return fn(value)
    getattr(field, which)(body)


def build(n):
    kw = {}
    if n.src is not UNSET:
        args = [n.src]
    else:
        args = []
    if n.default is not UNSET:
        kw['default'] = n.default
    if n.nullable is not UNSET:
        kw['nullable'] = n.nullable
    kw.update(n.limits)
    if n.kind == 'list':
        f = pilo.fields.List(*(args + [build(n.item)]), **kw)
    elif n.kind == 'tuple':
        f = pilo.fields.Tuple(*(args + [tuple(build(x) for x in n.items)]), **kw)
    elif n.kind == 'dict':
        f = pilo.fields.Dict(build(n.key), build(n.item), *args, **kw)
    elif n.kind == 'form':
        f = pilo.fields.SubForm(form_type(n), *args, **kw)
        f.unmapped = n.unmapped
    else:
        f = SCALARS[n.kind](*args, **kw)
    if n.ignore:
        f.ignore(*n.ignore)
    if n.translate:
        f.translate(n.translate)
    if n.tags:
        f.tag(*n.tags)
    for which in ('munge', 'filter', 'validate'):
        if getattr(n, which):
            _hook(f, which, getattr(n, which))
    if n.default_hook:
        _hook(f, 'default', n.default_hook)
    return f


def form_type(n, base=pilo.Form):
    """The form type of a node of kind 'form'; fields in the order given."""
    d = {}
    for name, node in n.fields:
        d[name] = build(node)
    return type('F', (base,), d)


# -- coercion of a scalar of the data to the requested type: (ok, value)

def isbool(v):
    return isinstance(v, bool)


def coerce(kind, v):
    """What DefaultSource does."""
    if kind == 'any':
        return True, v
    if kind == 'str':
        return isinstance(v, str), v
    if kind == 'int':
        if isinstance(v, int) and not isbool(v):
            return True, v
        if isinstance(v, float):
            if v.is_integer():
                return True, int(v)
            return False, None
        if isinstance(v, str):
            try:
                return True, int(v)
            except ValueError:
                return False, None
        return False, None
    if kind == 'float':
        if isinstance(v, float):
            return True, v
        if isinstance(v, int):
            return True, float(v)
        if isinstance(v, str):
            try:
                return True, float(v)
            except ValueError:
                return False, None
        return False, None
    if kind == 'bool':
        if isbool(v):
            return True, v
        if isinstance(v, int):
            return True, v != 0
        if isinstance(v, str):
            w = v.lower()
            if w in ('0', 'f', 'false'):
                return True, False
            if w in ('1', 't', 'true'):
                return True, True
        return False, None
    raise AssertionError(kind)


def coerce_json(kind, v, strict=False):
    """What JsonSource does."""
    if kind == 'any':
        return True, v
    if kind == 'str':
        if isinstance(v, str):
            return True, v
        if strict:
            return False, None
        return True, str(v)
    if kind == 'int':
        if isinstance(v, int) and not isbool(v):
            return True, v
        if strict:
            return False, None
        if isinstance(v, float):
            if v.is_integer():
                return True, int(v)
        elif isinstance(v, str):
            try:
                return True, int(v)
            except ValueError:
                pass
        return False, None
    if kind == 'float':
        if isinstance(v, float):
            return True, v
        if isinstance(v, int):
            return True, float(v)
        if isinstance(v, str) and not strict:
            try:
                return True, float(v)
            except ValueError:
                pass
        return False, None
    if kind == 'bool':
        if isbool(v):
            return True, v
        if isinstance(v, int) and not strict:
            return True, v != 0
        return False, None
    raise AssertionError(kind)


# -- the reference mapper

def place(path):
    out = ''
    for i, k in enumerate(path):
        if i == 0:
            out = str(k)
        elif isinstance(k, int):
            out = '%s[%s]' % (out, k)
        else:
            out = '%s.%s' % (out, k)
    return out


class Ref(object):
    """errors: [(kind, location)] in the order pilo reports them."""

    def __init__(self, ignore_default=False, ignore_missing=False, coerce=coerce, tags=None):
        self.errors = []
        self.ignore_default, self.ignore_missing = ignore_default, ignore_missing
        self.coerce = coerce
        self.tags = tags

    def invalid(self, path):
        self.errors.append(('Invalid', place(path)))
        return REJECTED

    def missing(self, path):
        if not self.ignore_missing:
            self.errors.append(('Missing', place(path)))
        return ABSENT

    def lookup(self, data, key):
        if isinstance(data, dict):
            if key in data:
                return data[key]
            if isinstance(key, str) and '.' in key:
                for atom in key.split('.'):
                    if not isinstance(data, dict) or atom not in data:
                        return ABSENT
                    data = data[atom]
                return data
            return ABSENT
        if isinstance(data, (list, tuple)) and isinstance(key, int) and key < len(data):
            return data[key]
        return ABSENT

    def default(self, n, path):
        if self.ignore_default:
            return self.missing(path)
        if n.default_hook:
            return n.default_hook()
        if n.default is UNSET:
            return self.missing(path)
        if n.default is ABSENT:
            return ABSENT
        if callable(n.default):
            return n.default()
        return n.default

    def field(self, n, name, data, path):
        """Map the field of node n called name from data (found at path)."""
        src = name if n.src is UNSET else n.src
        if src is None:
            return self.at(n, data, path)
        return self.at(n, self.lookup(data, src), path + (src,))

    def at(self, n, value, path):
        if value is ABSENT:
            return self.default(n, path)
        if value is not None:
            value = self.parse(n, value, path)
            if is_nothing(value):
                return value
        return self.rest(n, value, path)

    def rest(self, n, value, path):
        if n.translate:
            try:
                for k, v in n.translate.items():
                    if value == k:
                        value = v
                        break
            except TypeError:
                pass
        if n.munge:
            value = n.munge(value)
            if value is ABSENT:
                return self.default(n, path)
        for x in n.ignore:
            if value == x:
                return self.default(n, path)
        if n.filter and not n.filter(value):
            return self.default(n, path)
        if value is None:
            if n.nullable is False:
                return self.invalid(path)
        elif not self.valid(n, value):
            return self.invalid(path)
        if n.validate and not n.validate(value):
            return REJECTED
        return value

    def valid(self, n, v):
        lim = n.limits
        if n.kind in ('int', 'float'):
            lo, hi = lim.get('min_value'), lim.get('max_value')
            if (lo is not None or hi is not None) and v != v:
                return False
            if lo is not None and v < lo:
                return False
            return not (hi is not None and v > hi)
        if n.kind in ('str', 'list'):
            lo, hi = lim.get('min_length'), lim.get('max_length')
            if lo is not None and len(v) < lo:
                return False
            if hi is not None and len(v) > hi:
                return False
            if n.kind == 'str' and lim.get('choices'):
                return v in list(lim['choices']) + list((n.translate or {}).values())
            return True
        if n.kind == 'dict':
            for k in lim.get('required_keys', ()):
                if k not in v:
                    return False
            if lim.get('max_keys') is not None and len(v) > lim['max_keys']:
                return False
        return True

    def parse(self, n, v, path):
        if n.kind == 'list':
            if not isinstance(v, (list, tuple)):
                return self.invalid(path)
            out = []
            for i, x in enumerate(v):
                y = self.at(n.item, x, path + (i,))
                if not is_nothing(y):
                    out.append(y)
            return out
        if n.kind == 'tuple':
            if not isinstance(v, (list, tuple)) or len(v) != len(n.items):
                return self.invalid(path)
            out = []
            for i, x in enumerate(v):
                y = self.at(n.items[i], x, path + (i,))
                if not is_nothing(y):
                    out.append(y)
            return tuple(out)
        if n.kind == 'dict':
            if not isinstance(v, dict):
                return self.invalid(path)
            out = {}
            for k, x in v.items():
                y = self.at(n.item, x, path + (k,))
                if is_nothing(y):
                    continue
                k2 = self.rest(n.key, k, path)
                if not is_nothing(k2):
                    out[k2] = y
            return out
        if n.kind == 'form':
            if not isinstance(v, dict):
                return self.invalid(path)
            before = len(self.errors)
            out = self.form(n, v, path)
            if len(self.errors) > before:
                return REJECTED
            return out
        ok, w = self.coerce(n.kind, v)
        if not ok:
            return self.invalid(path)
        return w

    def form(self, n, data, path=()):
        out = {}
        for name, node in n.fields:
            if self.tags and not set(self.tags) & set(node.tags):
                continue
            v = self.field(node, name, data, path)
            if not is_nothing(v):
                out[name] = v
        if n.unmapped == 'capture' and isinstance(data, dict):
            for k, x in data.items():
                if k not in out:
                    out[k] = x
        return out


def kind_of(ex):
    if isinstance(ex, pilo.fields.Missing):
        return 'Missing'
    if isinstance(ex, pilo.fields.Invalid):
        return 'Invalid'
    return type(ex).__name__


def errors_of(errors):
    """[(kind, location)] of reported errors."""
    return [(kind_of(e), text(e.path)) for e in errors]


def agree(form, errors, want, want_errors, ordered=True):
    """The outcome of a mapping is the one the reference gives."""
    got = errors_of(errors)
    check(len(got) == len(want_errors), 'errors %s, expected %s' % (shown(got), shown(want_errors)))
    if not ordered:
        got, want_errors = sorted(got), sorted(want_errors)
    for (k, p), (wk, wp) in zip(got, want_errors):
        check(k == wk, 'a %s error where a %s was expected' % (k, wk))
        check(p == wp, 'error at %s, expected at %s' % (shown(p), shown(wp)))
    for e, (k, p) in zip(errors, errors_of(errors)):
        check(text(e).startswith(p + ' - '), 'the message does not start with the location')
    check(same(dict(form), want), 'values differ from the expected ones')


def shown(x):
    return '%r' % (x,) if not symbolic() else '...'


def compare(n, data, form_cls=None, ref=None, ordered=True, **kw):
    """Map data with the form of n both ways and compare."""
    cls = form_cls or form_type(n)
    form = cls()
    errors = list(form.map(data, **kw))
    ref = ref or Ref()
    want = ref.form(n, data)
    observe([kind_of(e) for e in errors])
    observe(dict(form))
    agree(form, errors, want, ref.errors, ordered)
    return form, errors, want
