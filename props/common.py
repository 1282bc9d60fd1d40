"""Helpers of the harnesses: building forms and reading outcomes."""
import pilo
from sx.api import *      # noqa: F401,F403
from sx import api
from . import ref
from .ref import Node, Ref, kind_of, errors_of, agree, compare, build, form_type, ABSENT, REJECTED, UNSET, is_nothing, coerce, coerce_json, place


def form_of(**fields):
    """A form type with the given fields."""
    return type('F', (pilo.Form,), fields)


def subtype(base, name, **fields):
    """A form type derived from another, which refers to it: one that nothing refers to is gone sooner or later."""
    cls = type(name, (base,), fields)
    base.kept = base.__dict__.get('kept', ()) + (cls,)
    return cls


def mapped(form_type, data, **kwargs):
    """(form, errors) of mapping data with errors collected."""
    form = form_type()
    errors = form.map(data, **kwargs)
    return form, list(errors)


def outcome(form_type, data, **kwargs):
    form, errors = mapped(form_type, data, **kwargs)
    observe([kind_of(e) for e in errors])
    observe(dict(form))
    return form, errors


def locations(errors):
    return [text(e.path) for e in errors]


def kinds(errors):
    return [(kind_of(e), e.field.name) for e in errors]


def value(label, kinds, cap=3, alphabet='0123456789-. az', lo=-20, hi=120):
    """A value of the data: its kind splits the path, the value is symbolic."""
    k = choice(label + '.kind', kinds)
    if k == 'absent':
        return ABSENT
    if k == 'none':
        return None
    if k == 'bool':
        return bool_(label)
    if k == 'int':
        return int_(label, lo, hi)
    if k == 'float':
        return float_(label, lo, hi, den=4)
    if k == 'str':
        return str_(label, cap, alphabet)
    if k == 'list':
        return [int_(label, lo, hi)]
    if k == 'dict':
        return {'k': int_(label, lo, hi)}
    raise AssertionError(k)


def data_of(**values):
    return dict((k, v) for k, v in values.items() if v is not ABSENT)


def form_node(*fields, **kw):
    return Node('form', fields=list(fields), **kw)


ANY = ('absent', 'none', 'bool', 'int', 'float', 'str', 'list', 'dict')


def asked(source, coerce_, kinds_=('none', 'bool', 'int', 'float', 'str', 'list')):
    """A parse hook asks for types of its own: derived ones are read like those they derive from, of several the first that is one to read."""
    table = {'int': type('Age', (int,), {}), 'str': type('Name', (str,), {}), 'float': type('Ratio', (float,), {}), 'none': complex}
    table['deep'] = type('Kind', (table['str'],), {})
    names = choice('types', (('int',), ('str',), ('float',), ('deep',), ('none', 'int'), ('int', 'str'), ('none', 'deep', 'float'), ('none',), ()))
    x = value('x', kinds_, cap=1, alphabet='1x', lo=-9, hi=9)

    def parse(self, path):
        return path.primitive(*[table[n] for n in names])

    def field():
        f = pilo.fields.Field()
        return f.parse.attach(f)(parse)
    form, errors = outcome(form_of(f=field(), g=field()), source({'f': x, 'g': x}))
    known = [n for n in names if n != 'none']
    if x is None:
        cover('accepted')
        check(not errors and form == {'f': None, 'g': None}, 'null is null of any type')
        return
    kind = 'any' if not names else {'deep': 'str'}.get(known[0], known[0]) if known else None
    ok, y = coerce_(kind, x) if kind else (False, None)
    if ok:
        cover('accepted')
        check(not errors and same(form['f'], y) and same(form['g'], y), 'the value as the type it derives from')
    else:
        cover('rejected')
        check(errors_of(errors) == [('Invalid', 'f'), ('Invalid', 'g')] and not form, 'a value not of the type')
