"""C28: no data make mapping fail other than by form errors."""
import datetime
import decimal
import fractions
import re
import time
import uuid

import pilo
from .common import *

BOUNDS = {'fields': 'each field type with each of its constraints (57 declarations)',
          'data': 'absent, null, booleans, integers, floats with nan and infinities, decimals, texts of up to 3 characters of an alphabet of the '
                  'field, dates, times and moments with and without a time zone, UUIDs, fractions, bytes, sets, objects, '
                  'lists and mappings of these and with keys of other types',
          'numbers': '-3..12',
          'sizes': 'lists and mappings of 60 items, one odd; data and forms 40 deep'}
OUTSIDE = ['data whose own methods raise (an object that has no text)', 'hooks that raise', 'declarations that contradict themselves (limits of another type, '
           'values translated to another type)', 'longer texts']

F = pilo.fields
UTC = datetime.timezone.utc
DAY = datetime.date(2000, 6, 1)
MOMENT = datetime.datetime(2000, 6, 1, 12)
AWARE = datetime.datetime(2000, 6, 1, 12, tzinfo=UTC)


def leaf(**kw):
    return form_of(x=F.Int(default=1, **kw))


def polymorphic():
    base = type('Base', (pilo.Form,), dict(type=F.Type.abstract()))
    subtype(base, 'One', type=F.Type.instance('1'), x=F.Int(default=1))
    return base.type


text_, whole, number, truth = str, int, float, bool
ALPHA = '01a'
UUIDS = ('', 'a', '12345678123412341234123456789abc', '12345678-1234-1234-1234-123456789abg')

#: name: (alphabet, makers, type of what is held)
TYPES = {
    'any': (ALPHA, [lambda: F.Field(), lambda: F.Field(ignore='a'), lambda: F.Field(translate={'a': 1}), lambda: F.Field(nullable=False),
                    lambda: F.Field(default=3)], object),
    'string': (ALPHA, [lambda: F.String(), lambda: F.String(length=2), lambda: F.String(min_length=1, max_length=2), lambda: F.String(alphabet='a0'),
                       lambda: F.String(pattern='a'), lambda: F.String(choices=['a']), lambda: F.String(choices=['a', '1'], translate={'a': 'b'}),
                       lambda: F.String(ignore='a')], str),
    'capture': (ALPHA, [lambda: F.String().capture('a(1)?'), lambda: F.String().capture('(?P<q>1)?(a)', 'q'), lambda: F.String().capture('a')], str),
    'integer': ('01-. ', [lambda: F.Integer(), lambda: F.Integer(min_value=0), lambda: F.Integer(range=(0, 5), ignore=3), lambda: F.Integer(max_value=5, nullable=False),
                          lambda: F.Integer(translate={1: 2})], int),
    'float': ('01.-e', [lambda: F.Float(), lambda: F.Float(min_value=0), lambda: F.Float(range=(0, 5), ignore=1)], float),
    'pattern': ('01.a', [lambda: F.Integer().pattern(r'\d*'), lambda: F.Float(max_value=1).pattern(r'[\d.]*a?')], (int, float)),
    'decimal': ('01.a', [lambda: F.Decimal(), lambda: F.Decimal(range=(0, 5)), lambda: F.Decimal(ignore=1), lambda: F.Decimal(translate={1: decimal.Decimal(2)})],
                decimal.Decimal),
    'boolean': ('01tf', [lambda: F.Boolean(), lambda: F.Boolean(ignore=True)], bool),
    'date': ('2-0', [lambda: F.Date(), lambda: F.Date(format='%Y'), lambda: F.Date(format=['%Y-%m', '%d']), lambda: F.Date(after=DAY, before=DAY, format='%d')],
             datetime.date),
    'time': ('1:0', [lambda: F.Time(), lambda: F.Time(format='%H'), lambda: F.Time(format='%H', after=time.gmtime(0)), lambda: F.Time(format='%H', before=datetime.time(1))],
             (time.struct_time, datetime.time)),
    'datetime': ('2-0', [lambda: F.Datetime(), lambda: F.Datetime(format='%d'), lambda: F.Datetime(format='%d', after=MOMENT),
                         lambda: F.Datetime(format='%d', before=AWARE)], datetime.datetime),
    'tuple': (ALPHA, [lambda: F.Tuple((F.Int(),)), lambda: F.Tuple((F.Int(max_value=3), F.Field(default=2)))], tuple),
    'list': (ALPHA, [lambda: F.List(F.Int()), lambda: F.List(F.Field(), length=(1, 2)), lambda: F.List(F.Float(), allow_field=True),
                     lambda: F.List(leaf()), lambda: F.List(F.List(F.String(), allow_field=True), allow_field=True)], list),
    'dict': (ALPHA, [lambda: F.Dict(F.String(), F.Int()), lambda: F.Dict(F.Field(), F.Field(), required_keys=['a'], max_keys=1),
                     lambda: F.Dict(F.String(ignore='a', translate={'b': 'c'}), F.List(F.Field()))], dict),
    'limited': (ALPHA, [lambda: F.Dict(F.String(max_length=1), F.Field()), lambda: F.SubForm(leaf(), unmapped=(F.String(alphabet='a'), F.Field()))], dict),
    'uuid': (UUIDS, [lambda: F.UUID()], uuid.UUID),
    'type': (ALPHA, [lambda: F.Type.instance('a'), lambda: F.Type.instance('a', 'b'), lambda: F.Type.constant('a')], str),
    'form': (ALPHA, [lambda: F.SubForm(leaf()), lambda: F.SubForm(leaf(nullable=False)), lambda: F.SubForm(leaf(), flat=True, default=None),
                     lambda: F.SubForm(leaf(), unmapped='capture'), lambda: F.SubForm(leaf(), unmapped=F.Int())], pilo.Form),
    'poly': (ALPHA, [lambda: F.PolymorphicSubForm(polymorphic()), lambda: F.PolymorphicSubForm(polymorphic(), unmapped='capture')], pilo.Form),
    'group': (ALPHA, [lambda: F.Group(('a', F.Int())), lambda: F.Group((re.compile('.'), F.Field()), ('x', F.Int()))], list),
}


class Thing(object):
    x = 1
    type = '1'


SIMPLE = ('absent', 'none', 'bool', 'int', 'float', 'decimal', 'str', 'date', 'datetime', 'aware', 'time', 'clock', 'uuid', 'fraction', 'complex', 'bytes', 'set',
          'thing', 'class', 'call', 'snan', 'huge')


def datum(label, kinds, alphabet, cap):
    k = choice(label + '.kind', kinds)
    if k in ('absent', 'none', 'bool', 'int', 'float'):
        return value(label, (k,), lo=-3, hi=12)
    if k == 'str':
        if alphabet is UUIDS:
            return choice(label, UUIDS)
        return str_(label, cap, alphabet)
    if k == 'decimal':
        return decimal_(label, -3, 12)
    if k == 'date':
        return date_(label, 2000, 2000)
    if k == 'datetime':
        return datetime_(label, 2000, 2000)
    if k == 'aware':
        return datetime_(label, 2000, 2000, tz=UTC)
    if k == 'time':
        return time_(label)
    if k == 'list':
        return [datum(label + '.%d' % i, ('none', 'int', 'str'), alphabet, 1) for i in range(pick(label + '.n', 3))]
    if k == 'nested':
        return [[datum(label + '.i', ('int', 'str'), alphabet, 1)], {'x': datum(label + '.x', ('none', 'int', 'str'), alphabet, 1)}]
    if k == 'dict':
        return data_of(x=datum(label + '.x', ('absent', 'none', 'int', 'str', 'uuid'), alphabet, 1),
                       a=datum(label + '.a', ('absent', 'none', 'str', 'set'), alphabet, 1),
                       type=datum(label + '.t', ('absent', 'none', 'str', 'int', 'set'), '1a', 1))
    if k == 'keys':
        return {choice(label + '.key', (1, None, True, 1.5, (1, 2), '', 'a.x', 'x()', 'a')): datum(label + '.v', ('none', 'int', 'str'), alphabet, 1)}
    if k == 'huge':
        return choice(label, (10 ** 400, -10 ** 400, 1e308, -1e308, decimal.Decimal('-1E+99999'), '9' * 400, '-1e999'))
    return {'clock': time.gmtime(5), 'uuid': uuid.UUID(int=7), 'fraction': fractions.Fraction(1, 3), 'complex': 1j, 'bytes': b'a',
            'set': {1}, 'thing': Thing(), 'class': Thing, 'call': len, 'snan': decimal.Decimal('sNaN')}[k]


def attempt(cls, data, error, known=()):
    """(form, errors) or None if errors were raised."""
    form = cls()
    try:
        got = form.map(data, error=error)
    except pilo.fields.FormError as ex:
        check(error == 'raise', 'a collecting mapping raised')
        check(len(ex.field_errors) >= 1, 'an empty error was raised')
        return None
    except Exception as ex:
        fail('%s was raised' % type(ex).__name__, known)
        return None
    if error == 'collect':
        check(all(isinstance(e, pilo.fields.FieldError) for e in got), 'not an error of a field')
        return form, list(got)
    check(got is form, 'map returned something else')
    return form, []


def of_type(x, t):
    if t is object:
        return True
    for u in t if isinstance(t, tuple) else (t,):
        if isinstance(x, u) and not (u is int and isinstance(x, bool)):
            return True
    return False


def one(name, x):
    alphabet, makers, t = TYPES[name]
    make = makers[pick('which', len(makers))]
    cls = form_of(f=make(), g=F.Int(default=2))
    mode, g = choice('mode', (('collect', ABSENT), ('collect', 'a'), ('raise', ABSENT)))
    data = data_of(f=x, g=g)
    known = [('key-type', name == 'limited' and isinstance(x, dict) and not all(isinstance(k, str) for k in x))]
    got = attempt(cls, data, mode, known)
    if got is None:
        return
    form, errors = got
    if len(errors) == 0 or [e.field.name for e in errors] == ['g']:
        cover('clean')
        if 'f' in form and form['f'] is not None and not (name == 'any' or 'f' not in data and name in ('form', 'group')):
            check(of_type(form['f'], t), 'what is held is not of the type of the field')
    else:
        cover('error')
    check('g' in form if all(e.field.name != 'g' for e in errors) else 'g' not in form, 'the field after it')


def harnesses():
    ms = list(TYPES)
    return [(m,) for m in ms]


@harness(cases=harnesses(), covers=['clean', 'error'])
def scalar(name):
    """A scalar, or nothing at all."""
    one(name, datum('x', SIMPLE, TYPES[name][0], 3 if name in ('integer', 'float', 'boolean', 'decimal') else 2))


@harness(cases=harnesses(), covers=['clean', 'error'])
def container(name):
    """A sequence or mapping."""
    one(name, datum('x', ('list', 'nested', 'dict', 'keys'), TYPES[name][0], 1))


@harness(covers=['done'])
def roots():
    """Data of the whole form."""
    cls = form_of(f=F.Int(default=1), g=F.SubForm(leaf(), default=None), h=F.List(F.Field(), default=list))
    k = choice('root', ('list', 'tuple', 'keys', 'none'))
    if k == 'none':
        d = None
    elif k == 'keys':
        d = datum('x', ('keys',), '1a', 1)
    else:
        d = [datum('r%d' % i, [('none', 'int', 'str'), ('none', 'str', 'list', 'keys'), ('int', 'list', 'keys')][i], '1a', 1) for i in range(pick('n', 4))]
        d = tuple(d) if k == 'tuple' else d
    form = cls()
    try:
        errors = form.map(d, unmapped=choice('unmapped', ('ignore', 'capture')))
    except Exception as ex:
        fail('%s was raised' % type(ex).__name__)
    check(all(isinstance(e, pilo.fields.FieldError) for e in errors), 'not an error of a field')
    cover('done')


LARGE = ('list', 'tuple', 'dict', 'form', 'any', 'group', 'poly')


@harness(cases=[(m, n) for m in LARGE for n in (10, 60)], covers=['done'])
def large(name, n):
    """Long lists and wide mappings, with one odd value among them."""
    make = TYPES[name][1][pick('which', len(TYPES[name][1]))]
    at = choice('at', (0, n // 2, n - 1))
    x = datum('x', [k for k in SIMPLE if k != 'absent'], '1a', 1)
    shape = choice('shape', ('list', 'dict', 'nested'))
    xs = [x if i == at else (1, 'a', None, [2], {'x': 1}, 1.5)[i % 6] for i in range(n)]
    d = xs if shape == 'list' else dict(('k%d' % i, v) for i, v in enumerate(xs)) if shape == 'dict' else [dict(x=v, type='1', a=xs) for v in xs]
    got = attempt(form_of(f=make(), g=F.Int(default=2)), {'f': d}, choice('mode', ('collect', 'raise')))
    if got is not None:
        check(got[0].get('g') == 2, 'the field after it')
    cover('done')


@harness(cases=[(10,), (40,)], covers=['done'])
def deep(n):
    """Data nested deeper than the form, and forms nested deeper than the data."""
    x = datum('x', [k for k in SIMPLE if k not in ('date', 'datetime', 'aware', 'time', 'decimal', 'float')], '1a', 1)
    f, d = F.Int(default=choice('default', (None, 3))), data_of(x=x)
    for i in range(n):
        f = F.SubForm(type('S', (pilo.Form,), {'x': f})) if i % 2 else F.List(f, allow_field=True)
    short = choice('short', (n, n // 2, 1))
    how = choice('how', ('list', 'dict', 'mixed', 'mixed again'))
    for i in range(short):
        d = [d] if how == 'list' or i % 2 == (how == 'mixed') and how != 'dict' else {'x': d}
    got = attempt(form_of(f=f, h=F.Field('f'), g=F.Int(default=2)), {'f': d}, choice('mode', ('collect', 'raise')))
    if got is not None:
        check(got[0].get('g') == 2 and got[0].get('h') is d, 'the fields after it')
    cover('done')
