"""C12: what native data becomes as a requested type."""
import decimal
import uuid

import pilo
from .common import *

BOUNDS = {'values': 'null, booleans, integers -50..150, floats n/4 in that range with nan and infinities, lists, '
                    'mappings, texts of 0..4 characters of the alphabets of the harness',
          'sizes': 'texts of up to 40 digits with any one; integers around 2**53, 2**62, 2**64, 10**30; lists of 40 items, one any'}
OUTSIDE = ['long texts with more than one character that is any; other types']

FIELDS = {'any': pilo.fields.Field, 'str': pilo.fields.String, 'int': pilo.fields.Integer,
          'float': pilo.fields.Float, 'bool': pilo.fields.Boolean}


def judge(kind, x, src=None):
    cls = form_of(f=FIELDS[kind]())
    form, errors = outcome(cls, {'f': x}) if src is None else outcome(cls, src)
    if x is None:
        check(not errors and form == {'f': None}, 'null is null of any type')
        return
    ok, y = coerce(kind, x)
    if ok:
        cover('accepted')
        check(not errors, 'a value of the type was rejected')
        check('f' in form and same(form['f'], y), 'not the value, as the type')
    else:
        cover('rejected')
        check(kinds(errors) == [('Invalid', 'f')], 'exactly one Invalid expected')
        check('f' not in form, 'a rejected value was stored')


@harness(cases=[(k,) for k in FIELDS if k != 'any'], covers=['accepted', 'rejected'])
def values(kind):
    judge(kind, value('x', ('none', 'bool', 'int', 'float', 'list', 'dict'), lo=-50, hi=150))


@harness(covers=['accepted'])
def untyped():
    judge('any', value('x', [k for k in ANY if k != 'absent']))


@harness(cases=[('int', '019-+_ .a', 4), ('float', '01-+.e', 4), ('float', 'infa-N', 4), ('str', 'a1 ', 3),
                ('bool', '01tTfF2', 2), ('bool', 'tTrRuUeE', 5), ('bool', 'fFaAlLsSeE', 5), ('bool', 'yesno ', 3),
                ('bool', 'tru\n ', 3), ('bool', 'true ', 5)],
         covers=['accepted'])
def texts(kind, alphabet, cap):
    judge(kind, str_('x', cap, alphabet))


@harness(cases=[(k,) for k in ('int', 'float', 'bool')], covers=['rejected'])
def malformed(kind):
    """Texts that are nothing of the kind."""
    judge(kind, str_('x', 3, 'xyz=?', least=0))


@harness(cases=[(k,) for k in FIELDS], covers=['accepted'])
def items(kind):
    """The same inside lists."""
    x = value('x', ('bool', 'int', 'float', 'str'), cap=2, alphabet='01tx')
    cls = form_of(f=pilo.fields.List(FIELDS[kind]()))
    form, errors = outcome(cls, {'f': [x]})
    ok, y = coerce(kind, x)
    if ok:
        cover('accepted')
    check(not errors if ok else errors_of(errors) == [('Invalid', 'f[0]')], 'errors of the item')
    check(same(form['f'], [y] if ok else []), 'the item')


@harness(covers=['rejected'])
def huge():
    """An integer too large for a float is an invalid float."""
    n = int_('n', 0, 3)
    x = 10 ** 400 + n
    form, errors = outcome(form_of(f=pilo.fields.Float()), {'f': x})
    cover('rejected')
    check(kinds(errors) == [('Invalid', 'f')], 'Invalid expected')
    form, errors = outcome(form_of(f=pilo.fields.Integer()), {'f': x})
    check(not errors and form['f'] == x, 'integers are not limited')


@harness(covers=['accepted', 'rejected'])
def uuids():
    """UUIDs, or texts of them."""
    c = str_('c', 1, '0f9g-', least=1)
    t = c + '2345678-1234-1234-1234-123456789abc'
    how = choice('how', ('text', 'uuid', 'int', 'none'))
    if how == 'text':
        bad = c in ('g', '-')
        form, errors = outcome(form_of(f=pilo.fields.UUID()), {'f': t})
        if bad:
            cover('rejected')
            check(kinds(errors) == [('Invalid', 'f')] and 'f' not in form, 'malformed text was accepted')
        else:
            cover('accepted')
            check(not errors and type(form['f']) is uuid.UUID, 'a UUID was rejected')
            check(text(form['f']) == t, 'another UUID')
    elif how == 'uuid':
        u = uuid.UUID('12345678-1234-1234-1234-123456789abc')
        form, errors = outcome(form_of(f=pilo.fields.UUID()), {'f': u})
        check(not errors and form['f'] is u, 'a UUID was changed')
    elif how == 'int':
        form, errors = outcome(form_of(f=pilo.fields.UUID()), {'f': int_('i', 0, 5)})
        check(kinds(errors) == [('Invalid', 'f')], 'a number was accepted')
    else:
        form, errors = outcome(form_of(f=pilo.fields.UUID()), {'f': None})
        check(form == {'f': None} and not errors, 'null')


@harness(cases=[(k, n) for k in ('int', 'str', 'bool') for n in (12, 20, 40)], covers=['rejected'])
def long(kind, n):
    """Long texts; integers keep every digit."""
    c = str_('c', 1, '05a-', least=1)
    t = choice('before', ('9', '-1', '')) + '1' * (n - 2) + c + choice('after', ('', '7'))
    if kind == 'bool':
        t = 'true' + ' ' * (n - 5) + c
    judge(kind, t)
    if kind == 'str':
        cover('rejected')


@harness(cases=[(k,) for k in ('int', 'str', 'float')], covers=['accepted'])
def precise(kind):
    """Integers no float holds."""
    n = int_('n', -3, 3)
    x = choice('base', (2 ** 53, 2 ** 62, -2 ** 63, 2 ** 64, 10 ** 30)) + n
    if kind == 'float':
        x = choice('float', (1e300, 5e-324, 2.0 ** 53 + 2, -1e16, 0.1))
    judge(kind, x)


@harness(cases=[(k, n) for k in FIELDS for n in (15, 40)], covers=['accepted'])
def many(kind, n):
    """The same for each item of a long list."""
    at = choice('at', (0, n // 2, n - 1))
    x = value('x', ('none', 'bool', 'int', 'str'), cap=1, alphabet='1tx', lo=-9, hi=9)
    xs = [x if i == at else ('7', 5, True, 'q', None)[i % 5] for i in range(n)]
    form, errors = outcome(form_of(f=pilo.fields.List(FIELDS[kind]())), {'f': xs})
    wrong, values = [], []
    for i, v in enumerate(xs):
        ok, y = (True, None) if v is None else coerce(kind, v)
        if ok:
            values.append(y)
        else:
            wrong.append(('Invalid', 'f[%d]' % i))
    cover('accepted')
    check(errors_of(errors) == wrong, 'errors')
    check(same(form['f'], values), 'values')


@harness(cases=[('native',), ('union',)], covers=['accepted', 'rejected'])
def other_types(source):
    """Types derived from those there are."""
    asked({'native': lambda d: d, 'union': lambda d: pilo.source.UnionSource([d])}[source], coerce)


def foreign_values():
    """Values of other types, none of which stands for one of the types asked for."""
    n = int_('n', 0, 3)
    return {'bytes': b'1', 'no bytes': b'', 'bytearray': bytearray(b'true'), 'set': set([1]), 'decimal': decimal.Decimal('1.5'),
            'object': object(), 'type': str, 'tuple': (n,), 'complex': 1j, 'range': range(3), 'frozenset': frozenset()}


@harness(cases=[(k,) for k in FIELDS], covers=['rejected', 'kept'])
def foreign(kind):
    """Bytes, sets and the like are no text and no truth; untyped they are kept as they are."""
    xs = foreign_values()
    x = xs[choice('x', sorted(xs))]
    inside = flag('inside')
    f = FIELDS[kind]()
    form, errors = outcome(form_of(f=pilo.fields.List(f) if inside else f), {'f': [x] if inside else x})
    if kind == 'any':
        cover('kept')
        got = form['f'][0] if inside else form['f']
        check(not errors and got is x, 'a value of any type was changed')
    else:
        cover('rejected')
        check(errors_of(errors) == [('Invalid', 'f[0]' if inside else 'f')], 'a value of another type was accepted')
        check(form == ({'f': []} if inside else {}), 'a value of another type was stored')
