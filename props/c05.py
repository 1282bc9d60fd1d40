"""C05: missing values, defaults, ignored values."""
import decimal

import functools

import pilo
from .common import *

BOUNDS = {'values': 'absent, null, booleans, integers -20..120, floats n/4 in the same range with nan and infinities, '
                    'texts of 0..3 characters of 0-9-. az, a list, a mapping',
          'defaults': 'any integer -9..9 given as literal, by a callable or by a hook; null; none; optional; unset',
          'ignored values': 'one integer -20..120, one text of 0..1 characters, or null',
          'sizes': 'up to 60 fields with defaults of every kind, one (first, second, middle, last but one or last) with any data; 40 ignored values'}
OUTSIDE = ['defaults that are compared in a way of their own']

KINDS = ('any', 'str', 'int', 'float', 'bool')
DEFAULTS = ('unset', 'literal', 'null', 'call', 'hook', 'none', 'optional')
ABSENT_OR_FLAG = (ABSENT, True, False)


def node_of(kind, how, **kw):
    d = int_('default', -9, 9)
    calls = []

    def given():
        calls.append(1)
        return d
    if how == 'literal':
        n = Node(kind, default=d, **kw)
    elif how == 'null':
        n = Node(kind, default=None, **kw)
    elif how == 'call':
        n = Node(kind, default=given, **kw)
    elif how == 'hook':
        n = Node(kind, default_hook=given, **kw)
    elif how in ('none', 'optional'):
        n = Node(kind, default=ABSENT, **kw)
    else:
        n = Node(kind, **kw)
    return n, calls


def form_for(n, how):
    f = build(n)
    if how == 'optional':
        f = build(Node(n.kind, src=n.src, ignore=n.ignore)).options(optional=True)
    return form_of(f=f)


def judge(n, how, data, ignore_default=False, ignore_missing=False):
    cls = form_for(n, how)
    ref = Ref(ignore_default=ignore_default, ignore_missing=ignore_missing)
    with pilo.ctx(ignore_default=ignore_default, ignore_missing=ignore_missing):
        form, errors, want = compare(form_node(('f', n)), data, cls, ref)
    return form, errors


@harness(cases=[(k, d) for k in KINDS for d in DEFAULTS], covers=['absent', 'present', 'null'])
def absent(kind, how):
    """Absent: the default, else one Missing.  Present: the default plays no part."""
    n, calls = node_of(kind, how)
    x = value('x', ANY)
    data = data_of(f=x)
    form, errors = judge(n, how, data)
    if x is ABSENT:
        cover('absent')
        if how == 'unset':
            check(errors_of(errors) == [('Missing', 'f')], 'one Missing expected')
            check('f' not in form, 'no value expected')
        else:
            check(not errors, 'errors although there is a default')
            check(('f' in form) == (how not in ('none', 'optional')), 'the default was not used')
    else:
        cover('null' if x is None else 'present')
        check(not calls, 'the default was computed although a value is there')
        if x is None:
            check(not errors and form == {'f': None}, 'null was not kept')


@harness(cases=[(k, d) for k in ('any', 'int') for d in DEFAULTS], covers=['reported', 'silent'])
def switches(kind, how):
    """ignore_default: as if there were none; ignore_missing: nothing is reported."""
    n, calls = node_of(kind, how)
    a, b = flag('ignore_default'), flag('ignore_missing')
    x = value('x', ('absent', 'none', 'int', 'str'))
    form, errors = judge(n, how, data_of(f=x), a, b)
    missing = [e for e in errors if kind_of(e) == 'Missing']
    if a and x is ABSENT:
        check('f' not in form, 'a default was used although defaults are ignored')
        check(not calls, 'a default was computed although defaults are ignored')
        check(len(missing) == (0 if b else 1), 'Missing expected unless ignored')
    cover('reported' if missing else 'silent')


@harness(cases=[(k, d) for k in ('int', 'str', 'any') for d in DEFAULTS], covers=['ignored', 'kept'])
def ignored(kind, how):
    """An ignored value counts as absent; any other value is kept."""
    w = choice('ignore', ('int', 'str', 'none'))
    y = int_('y', -20, 120) if w == 'int' else str_('y', 1, '1a') if w == 'str' else None
    n, calls = node_of(kind, how, ignore=[y])
    x = value('x', ('absent', 'none', 'int', 'str'), cap=2, alphabet='1a')
    form, errors = judge(n, how, data_of(f=x))
    if x is not ABSENT and (kind == 'any' or (kind == 'str' and not isinstance(x, int))
                            or (kind == 'int' and not isinstance(x, str))):
        if x == y:
            cover('ignored')
            if how == 'unset':
                check(errors_of(errors) == [('Missing', 'f')], 'an ignored value is a missing one')
        else:
            cover('kept')
            check(same(form['f'], x) and not errors, 'a value that is not ignored was not kept')


@harness(cases=[(a,) for a in ('list', 'dict', 'call')], covers=['fresh'])
def fresh(how):
    """A default that is a type or callable is called anew for every mapping."""
    n = {'list': list, 'dict': dict, 'call': lambda: [1]}[how]
    cls = form_of(f=pilo.fields.Field(default=n), g=pilo.fields.Int())
    a, b = mapped(cls, {'g': int_('a', 0, 3)})[0], mapped(cls, {'g': int_('b', 0, 3)})[0]
    cover('fresh')
    check(a['f'] is not b['f'], 'two mappings share one default')
    check(a['f'] == b['f'] == n(), 'the default differs')
    check(cls(g=1)['f'] is not a['f'], 'two mappings share one default')


@harness(cases=[(i, d) for i in ('list', 'tuple', 'dict', 'form') for d in ('unset', 'literal', 'none')],
         covers=['absent'])
def containers(kind, how):
    """The same holds for fields that hold others."""
    n, _ = node_of('int', 'unset')
    kw = dict(item=n) if kind in ('list', 'dict') else dict(items=[n]) if kind == 'tuple' else dict(fields=[('g', n)])
    if kind == 'dict':
        kw['key'] = Node('str')
    n, _ = node_of(kind, how, **kw)
    x = value('x', ('absent', 'none', 'int', 'list', 'dict'))
    if x is ABSENT:
        cover('absent')
    judge(n, how, data_of(f=x), flag('ignore_default'), flag('ignore_missing'))


@harness(cases=[(d, k) for d in ('int', 'str', 'bool', 'none', 'empty', 'unset', 'callable') for k in (0, 1, 2)], covers=['absent', 'null', 'rejected'])
def options(d, order):
    """nullable, optional and a default, given together or one after another."""
    default = {'int': lambda: int_('d', -1, 1), 'str': lambda: str_('d', 1, 'a'), 'bool': lambda: bool_('d'), 'none': lambda: None,
               'empty': lambda: choice('d', ([], {}, ())), 'unset': lambda: ABSENT, 'callable': lambda: lambda: 0}[d]()
    nullable = choice('nullable', ABSENT_OR_FLAG)
    optional = choice('optional', ABSENT_OR_FLAG)
    kw = dict((k, v) for k, v in (('nullable', nullable), ('optional', optional)) if v is not ABSENT)
    if order == 0:
        f = pilo.fields.Field(**dict(kw, **({} if default is ABSENT else {'default': default})))
    elif order == 1:
        # a default given later wins over optional
        f = pilo.fields.Field(**kw)
        if default is not ABSENT:
            f.options(default=default)
    else:
        f = pilo.fields.Field()
        for k in kw:
            f.options(**{k: kw[k]})
        if default is not ABSENT:
            f = f.options(default=default)
    form, errors = outcome(form_of(f=f), {})
    cover('absent')
    if default is not ABSENT:
        check(not errors and 'f' in form and same(form['f'], 0 if d == 'callable' else default), 'the default was not used')
    elif optional is True:
        check(not errors and not form, 'an optional field without data')
    else:
        check(errors_of(errors) == [('Missing', 'f')] and not form, 'one Missing expected')
    form, errors = outcome(form_of(f=f), {'f': None})
    if nullable is False and d != 'none':
        cover('rejected')
        check(errors_of(errors) == [('Invalid', 'f')] and not form, 'null was accepted')
    else:
        cover('null')
        check(not errors and form == {'f': None}, 'null was not kept')
    x = value('x', ('int', 'str', 'bool'), lo=-1, hi=1)
    form, errors = outcome(form_of(f=f), {'f': x})
    check(not errors and same(form['f'], x), 'a value was not kept')


@harness(covers=['kept'])
def words():
    """No value in the data stands for the absence of one."""
    x = choice('x', ('NONE', 'ERROR', 'NOT_SET', '', 'None', 'null', 0, False, [], {}))
    where = choice('where', ('field', 'list', 'dict', 'form', 'default'))
    f = pilo.fields.Field(default=7) if where != 'default' else pilo.fields.Field(default=x)
    cls, data = {'field': lambda: (form_of(f=f), {'f': x}), 'list': lambda: (form_of(f=pilo.fields.List(f)), {'f': [x, 1]}),
                 'dict': lambda: (form_of(f=pilo.fields.Dict(pilo.fields.String(), f)), {'f': {'k': x}}),
                 'form': lambda: (form_of(f=pilo.fields.SubForm(form_of(f=f))), {'f': {'f': x}}), 'default': lambda: (form_of(f=f), {})}[where]()
    form, errors = outcome(cls, data)
    cover('kept')
    check(not errors and dict(form) == (data if where != 'default' else {'f': x}) and type(form['f']) is (type(x) if where in ('field', 'default') else type(form['f'])), 'a value was lost')


SNAN = decimal.Decimal('sNaN')


@harness(cases=[(k,) for k in ('decimal', 'int', 'snan')], covers=['ignored', 'kept'])
def decimals(kind):
    """Ignored decimals count as absent; others are kept, those that compare to none as well."""
    w = decimal_('w', -3, 3, special=False, den=2)
    x = {'decimal': lambda: decimal_('x', -3, 3, den=2), 'int': lambda: int_('x', -3, 3), 'snan': lambda: (SNAN if flag('signalling') else decimal.Decimal('NaN'))}[kind]()
    f = pilo.fields.Decimal(default=7, nullable=flag('nullable')).ignore(w, decimal.Decimal('100'))
    form, errors = outcome(form_of(f=f), {'f': x})
    check(not errors, 'errors although there is a default')
    if kind != 'snan' and x == w:
        cover('ignored')
        check(form['f'] == 7, 'an ignored decimal was kept')
    else:
        cover('kept')
        check(isinstance(form['f'], decimal.Decimal), 'a decimal expected')
        check(form['f'] is x if kind == 'snan' else same(form['f'], x) if kind == 'decimal' else form['f'] == x, 'a decimal that is not ignored was not kept')
    if kind == 'snan':
        cover('ignored')
        form, errors = outcome(form_of(f=pilo.fields.Decimal(min_value=w) if flag('min') else pilo.fields.Decimal(max_value=w)), {'f': x})
        check(errors_of(errors) == [('Invalid', 'f')] and not form, 'no range holds it')


@harness(cases=[(4,), (12,), (60,)], covers=['absent', 'present'])
def many(n):
    """Many fields, with defaults of every kind, one of which is given anything."""
    d = int_('d', -9, 9)
    calls = []

    def given():
        calls.append(1)
        return d
    kinds_ = [dict(default=d), dict(default=given), dict(default=None), dict(optional=True), {}]
    at = choice('at', (0, 1, n // 2, n - 2, n - 1))
    x = value('x', ('absent', 'none', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)
    # every fifth field is given
    data = dict(('f%d' % i, i) for i in range(n) if i % 3 == 0 and i != at)
    if x is not ABSENT:
        data['f%d' % at] = x
    cls = type('F', (pilo.Form,), dict(('f%d' % i, pilo.fields.Int(**kinds_[i % 5])) for i in range(n)))
    values, wrong, called = {}, [], 0
    for i in range(n):
        k = 'f%d' % i
        v = data.get(k, ABSENT)
        if v is not ABSENT:
            ok, y = (True, None) if v is None else coerce('int', v)
            if ok:
                values[k] = y
            else:
                wrong.append(('Invalid', k))
        elif i % 5 < 3:
            values[k] = None if i % 5 == 2 else d
            called += i % 5 == 1
        elif i % 5 == 4:
            wrong.append(('Missing', k))
    form, errors = outcome(cls, data)
    cover('absent' if x is ABSENT else 'present')
    check(errors_of(errors) == wrong, 'errors')
    check(list(form) == list(values) and same(dict(form), values), 'values')
    check(len(calls) == called, 'defaults computed')


@harness(cases=[(5,), (40,)], covers=['ignored', 'kept'])
def many_ignored(n):
    """Any of many ignored values."""
    x = int_('x', -5, n * 3)
    kind = choice('kind', ('int', 'str', 'any'))
    ignored = [i * 3 for i in range(n)]
    if kind == 'str':
        x = str_('s', 2, '0123456789', least=1)
        ignored = [str(i) for i in ignored]
    f = {'int': pilo.fields.Int, 'str': pilo.fields.String, 'any': pilo.fields.Field}[kind](default=-7).ignore(*ignored)
    form, errors = outcome(form_of(f=f), {'f': x})
    check(not errors, 'errors although there is a default')
    if or_(*[x == i for i in ignored]):
        cover('ignored')
        check(same(form['f'], -7), 'an ignored value was kept')
    else:
        cover('kept')
        check(same(form['f'], x), 'a value that is not ignored was not kept')


@harness(cases=[(h, k) for h in ('hook', 'call') for k in ('int', 'str', 'any', 'list', 'form', 'group') if (h, k) != ('hook', 'group')], covers=['value', 'nothing', 'present'])
def computed(how, kind):
    """What a default hook or callable gives is the value: null, empty or zero too; nothing if it gives none."""
    d = choice('d', ('int', 'null', 'zero', 'empty', 'false', 'list', 'NONE', 'ERROR', 'NOT_SET'))
    give = {'int': lambda: int_('value', -9, 9), 'null': lambda: None, 'zero': lambda: 0, 'empty': lambda: '', 'false': lambda: False, 'list': lambda: [],
            'NONE': lambda: pilo.NONE, 'ERROR': lambda: pilo.ERROR, 'NOT_SET': lambda: pilo.NOT_SET}[d]()
    calls = []
    f = {'int': pilo.fields.Int, 'str': pilo.fields.String, 'any': pilo.fields.Field, 'list': lambda **kw: pilo.fields.List(pilo.fields.Int(), **kw),
         'form': lambda **kw: pilo.fields.SubForm(form_of(a=pilo.fields.Int()), **kw), 'group': lambda **kw: pilo.fields.Group(('q', pilo.fields.Int()), **kw)}[kind]
    kw = {'nullable': False} if flag('not nullable') else {}
    if how == 'call':
        def given():
            calls.append(1)
            return give
        f = f(default=given, **kw)
    else:
        def hook(self):
            calls.append(1)
            return give
        f = f(**kw)
        f.default.attach(f)(hook)
    there = {'int': 1, 'str': 's', 'any': 0, 'list': [], 'form': {'a': 1}, 'group': 1}[kind]
    there = flag('there') and {'q' if kind == 'group' else 'f': there}
    form, errors = outcome(form_of(f=f, g=pilo.fields.Int(default=3)), there or {})
    check(not errors and form['g'] == 3, 'errors')
    if there:
        cover('present')
        check(not calls and 'f' in form, 'the default was computed although a value is there')
    elif d in ('NONE', 'ERROR', 'NOT_SET'):
        cover('nothing')
        check('f' not in form and len(calls) == 1, 'a value although there is none')
    else:
        cover('value')
        check(len(calls) == 1 and 'f' in form and same(form['f'], give), 'not what the default gives')


class Maker(object):

    def __init__(self, give, calls):
        self.give, self.calls = give, calls

    def __call__(self):
        self.calls.append(1)
        return self.give

    def method(self):
        return self()

    @classmethod
    def of_class(cls):
        return 12


def generated():
    yield 1


@harness(covers=['default', 'present'])
def callables():
    """Whatever kind of callable the default is, it is called; what is none is the default itself."""
    d = int_('d', -9, 9)
    calls = []
    maker = Maker(d, calls)
    how, given, want = choice('how', (
        ('object', maker, d), ('method', maker.method, d), ('partial', functools.partial(maker), d), ('lambda', lambda: maker(), d),
        ('class method', Maker.of_class, 12), ('type', int, 0), ('own type', Maker1, None), ('method of text', 'ab'.upper, 'AB'),
        ('method of list', [d].copy, [d]), ('text', 'maker', 'maker'), ('tuple', (maker,), (maker,))))
    cls = form_of(f=pilo.fields.Field(default=given), z=pilo.fields.Int(default=1))
    there = flag('there')
    for again in range(2):
        form, errors = mapped(cls, {'f': 5} if there else {})
        check(not errors and form['z'] == 1, 'errors')
        if there:
            cover('present')
            check(form['f'] == 5 and not calls, 'the default was used')
        else:
            cover('default')
            check(type(form['f']) is Maker1 if how == 'own type' else same(form['f'], want), 'not what the default gives')
            check(len(calls) == (again + 1 if how in ('object', 'method', 'partial', 'lambda') else 0), 'called once for each mapping')


class Maker1(object):
    pass
