"""C17: keys no field maps."""
import pilo
from .common import *

BOUNDS = {'data': '0..2 members with keys of 1..2 characters of "abc", and a field', 'values': 'null, integers, texts, lists',
          'directives': 'ignore, capture, a field, a pair of fields; at the top and in nested forms',
          'keys': 'as they are, or translated or munged to one that is held',
          'sizes': 'mappings of 12 and 60 keys, one any'}
OUTSIDE = ['large data with more than one value that is any; fields under another name than their key']


def source(n):
    d = data_of(a=value('a', ('absent', 'int', 'none')))
    for i in range(n):
        k = str_('k%d' % i, 2, 'ac' if i else 'abc', least=1)
        d[k] = value('v%d' % i, ('int', 'str'), cap=1, alphabet='1x') if i == 0 else int_('v%d' % i, 0, 9)
    return d


def simple():
    return form_of(a=pilo.fields.Field(default=pilo.NONE), ab=pilo.fields.Field(default=pilo.NONE))


@harness(cases=[('ignore', 2), ('capture', 2), ('default', 2), ('off', 1)], covers=['extra'])
def directive(how, n):
    d = source(n)
    form = simple()()
    kw = {'ignore': {'unmapped': 'ignore'}, 'capture': {'unmapped': 'capture'}, 'default': {}, 'off': {'unmapped': None}}[how]
    errors = form.map(d, **kw)
    observe(dict(form))
    check(not errors, 'errors')
    want = {}
    for k, v in d.items():
        known = or_(k == 'a', k == 'ab')
        if not known:
            cover('extra')
        if known or how == 'capture':
            want[k] = v
    check(same(dict(form), want), 'unmapped keys')


@harness(cases=[('field',), ('pair',)], covers=['captured', 'bad key', 'bad value'])
def mapped_by(how):
    """What is captured maps like the members of a mapping."""
    d = source(2)
    lo = int_('lo', 0, 9)
    vf = pilo.fields.Int(min_value=lo)
    form = simple()()
    errors = form.map(d, unmapped=vf if how == 'field' else (pilo.fields.String(max_length=1), vf))
    observe([kind_of(e) for e in errors])
    observe(dict(form))
    want, bad = {}, []
    for k, v in d.items():
        if k == 'a' or k == 'ab':
            want[k] = v
    for k, v in d.items():
        if k == 'a' or k == 'ab':
            continue
        ok, w = (True, None) if v is None else coerce('int', v)
        if not ok or (w is not None and w < lo):
            cover('bad value')
            bad.append(('Invalid', text(k)))
            continue
        if how == 'pair' and len(k) > 1:
            cover('bad key')
            bad.append(('Invalid', ''))
            continue
        cover('captured')
        want[k] = w
    check(errors_of(errors) == bad, 'errors')
    check(same(dict(form), want), 'values')


@harness(cases=[('capture',), ('ignore',)], covers=['seen'])
def nested(how):
    """Nested forms have their own directive."""
    cls = form_of(f=pilo.fields.SubForm(simple(), unmapped=how), ab=pilo.fields.Field(default=pilo.NONE))
    d = source(1)
    top = flag('top')
    form = cls()
    errors = form.map({'f': d, 'x': 1}, unmapped='capture' if top else 'ignore')
    observe(dict(form))
    cover('seen')
    want = {}
    for k, v in d.items():
        if how == 'capture' or k == 'a' or k == 'ab':
            want[k] = v
    check(not errors, 'errors')
    check(same(dict(form), {'f': want, 'x': 1} if top else {'f': want}), 'values')


@harness(covers=['seen'])
def invalid_directive():
    """Any other directive is refused."""
    k = str_('k', 2, 'abc', least=1)
    try:
        simple()().map({'a': 1}, unmapped=k)
    except ValueError:
        cover('seen')
    else:
        fail('an unknown directive was accepted')


@harness(covers=['seen'])
def kept():
    """Capturing never replaces what a field mapped."""
    lo = int_('lo', 0, 5)
    cls = form_of(a=pilo.fields.Int().min(0), b=pilo.fields.Int(default=lo))

    def more(self, value):
        return value + 1
    cls.a.munge.attach(cls.a)(more)
    d = {'a': int_('a', 0, 9), 'c': int_('c', 0, 9)}
    form = cls()
    errors = form.map(d, unmapped='capture')
    cover('seen')
    check(not errors and same(dict(form), {'a': d['a'] + 1, 'b': lo, 'c': d['c']}), 'values')


@harness(cases=[('sub',), ('poly',), ('list',), ('flat',)], covers=['extra', 'kept'])
def in_forms(how):
    """The directive of a nested form, of any kind, holds for it alone."""
    directive = choice('directive', ('capture', 'ignore', 'field'))
    lo = int_('lo', 0, 9)
    unmapped = pilo.fields.Int(min_value=lo) if directive == 'field' else directive
    d = {'type': 'one', 'a': int_('a', 0, 9)}
    k = str_('k', 2, 'ac', least=1)
    v = int_('v', 0, 9)
    base = form_of(type=pilo.fields.Type.abstract())
    one = type('One', (base,), dict(type=pilo.fields.Type.instance('one'), a=pilo.fields.Field()))
    subtype(base, 'Two', type=pilo.fields.Type.instance('two'), c=pilo.fields.Field())
    known = {'type': 'one', 'a': d['a']}
    d[k] = v
    if k == 'a':
        known['a'] = v
    if how == 'poly':
        f, data = pilo.fields.PolymorphicSubForm(base.type, unmapped=unmapped), {'f': d}
    elif how == 'sub':
        f, data = pilo.fields.SubForm(one, unmapped=unmapped), {'f': d}
    elif how == 'flat':
        f, data = pilo.fields.SubForm(one, unmapped=unmapped, flat=True), d
    else:
        f, data = pilo.fields.List(pilo.fields.SubForm(one, unmapped=unmapped)), {'f': [d]}
    form, errors = outcome(form_of(f=f), data)
    want = dict(known)
    ok = True
    if k != 'a' and directive != 'ignore':
        cover('extra')
        ok = directive == 'capture' or v >= lo
        want[k] = v
    else:
        cover('kept')
    where = {'list': 'f[0].', 'flat': ''}.get(how, 'f.') + k
    if not ok:
        check(errors_of(errors) == [('Invalid', where)], 'errors')
        check(dict(form) == ({'f': []} if how == 'list' else {}), 'a form with errors')
    else:
        check(not errors, 'errors')
        got = form['f'][0] if how == 'list' else form['f']
        check(same(dict(got), want), 'values')


@harness(covers=['renamed', 'absent', 'error'])
def not_held():
    """A key named like a field that reads another key, or holds nothing, is captured like any other."""
    lo = int_('lo', 0, 9)
    cls = form_of(a=pilo.fields.Int('c', min_value=lo, default=pilo.NONE), b=pilo.fields.Int(default=1),
                  e=pilo.fields.Int('none', optional=True))
    a, c, e = [value(x, ('absent', 'int', 'none'), lo=0, hi=9) for x in 'ace']
    form = cls()
    d = data_of(a=a, c=c, e=e)
    errors = form.map(d, unmapped='capture')
    observe(dict(form))
    want = {'b': 1}
    if c is ABSENT:
        bad = []
    elif c is None:
        bad = [('Invalid', 'c')]
    else:
        bad = [('Invalid', 'c')] if c < lo else []
        if not bad:
            want['a'] = c
    if c is None:
        # an absence of a value is the default, and null is no integer unless it may be
        form2, errors2 = mapped(form_of(a=pilo.fields.Int('c', min_value=lo, default=pilo.NONE)), {'c': None})
        bad = errors_of(errors2)
        want.update(form2)
    check(errors_of(errors) == bad, 'errors')
    for k, v in d.items():
        if k not in want:
            want[k] = v
            if k == 'a':
                cover('error' if bad else 'absent')
            cover('renamed')
    check(same(dict(form), want), 'values')


@harness(cases=[(12,), (60,)], covers=['bad', 'captured'])
def many(n):
    """All of many keys are captured, in a form at the top or deep inside."""
    lo, x, y, at, deep = int_('lo', -1, 1), int_('x', -1, 1), int_('y', -1, 1), choice('at', (0, 9, n - 1)), choice('deep', (0, 1, 8))
    how = choice('how', ('capture', 'field', 'ignore'))
    directive = pilo.fields.Int(min_value=lo) if how == 'field' else how
    d = dict(('k%d' % i, x if i == at else y) for i in range(n))
    fields = dict(('k%d' % i, pilo.fields.Int(min_value=-5)) for i in range(1, n, 3))
    cls, data = form_of(**fields), d
    if deep:
        f = pilo.fields.SubForm(cls, unmapped=directive)
        for i in range(deep):
            cls, data = form_of(f=f), {'f': data, 'other': 1}
            f = pilo.fields.SubForm(cls)
    form = cls()
    errors = list(form.map(data, **({} if deep else {'unmapped': directive})))
    bad = [('Invalid', 'f.' * deep + k) for i, k in enumerate(d) if how == 'field' and k not in fields and d[k] < lo]
    check(errors_of(errors) == bad, 'errors')
    cover('bad' if bad else 'captured')
    for i in range(deep):
        if bad:
            break
        check(list(form) == ['f'], 'keys around')
        form = form['f']
    if not (bad and deep):
        check(same(dict(form), dict((k, v) for k, v in d.items() if k in fields or how != 'ignore' and (how == 'capture' or v >= lo))), 'values')


@harness(cases=[('translate',), ('munge',), ('nested',)], covers=['held', 'free', 'error'])
def renamed(how):
    """A key field that makes another key of one never changes what is held."""
    to = choice('to', ('a', 'b', 'c', 'z'))
    x = int_('x', 0, 9)
    d = data_of(a=value('a', ('absent', 'none', 'int', 'str'), cap=1, alphabet='1q'), x=x, b=value('b', ('absent', 'int')))
    key = pilo.fields.String(translate={'x': to}) if how == 'translate' else pilo.fields.String()
    if how != 'translate':
        key.munge.attach(key)(lambda self, value: to if value == 'x' else value)
    fields = dict(a=pilo.fields.Int(), c=pilo.fields.Int(default=7))
    if how == 'nested':
        cls = form_of(f=pilo.fields.SubForm(form_of(**fields), unmapped=(key, pilo.fields.Field())), z=pilo.fields.Int(default=1))
        form, errors = outcome(cls, {'f': d, 'y': 4})
        at, got = 'f.a', form.get('f')
    else:
        form = form_of(**fields)()
        errors = form.map(d, unmapped=(key, pilo.fields.Field()))
        observe(dict(form))
        at, got = 'a', form
    a = d.get('a', ABSENT)
    ok, y = (False, None) if a is ABSENT else (True, None) if a is None else coerce('int', a)
    if not ok:
        cover('error')
        check(errors_of(errors) == [('Missing' if a is ABSENT else 'Invalid', at)], 'errors')
        if how == 'nested':
            check(got is None, 'a value with errors')
            return
    else:
        check(not errors and same(got['a'], y), 'a mapped value was changed by what was captured')
    check(same(got['c'], 7), 'a default was changed by what was captured')
    if to == 'z':
        cover('free')
        check(same(got['z'], x), 'what was captured')
    elif to == 'c' or (to == 'a' and ok):
        cover('held')
    check(set(got) <= set(['a', 'b', 'c', 'z']) and ('b' in got) == ('b' in d or to == 'b'), 'keys')
