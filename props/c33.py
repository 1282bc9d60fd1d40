"""C33: an option means the same however it is given."""
import re

import pilo
from .common import *

F = pilo.fields

BOUNDS = {'options': 'limits, ranges, lengths, formats, nulls, defaults, ignored and translated values, tags, keys, sub-fields; up to '
          'three together, in any order',
          'ways': 'arguments, calls, options(); when the field is made, before or after it is part of a form; given twice, the later counts',
          'values': 'absent, null, integers -20..120, floats n/4, texts of 0..2 characters, dates of three years, lists of 0..3 items',
          'sizes': 'chains of 20 options; 15 values ignored and translated'}
OUTSIDE = ['options of one call that contradict each other', 'options changed during a mapping', 'a sequence as the one value to ignore']


def chained(field, calls):
    """field.a(..).b(..); each call gives the field itself."""
    for name, args, kwargs in calls:
        got = getattr(field, name)(*args, **kwargs)
        check(got is field, 'an option call gives the field')
    return field


def judge(cls, node, data):
    ref = Ref()
    want = ref.form(Node('form', fields=[('f', node)]), data)
    form, errors = outcome(cls, data)
    agree(form, errors, want, ref.errors)
    cover('error' if errors else 'clean')


def apply(make, calls, how):
    """The form type with a field of the calls, made in time or late."""
    if how == 'early':
        return form_of(f=chained(make(), calls))
    cls = form_of(f=make())
    if how == 'late':
        chained(cls.f, calls)
    else:
        chained(cls.f, calls[:1])
        form_type_ = cls
        cls = type('G', (cls,), {})
        chained(form_type_.f, calls[1:])
    return cls


ORDERS3 = ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))
ORDERS2 = ((0, 1), (1, 0))
WHEN = ('early', 'late', 'between')


def permuted(calls, label='order'):
    order = choice(label, {1: ((0,),), 2: ORDERS2, 3: ORDERS3}[len(calls)])
    return [calls[i] for i in order]


def call(name, *args, **kwargs):
    return name, args, kwargs


@harness(cases=[(k, w) for k in ('int', 'float', 'str', 'list') for w in ('keywords', 'pair', 'list', 'calls', 'both', 'over', 'again', 'half', 'open', 'opened')],
         covers=['error', 'clean'])
def limits(kind, way):
    """Lower and upper limits."""
    if kind in ('int', 'float'):
        lo, hi = int_('lo', -9, 9), int_('hi', -9, 9)
        x = int_('x', -20, 20) if kind == 'int' else float_('x', -20, 20, special=False, den=4)
        names, cls, pair = ('min_value', 'max_value'), {'int': F.Int, 'float': F.Float}[kind], 'range'
        node = Node(kind, min_value=lo, max_value=hi)
    elif kind == 'str':
        lo, hi = int_('lo', 0, 4), int_('hi', 0, 4)
        x = str_('x', 4, 'ab')
        names, cls, pair = ('min_length', 'max_length'), F.String, 'length'
        node = Node('str', min_length=lo, max_length=hi)
    else:
        lo, hi = int_('lo', 1, 4), int_('hi', 0, 4)
        x = list(range(pick('n', 5)))
        names, pair = ('min_length', 'max_length'), 'length'

        def cls(**kw):
            return F.List(F.Int(), **kw)
        node = Node('list', item=Node('int'), min_length=lo, max_length=hi)
    when = choice('when', WHEN)
    if way == 'keywords':
        t = form_of(f=cls(**{names[0]: lo, names[1]: hi}))
    elif way == 'pair':
        t = form_of(f=cls(**{pair: (lo, hi)}))
    elif way == 'list':
        t = form_of(f=cls(**{pair: [lo, hi]}))
    elif kind == 'str':
        t = form_of(f=cls(length=lo))
        node = Node('str', min_length=lo, max_length=lo)
    elif way == 'calls':
        t = apply(cls, permuted([call('min', lo), call('max', hi)]), when)
    elif way == 'both':
        t = apply(cls, [call('range', lo, hi)], when)
    elif way == 'over':
        t = apply(lambda: cls(**{names[0]: 50, names[1]: -50}), [call('min', 3), call('range', 7, 8), call('min', lo), call('max', hi)], when)
    elif way == 'again':
        first = choice('first', ({names[0]: 50}, {names[1]: -50}, {names[0]: 50, names[1]: -50}))
        t = apply(lambda: cls(**first), [call('range', lo, hi)], when)
    elif way == 'open':
        # None takes a limit away
        first = choice('first', ({names[0]: 50}, {names[1]: -50}, {names[0]: 50, names[1]: -50}))
        lo, hi = choice('ends', ((lo, None), (None, hi), (None, None)))
        t = apply(lambda: cls(**first), [call('range', lo, hi)], when)
    elif way == 'opened':
        first = choice('first', ('min', 'max'))
        t = apply(lambda: cls(**{names[0]: lo, names[1]: hi}), [call(first, None)], when)
        lo, hi = (None, hi) if first == 'min' else (lo, None)
    else:
        t = apply(lambda: cls(**{names[0]: lo}), [call('max', hi)], when)
    if way in ('open', 'opened') and kind != 'str':
        node = Node(kind, **dict(zip(names, (lo, hi)))) if kind != 'list' else Node('list', item=Node('int'), min_length=lo, max_length=hi)
    judge(t, node, {'f': x})


@harness(cases=[(k, w) for k in ('date', 'datetime', 'time') for w in ('keywords', 'calls', 'both', 'over', 'again', 'half', 'lower', 'upper', 'open')], covers=['inside', 'outside'])
def times(kind, way):
    """Limits of dates and times."""
    cls, make = {'date': (F.Date, date_), 'datetime': (F.Datetime, datetime_), 'time': (F.Time, time_)}[kind]
    lo, hi, x = make('lo'), make('hi'), make('x')
    when = choice('when', WHEN)
    if way == 'keywords':
        t = form_of(f=cls(after=lo, before=hi))
    elif way == 'calls':
        t = apply(cls, permuted([call('after', lo), call('before', hi)]), when)
    elif way == 'both':
        t = apply(cls, [call('between', lo, hi)], when)
    elif way == 'over':
        t = apply(lambda: cls(after=hi, before=lo), [call('between', hi, hi), call('before', hi), call('after', lo)], when)
    elif way == 'again':
        first = choice('first', ({'after': hi}, {'before': lo}, {'after': hi, 'before': lo}))
        t = apply(lambda: cls(**first), [call('between', lo, hi)], when)
    elif way == 'half':
        t = apply(lambda: cls(before=hi), [call('after', lo)], when)
    elif way == 'open':
        first = choice('first', ({'after': hi}, {'before': lo}, {'after': hi, 'before': lo}))
        lo, hi = choice('ends', ((lo, None), (None, hi)))
        t = apply(lambda: cls(**first), [call('between', lo, hi)], when)
    elif way == 'lower':
        t = form_of(f=cls(after=lo)) if flag('keyword') else apply(cls, [call('after', lo)], when)
        hi = None
    else:
        t = form_of(f=cls(before=hi)) if flag('keyword') else apply(cls, [call('before', hi)], when)
        lo = None
    form, errors = outcome(t, {'f': x})
    ok = and_(True if lo is None else x >= lo, True if hi is None else x <= hi)
    if errors:
        cover('outside')
        check(not_(ok) and errors_of(errors) == [('Invalid', 'f')], 'a time within the limits was rejected')
    else:
        cover('inside')
        check(and_(ok, form['f'] is x), 'a time outside the limits was accepted')


@harness(cases=[('date',), ('datetime',), ('time',)], covers=['error', 'clean'])
def formats(kind):
    """The format of dates and times."""
    cls = {'date': F.Date, 'datetime': F.Datetime, 'time': F.Time}[kind]
    fmt = {'date': '%Y/%m/%d', 'datetime': '%Y/%m/%d', 'time': '%H.%M'}[kind]
    way = choice('way', ('keyword', 'call', 'over', 'late', 'list') if kind == 'date' else ('keyword', 'call', 'over', 'late'))
    f = {'keyword': lambda: cls(format=fmt), 'call': lambda: cls().format(fmt), 'over': lambda: cls(format='%S').format('%j').format(fmt),
         'late': cls, 'list': lambda: cls().format(['%j', fmt])}[way]()
    t = form_of(f=f)
    if way == 'late':
        check(t.f.format(fmt) is t.f, 'an option call gives the field')
    texts = ['2000/01/31', '2000/02/31', '12.34', '25.00', '1', '']
    x = choice('text', texts)
    form, errors = outcome(t, {'f': x})
    good = {'2000/01/31'} if kind != 'time' else {'12.34'}
    if x in good or way == 'list' and x == '1':
        cover('clean')
        v = form['f']
        check(not errors and (v.tm_hour, v.tm_min) == (12, 34) if kind == 'time' else v.year in (2000, 1900), 'read by the format')
    else:
        cover('error')
        check(errors_of(errors) == [('Invalid', 'f')], 'a text not of the format')


# -- options of any field

KIND = ('int', 'str', 'any')
MAKE = {'int': F.Int, 'str': F.String, 'any': F.Field, 'float': F.Float, 'bool': F.Bool}


def given(label='x'):
    return value(label, ('absent', 'none', 'int', 'str'), cap=2, alphabet='1a', lo=-20, hi=120)


def options_of(kind):
    """(values of three options, the node that has them)"""
    d = value('d', ('none', 'int'), lo=-20, hi=120)
    i = int_('i', -20, 120) if kind != 'str' else str_('i', 1, '1a')
    t0, t1 = (int_('t0', 0, 9), int_('t1', -20, 120)) if kind != 'str' else ('1', str_('t1', 2, '1a'))
    return d, i, t0, t1


@harness(cases=[(k, w) for k in KIND for w in ('arguments', 'options', 'calls', 'mixed')], covers=['error', 'clean'])
def together(kind, way):
    """A default, values to ignore and values to translate, given in any way and order."""
    d, i, t0, t1 = options_of(kind)
    when = choice('when', WHEN) if way != 'arguments' else None
    kw = dict(default=d, ignore=i, translate={t0: t1} if kind == 'str' else {5: t1})
    node = Node(kind, default=d, ignore=[i], translate=kw['translate'])
    if way == 'arguments':
        t = form_of(f=MAKE[kind](**kw))
    elif way == 'options':
        t = apply(MAKE[kind], permuted([call('options', **{k: kw[k]}) for k in ('default', 'ignore', 'translate')]), when)
    elif way == 'calls':
        t = apply(MAKE[kind], permuted([call('options', default=d), call('ignore', i), call('translate', kw['translate'])]), when)
    else:
        t = apply(lambda: MAKE[kind](default=d), permuted([call('options', ignore=i), call('translate', kw['translate'])]), when)
    judge(t, node, data_of(f=given()))


@harness(cases=[(w,) for w in ('default', 'optional', 'nullable', 'null', 'hook')], covers=['error', 'clean'])
def later(what):
    """An option given again counts instead of, or besides, the one before."""
    when = choice('when', WHEN)
    a, b = int_('a', -20, 120), int_('b', -20, 120)
    if what == 'default':
        first = choice('first', ({'default': a}, {'optional': True}, {}))
        calls, node = [call('options', default=b)], Node('int', default=b)
    elif what == 'optional':
        first = choice('first', ({'default': a}, {'optional': False}, {}))
        calls, node = [call('options', optional=True)], Node('int', default=ABSENT)
        if flag('not'):
            calls = [call('options', optional=False)]
            node = Node('int', default=first.get('default', UNSET))
    elif what == 'nullable':
        first = choice('first', ({'nullable': True}, {'nullable': False}, {}))
        n = flag('nullable')
        calls, node = [call('options', nullable=n)], Node('int', nullable=n)
    elif what == 'null':
        first = choice('first', ({'nullable': False}, {'default': a}, {}))
        calls, node = [call('options', default=None)], Node('int', default=None, nullable=True)
    else:
        first = {'default': a}
        calls, node = [call('options', nullable=False)], Node('int', default=a, nullable=False)
    t = apply(lambda: F.Int(**first), calls, when)
    judge(t, node, data_of(f=given()))


@harness(cases=[('ignore',), ('translate',)], covers=['error', 'clean'])
def more(what):
    """Values to ignore or translate are added to those there are."""
    when = choice('when', WHEN)
    a, b, c = int_('a', -20, 120), int_('b', -20, 120), int_('c', -20, 120)
    if what == 'ignore':
        way = choice('way', ('one', 'each', 'argument', 'none'))
        calls = {'one': [call('ignore', a, b, c)], 'each': permuted([call('ignore', a), call('ignore', b), call('ignore', c)]),
                 'argument': [call('ignore', b), call('options', ignore=c)], 'none': [call('ignore'), call('ignore', a, b), call('options', ignore=c), call('ignore')]}[way]
        t = apply(lambda: F.Int(ignore=a, optional=True) if way == 'argument' else F.Int(optional=True), calls, when)
        node = Node('int', default=ABSENT, ignore=[a, b, c])
    else:
        way = choice('way', ('one', 'each', 'argument', 'again'))
        calls = {'one': [call('translate', {1: a, 2: b, 3: c})], 'each': permuted([call('translate', {1: a}), call('translate', {2: b}), call('options', translate={3: c})]),
                 'argument': [call('translate', {2: b}), call('translate', {3: c})], 'again': [call('translate', {1: b, 2: c}), call('translate', {1: a, 2: b, 3: c})]}[way]
        t = apply(lambda: F.Int(translate={1: a}) if way == 'argument' else F.Int(), calls, when)
        node = Node('int', translate={1: a, 2: b, 3: c})
    judge(t, node, data_of(f=given()))


@harness(covers=['copied'])
def copies():
    """What was given may be changed afterwards."""
    a = int_('a', -20, 120)
    table, tags = {1: a}, {'x': 1}
    f = F.Int(translate=table, tags=tags)
    g = F.Int().translate(table)
    table[2], tags['y'] = 7, 2
    x = int_('x', 0, 9)
    for field in (f, g):
        form, errors = outcome(form_of(f=field), {'f': x})
        check(not errors and same(form['f'], a if x == 1 else x), 'translated')
    check(dict(f.tags) == {'x': 1} and f.has_tag('x') and not f.has_tag('y') and not g.tags, 'tags')
    check(table == {1: a, 2: 7} and tags == {'x': 1, 'y': 2}, 'what was given changed')
    check(F.Int().ignores == [] and F.Int().translations == {} and F.Int().tags == {}, 'other fields have the options')
    cover('copied')


@harness(cases=[(w,) for w in ('list', 'set', 'tuple', 'map', 'text', 'call', 'named', 'each', 'options', 'late')], covers=['mapped', 'left'])
def tags(way):
    """Tags given in any way."""
    two = flag('two') and way != 'text'
    names = ['x', 'y'] if two else ['x']
    # what a tag is given with does not matter
    falsy = choice('with', (1, None, 0, '')) if way in ('map', 'named') else 1
    fields = {'list': lambda: F.Int(tags=names), 'set': lambda: F.Int(tags=set(names)), 'tuple': lambda: F.Int(tags=tuple(names)),
              'map': lambda: F.Int(tags=dict((k, falsy) for k in names)), 'text': lambda: F.Int(tags='x'), 'call': lambda: F.Int().tag(*names),
              'named': lambda: F.Int().tag(**dict((k, falsy) for k in names)), 'each': lambda: chained(F.Int(), [call('tag', k) for k in names]),
              'options': lambda: chained(F.Int(tags=names[1:]), [call('options', tags=names[:1])]), 'late': lambda: F.Int()}
    t = form_of(f=fields[way](), g=F.Int())
    if way == 'late':
        check(t.f.tag(*names) is t.f, 'an option call gives the field')
    check(sorted(t.f.tags) == names and not t.g.tags, 'the tags')
    x = int_('x', -9, 9)
    tag = choice('tag', ('x', 'y', 'z'))
    form, errors = outcome(t, {'f': x, 'g': 1}, tags=[tag])
    want = {'f': x} if tag in names else {}
    check(not errors and same(dict(form), want), 'fields with the tag')
    cover('mapped' if want else 'left')


# -- keys and sub-fields

def subs():
    return form_of(p=F.Int())


SUB = Node('form', fields=[('p', Node('int'))])
LIST = Node('list', item=Node('int'))


@harness(cases=[(k,) for k in ('scalar', 'list', 'listform', 'tuple', 'dict', 'form', 'poly')], covers=['error', 'clean'])
def keys(kind):
    """The key of a field as first argument or by name; sub-fields in any position."""
    x = value('x', ('absent', 'none', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)
    i = F.Int
    if kind == 'scalar':
        f, node = choice('way', (lambda: i('k'), lambda: i(src='k'), lambda: i('k', default=1, optional=False))), Node('int', src='k')
        f = f()
        if f.default == 1:
            node.default = 1
        d = x
    elif kind == 'list':
        f = choice('way', (lambda: F.List('k', i()), lambda: F.List(i(), 'k'), lambda: F.List(i(), src='k'), lambda: F.List('k', field=i()),
                           lambda: F.List(field=i(), src='k')))()
        node = Node('list', src='k', item=Node('int'))
        d = [x, 1] if x is not ABSENT else ABSENT
    elif kind == 'listform':
        s = subs()
        f = choice('way', (lambda: F.List('k', s), lambda: F.List(s, 'k'), lambda: F.List(s, src='k'), lambda: F.List('k', F.SubForm(s)),
                           lambda: F.List('k', field=F.SubForm(s))))()
        node = Node('list', src='k', item=SUB)
        d = [data_of(p=x), {'p': 1}] if flag('there') else ABSENT
    elif kind == 'tuple':
        f = choice('way', (lambda: F.Tuple('k', i(), i()), lambda: F.Tuple('k', (i(), i())), lambda: F.Tuple('k', [i(), i()]), lambda: F.Tuple(i(), i(), src='k'),
                           lambda: F.Tuple((i(), i()), src='k')))()
        node = Node('tuple', src='k', items=[Node('int'), Node('int')])
        d = [x, 1] if x is not ABSENT else ABSENT
    elif kind == 'dict':
        f = choice('way', (lambda: F.Dict(F.String(), i(), 'k'), lambda: F.Dict(F.String(), i(), src='k'), lambda: F.Dict(key_field=F.String(), value_field=i(), src='k')))()
        node = Node('dict', src='k', key=Node('str'), item=Node('int'))
        d = {'a': x, 'b': 1} if x is not ABSENT else ABSENT
    elif kind == 'form':
        s = subs()
        f = choice('way', (lambda: F.SubForm('k', s), lambda: F.SubForm(s, 'k'), lambda: F.SubForm(s, src='k'), lambda: F.SubForm(s.from_fields(), 'k')))()
        node = Node('form', src='k', fields=SUB.fields)
        d = data_of(p=x) if flag('there') else ABSENT
    else:
        class Base(pilo.Form):
            t = F.Type.abstract()

        class A(Base):
            t = F.Type.constant('a')
            p = F.Int()
        f = choice('way', (lambda: F.PolymorphicSubForm(Base.t, 'k'), lambda: F.PolymorphicSubForm(Base.t, src='k'), lambda: F.PolymorphicSubForm(type_field=Base.t, src='k')))()
        node = Node('form', src='k', fields=[('t', Node('any')), ('p', Node('int'))])
        d = data_of(p=x, t='a') if flag('there') else ABSENT
    t = form_of(f=f)
    check(t.f.src == 'k' and t.f.name == 'f', 'the key')
    judge(t, node, data_of(k=d, f=99))


@harness(cases=[('form',), ('fields',), ('poly',)], covers=['captured', 'ignored', 'flat'])
def forms(kind):
    """Options of nested forms."""
    capture = flag('capture')
    way = choice('way', ('argument', 'options'))
    kw = {'unmapped': 'capture'} if capture else choice('none', ({}, {'unmapped': 'ignore'}))
    s = subs()
    x, y = value('x', ('int', 'str', 'absent'), cap=1, alphabet='1a'), int_('y', -9, 9)
    if kind == 'poly':
        class Base(pilo.Form):
            t = F.Type.abstract()

        class A(Base):
            t = F.Type.constant('a')
            p = F.Int()
        t = form_of(f=F.PolymorphicSubForm(Base.t, **kw))
        d = data_of(t='a', p=x, y=y)
        node = Node('form', unmapped=kw.get('unmapped', 'ignore'), fields=[('t', Node('any')), ('p', Node('int'))])
        cover('flat')
    else:
        make = (lambda **k: F.SubForm(s, **k)) if kind == 'form' else (lambda **k: chained(F.SubForm.from_fields(p=F.Int()), [call('options', **k)]))
        flat = flag('flat')
        if flat:
            cover('flat')
            kw = dict(kw, flat=True)
        elif flag('nested'):
            # the same as not saying so
            kw = dict(kw, flat=False)
        t = form_of(f=make(**kw)) if way == 'argument' else apply(make, [call('options', **{k: v}) for k, v in kw.items()] or [call('options')], choice('when', WHEN))
        d = data_of(p=x, y=y)
        node = Node('form', unmapped=kw.get('unmapped', 'ignore'), fields=[('p', Node('int'))], src=None if flat else UNSET)
        if flat:
            # by the fields alone, where errors are located at the keys
            cover('captured' if capture else 'ignored')
            judge(t, node, d)
            return
    cover('captured' if capture else 'ignored')
    judge(t, node, {'f': d})


@harness(cases=[('plain',), ('list',), ('tuples',), ('nested',), ('mixed',)], covers=['some', 'none'])
def groups(way):
    """The fields of a group, given one by one or in lists, with their keys or as pairs."""
    i = F.Int
    g = {'plain': lambda: F.Group(i('a'), i('b'), i('c')), 'list': lambda: F.Group([i('a'), i('b'), i('c')]), 'tuples': lambda: F.Group(('a', i()), ('b', i()), ('c', i())),
         'nested': lambda: F.Group([i('a'), [('b', i()), [i('c')]]]), 'mixed': lambda: F.Group((re.compile('a'), i()), i('b'), [('c', i())])}[way]()
    names = [n for n in 'cab' if flag('has' + n)]
    d = dict((n, value(n, ('int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)) for n in names)
    d['q'] = 1
    ref = Ref()
    want = []
    for n in d:
        if n != 'q':
            v = ref.at(Node('int'), d[n], (n,))
            if not is_nothing(v):
                want.append((n, v))
    form, errors = outcome(form_of(f=g), d)
    check(errors_of(errors) == ref.errors, 'errors')
    check(same([(k, v) for k, _, v in form['f']], want), 'the group')
    cover('some' if want else 'none')


@harness(cases=[('pattern',), ('alphabet',), ('choices',), ('int',), ('float',)], covers=['error', 'clean'])
def texts(what):
    """Patterns, alphabets and choices as texts, compiled or as any sequence."""
    x = str_('x', 3, 'ab1')
    if what == 'pattern':
        p = choice('p', ('a+b?$', 'b|1'))
        t = form_of(f=F.String(pattern=p if flag('text') else re.compile(p)))
        ok = re.match(p, x) is not None
    elif what == 'alphabet':
        t = form_of(f=F.String(alphabet=choice('as', ('ab', ['a', 'b'], ('b', 'a'), {'a', 'b'}))))
        ok = and_(*[or_(c == 'a', c == 'b') for c in x])
    elif what == 'choices':
        t = form_of(f=F.String(choices=choice('as', (['a', 'b1'], ('b1', 'a')))))
        ok = or_(x == 'a', x == 'b1')
    else:
        cls = F.Int if what == 'int' else F.Float
        p = '1+$'
        f = cls()
        t = form_of(f=f)
        got = (t.f if flag('late') else f).pattern(p if flag('text') else re.compile(p))
        ok = re.match(p, x) is not None
        form, errors = outcome(t, {'f': x})
        cover('error' if errors else 'clean')
        if errors:
            check(not_(ok) and errors_of(errors) == [('Invalid', 'f')], 'a text of the pattern was rejected')
        else:
            check(and_(ok, same(form['f'], int(x) if what == 'int' else float(x))), 'the number of the text')
        return
    form, errors = outcome(t, {'f': x})
    cover('error' if errors else 'clean')
    if errors:
        check(and_(not_(ok), errors_of(errors) == [('Invalid', 'f')]), 'a good text was rejected')
    else:
        check(and_(ok, form['f'] is x), 'a bad text was accepted')


@harness(cases=[('ignore',), ('translate',), ('limits',), ('clone',)], covers=['error', 'clean'])
def many(what):
    """Long chains of options."""
    x = int_('x', -20, 120)
    a = int_('a', -20, 120)
    n = 15
    if what == 'ignore':
        at = choice('at', (0, 7, 14))
        vs = [a if j == at else 200 + j for j in range(n)]
        f = chained(F.Int(optional=True), [call('ignore', v) for v in vs])
        node = Node('int', default=ABSENT, ignore=vs)
        if flag('clone'):
            g = f.clone()
            g.ignore(x)
            check(list(f.ignores) == vs, 'a clone shares options')
            f = g.clone()
            node.ignore = tuple(vs + [x])
    elif what == 'translate':
        at = choice('at', (0, 7, 14))
        table = dict((j, a if j == at else j + 1000) for j in range(n))
        f = chained(F.Int(), [call('translate', {k: v}) for k, v in table.items()])
        node = Node('int', translate=table)
    elif what == 'limits':
        f = chained(F.Int(), [call('min', j) for j in range(9)] + [call('max', j) for j in range(9)] + [call('min', a), call('options', nullable=False)])
        node = Node('int', min_value=a, max_value=8, nullable=False)
    else:
        f = F.Int(min_value=a, ignore=3, translate={4: 5}, default=6, nullable=False, tags=['x'])
        f = f.clone().clone()
        node = Node('int', min_value=a, ignore=[3], translate={4: 5}, default=6, nullable=False)
        check(f.has_tag('x'), 'the tags of a clone')
        x = value('y', ('absent', 'none', 'int', 'str'), cap=1, alphabet='1a')
    if what == 'clone' or flag('data'):
        judge(form_of(f=f), node, data_of(f=x))
    else:
        judge(form_of(f=f), node, {'f': None})
