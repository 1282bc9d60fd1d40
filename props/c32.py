"""C32: the same data mean the same from any source."""
import datetime
import uuid

import pilo
from .common import *

BOUNDS = {'forms': 'a field that is a list, tuple, dict or form of one of these (three levels in thorough) of integers, floats, texts, booleans or '
          'anything; dates, times, decimals, UUIDs, types, polymorphic forms, code, groups; with fields, items or members that are good besides it, defaults and nulls',
          'data': 'well formed but for one place of any level, which is absent, null or of any other kind',
          'sources': 'native, JSON, strict JSON, mounts, unions with nothing else and unions of parts; JSON, mounts and unions in one another',
          'values': 'integers -9..120, floats and texts of 0..2 characters', 'sizes': '2 items; 20 items or members of a container, the odd one at '
          'the beginning, in the middle or at the end; 8 containers deep'}
OUTSIDE = ['configuration text (C26), which has no containers of its own kind', 'mergers of sources that both have a value (C24)', 'texts given where a sequence is wanted']

CONTAINERS = ('list', 'tuple', 'dict', 'form')
LEAVES = ('int', 'str', 'bool', 'float', 'any')
ODD = ('absent', 'none', 'bool', 'int', 'float', 'str', 'list', 'dict')


def node_of(kinds_, default=UNSET, nullable=UNSET):
    kind = kinds_[0]
    kw = dict(default=default, nullable=nullable)
    if kind not in CONTAINERS:
        return Node(kind, **kw)
    inner = node_of(kinds_[1:])
    if kind == 'list':
        return Node('list', item=inner, **kw)
    if kind == 'tuple':
        return Node('tuple', items=[inner, Node('any')], **kw)
    if kind == 'dict':
        return Node('dict', key=Node('any'), item=inner, **kw)
    return Node('form', fields=[('p', inner), ('q', Node('int', default=3)), ('r', node_of(kinds_[1:], default=ABSENT))], **kw)


PLAIN = {'int': 1, 'str': 's', 'bool': True, 'float': 1.5, 'any': 'any'}


def good(kinds_):
    """Concrete data of the kinds."""
    kind = kinds_[0]
    if kind not in CONTAINERS:
        return PLAIN[kind]
    inner = good(kinds_[1:])
    return {'list': [inner], 'tuple': [inner, 0], 'dict': {'g': inner}, 'form': {'p': inner}}[kind]


def data(kinds_, level, odd):
    """Good data, but for the value odd at the level."""
    if level == 0:
        return odd
    kind = kinds_[0]
    bad, fine = data(kinds_[1:], level - 1, odd), good(kinds_[1:])
    first = bad is ABSENT or flag('first%d' % level)
    if kind in ('list', 'tuple'):
        if kind == 'tuple':
            fine = 7
            first = True
        both = [x for x in ((bad, fine) if first else (fine, bad)) if x is not ABSENT]
        return both
    if kind == 'dict':
        return dict((k, v) for k, v in (('g', bad if first else fine), ('h', fine if first else bad)) if v is not ABSENT)
    out = dict((k, v) for k, v in (('p', bad if first else fine), ('r', fine if first else bad)) if v is not ABSENT)
    if not first:
        out['unknown'] = fine
    return out


def odd_value(kind, kinds_=ODD):
    if kind in ('list', 'tuple'):
        kinds_ = tuple(k for k in kinds_ if k != 'str')
    k = choice('odd.kind', kinds_)
    if k in ('list', 'dict'):
        empty = flag('odd.empty')
        return [] if empty and k == 'list' else [1] if k == 'list' else {} if empty else {'k': 1}
    return value('odd', (k,), cap=2 if kind in ('int', 'bool') else 1, alphabet='1t.', lo=-9, hi=120)


def strict(k, v):
    return coerce_json(k, v, True)


def source(how, d):
    """(source of the data, prefix of locations, coercion)"""
    J = pilo.source.JsonSource
    if how == 'native':
        return pilo.DefaultSource(d), '', coerce
    if how == 'dict':
        return d, '', coerce
    if how == 'json':
        return J(json_text(d)), '', coerce_json
    if how == 'strict':
        return J(json_text(d), strict=True), '', strict
    if how == 'union':
        return pilo.UnionSource([d], merge='last'), '', coerce
    if how == 'union-before':
        return pilo.UnionSource([d, {}]), '', coerce
    if how == 'union-after':
        return pilo.UnionSource([{}, pilo.DefaultSource(d)], merge='combine'), '', coerce
    if how == 'union-json':
        return pilo.UnionSource([J('{}'), J(json_text(d), strict=True)], mapping_merge='combine'), '', strict
    if how == 'union-parts':
        parts = [dict((k, v) for k, v in d.items() if k == 'f'), dict((k, v) for k, v in d.items() if k != 'f')]
        return pilo.UnionSource(parts), '', coerce
    if how == 'union-union':
        return pilo.UnionSource([pilo.UnionSource([d]), {}]), '', coerce
    if how == 'mount':
        return pilo.source.MountSource(m=d, n={'f': 0}), '@m', coerce
    if how == 'mount-json':
        return pilo.source.MountSource(m=J(json_text(d))), '@m', coerce_json
    if how == 'mount-union':
        return pilo.source.MountSource(m=pilo.UnionSource([d, {}])), '@m', coerce
    if how == 'mount-mount':
        return pilo.source.MountSource(m=pilo.source.MountSource(m=d)), '@m:@m', coerce
    raise AssertionError(how)


SOURCES = ('native', 'dict', 'json', 'strict', 'union', 'union-before', 'union-after', 'union-json', 'union-parts', 'union-union', 'mount', 'mount-json',
           'mount-union', 'mount-mount')


def judge(how, n, d):
    src, prefix, rule = source(how, d)
    cls = form_type(n)
    ref = Ref(coerce=rule)
    want = ref.form(n, d)
    ordered = 'union' not in how
    if not prefix:
        form, errors = outcome(cls, src)
        agree(form, errors, want, ref.errors, ordered)
    else:
        top = form_of(m=pilo.fields.SubForm(cls))
        if prefix == '@m:@m':
            top = form_of(m=pilo.fields.SubForm(top))
        form, errors = outcome(top, src)
        want_errors = [(k, '%s:%s' % (prefix, p)) for k, p in ref.errors]
        got = errors_of(errors)
        if not ordered:
            got, want_errors = sorted(got), sorted(want_errors)
        check(got == want_errors, 'errors below a mount')
        if ref.errors:
            check(dict(form) == {}, 'a form with errors is no value')
        else:
            form = form['m']['m'] if prefix == '@m:@m' else form['m']
            check(same(dict(form), want), 'values below a mount')
    cover('error' if ref.errors else 'clean')


def top(inner):
    return Node('form', fields=[('f', inner), ('z', Node('int', default=5)), ('w', Node('str', default=ABSENT))])


def one(how, kinds_, level):
    """The data odd at the level."""
    n = top(node_of(kinds_, default=choice('default', (UNSET, None)) if level == 0 else UNSET))
    odd = odd_value(kinds_[level] if level < len(kinds_) else None)
    judge(how, n, data_of(f=data(kinds_, level, odd), z=int_('z', 0, 9)))


@harness(cases=[(how, kind) for how in SOURCES for kind in CONTAINERS], covers=['error', 'clean'])
def leaves(how, kind):
    """Containers of containers, with any value in the place of one leaf."""
    second = choice('second', CONTAINERS)
    leaf = LEAVES[(CONTAINERS.index(kind) + CONTAINERS.index(second) + SOURCES.index(how)) % 5]
    one(how, (kind, second, leaf), 2)


@harness(cases=[(how, kind) for how in SOURCES for kind in CONTAINERS], covers=['error', 'clean'])
def containers(how, kind):
    """Any value in the place of a container."""
    second = choice('second', CONTAINERS)
    one(how, (kind, second, 'int'), pick('level', 2))


@harness(cases=[(how,) for how in SOURCES], covers=['error', 'clean'])
def flat(how):
    """One field of any kind, and one container of leaves."""
    leaf = choice('leaf', LEAVES)
    if flag('container'):
        one(how, (choice('kind', CONTAINERS), leaf), 1)
    else:
        one(how, (leaf,), 0)


@harness(cases=[('native', 'list')], thorough=[(how, kind) for how in SOURCES for kind in CONTAINERS], covers=['error', 'clean'])
def three(how, kind):
    """Three levels of containers."""
    second, third = choice('second', CONTAINERS), choice('third', CONTAINERS)
    one(how, (kind, second, third, 'int'), 1 + pick('level', 3))


@harness(cases=[(how,) for how in SOURCES], covers=['error', 'clean'])
def null(how):
    """Nulls are nulls of any kind, unless a field is declared to have none."""
    kind = choice('kind', CONTAINERS + LEAVES)
    nullable = choice('nullable', (UNSET, True, False))
    n = top(node_of((kind, 'int') if kind in CONTAINERS else (kind,), default=choice('default', (UNSET, ABSENT) if nullable is False else (UNSET, ABSENT, None)), nullable=nullable))
    x = value('x', ('none', 'absent'))
    judge(how, n, data_of(f=x, z=int_('z', -9, 9), w=value('w', ('none', 'absent', 'str'), cap=1)))


@harness(cases=[(how,) for how in SOURCES], covers=['error', 'clean'])
def long(how):
    """Long containers with one odd item."""
    kind = choice('kind', ('list', 'tuple', 'dict', 'form'))
    at = choice('at', (0, 10, 19))
    x = value('odd', ('none', 'int', 'str', 'dict') + (('absent',) if kind in ('dict', 'form') else ()), cap=2, alphabet='1t.', lo=-9, hi=120)
    items = [x if i == at else i for i in range(20)]
    if kind in ('list', 'tuple'):
        d = items
        inner = Node('list', item=Node('int', max_value=99)) if kind == 'list' else Node('tuple', items=[Node('int', max_value=99)] * 20)
    else:
        d = dict(('k%02d' % i, v) for i, v in enumerate(items) if v is not ABSENT)
        inner = Node('dict', key=Node('str'), item=Node('int', max_value=99)) if kind == 'dict' else Node('form', fields=[('k%02d' % i, Node('int', max_value=99)) for i in range(20)])
    judge(how, top(inner), {'f': d})


@harness(cases=[(how,) for how in SOURCES], covers=['error', 'clean'])
def deep(how):
    """Eight containers deep, one value odd."""
    start = pick('start', 4)
    kinds_ = tuple(CONTAINERS[(start + i) % 4] for i in range(8)) + ('int',)
    n = top(node_of(kinds_))
    level = choice('level', (4, 8))
    odd = odd_value(kinds_[level], ('absent', 'none', 'int', 'str', 'list'))

    def go(kinds_, level):
        if level == 0:
            return odd
        bad = go(kinds_[1:], level - 1)
        return {'list': [x for x in (bad,) if x is not ABSENT], 'tuple': [x for x in (bad, 0) if x is not ABSENT], 'dict': data_of(g=bad), 'form': data_of(p=bad)}[kinds_[0]]
    judge(how, n, {'f': go(kinds_, level)})


# -- fields of other types, against mapping the same data natively

UUID_TEXT = '12345678123456781234567812345678'


class Shape(pilo.Form):
    t = pilo.fields.Type.abstract()


class Round(Shape):
    t = pilo.fields.Type.constant('round')
    r = pilo.fields.Int()


class Square(Shape):
    t = pilo.fields.Type.constant('square')
    w = pilo.fields.Int(default=1)


SPECIAL = {
    'date': lambda: pilo.fields.Date(format=['%Y', '%Y-%m-%d'], after=datetime.date(1999, 6, 1)),
    'datetime': lambda: pilo.fields.Datetime(format='%Y-%m-%d', before=datetime.datetime(2001, 6, 1)),
    'time': lambda: pilo.fields.Time(format='%H:%M'),
    'decimal': lambda: pilo.fields.Decimal(min_value=-3),
    'uuid': pilo.fields.UUID,
    'type': lambda: pilo.fields.Type.instance('round', 'square'),
    'poly': lambda: pilo.fields.PolymorphicSubForm(Shape.t),
    'code': pilo.fields.Code,
    'group': lambda: pilo.fields.Group(pilo.fields.Int('x'), pilo.fields.Decimal('y')),
}


def special_value(kind, how):
    """A value of the data of such a field, native only for native sources."""
    texts_ = {'date': ('2000-02-28', '1999', '1998', 'x'), 'datetime': ('2000-02-28', '2002-01-01', 'x'), 'time': ('10:30', '24:00', ''), 'decimal': ('1.5', '-4', 'x', ''),
              'uuid': (UUID_TEXT, UUID_TEXT[:-1], ''), 'type': ('round', 'line', ''), 'code': ('no such', 'no_such_module_:x'), 'poly': ('round',), 'group': ('x',)}[kind]
    json_ = 'json' in how or how == 'strict'
    k = choice('v', ('absent', 'none', 'text', 'number', 'map') if json_ else ('absent', 'none', 'text', 'number', 'float', 'bool', 'list', 'map', 'native', 'foreign'))
    if k == 'absent':
        return ABSENT
    if k == 'none':
        return None
    if k == 'text':
        return choice('text', texts_)
    if k == 'number':
        return int_('i', -9, 9) if kind in ('decimal', 'code') else 7 if not json_ else None
    if k == 'float':
        return float_('i', -9, 9, special=False, den=4)
    if k == 'bool':
        return bool_('i')
    if k == 'list':
        return [1]
    if k == 'map':
        if kind == 'poly':
            return choice('map', (lambda: {'t': 'round', 'r': int_('i', -9, 9)}, lambda: {'t': 'round'}, lambda: {'t': 'square', 'w': value('w', ('int', 'none'), lo=0, hi=9)}, lambda: {'t': 'square', 'w': {'k': 1}},
                                  lambda: {'t': None}, lambda: {'t': 'line'}, lambda: {}))()
        return {'k': 1} if not json_ else None
    date = date_('d') if kind == 'date' or k == 'foreign' else None
    if k == 'foreign':
        return date
    return {'date': lambda: datetime_('n') if flag('datetime') else date, 'datetime': lambda: datetime_('n'), 'time': lambda: time_('n'), 'decimal': lambda: decimal_('n', -9, 9),
            'uuid': lambda: uuid.UUID(UUID_TEXT)}.get(kind, lambda: 5)()


@harness(cases=[(how, kind) for how in SOURCES if how not in ('native', 'strict', 'union-parts') for kind in sorted(SPECIAL)], covers=['error', 'clean'])
def special(how, kind):
    """Fields of other types, alone or in a container."""
    x = special_value(kind, how)
    outer = choice('in', ('plain', 'list', 'form')) if kind != 'group' else 'plain'
    f = SPECIAL[kind]()
    if outer == 'list':
        f, d = pilo.fields.List(f), data_of(f=[] if x is ABSENT else [x])
    elif outer == 'form':
        f, d = pilo.fields.SubForm(form_of(g=f)), {'f': data_of(g=x)}
    else:
        d = data_of(f=x) if kind != 'group' else data_of(x=int_('x', -9, 9), y=x, z=1)
    cls = form_of(f=f, q=pilo.fields.Int(default=0))
    form, errors = mapped(cls, d)
    want, want_errors = dict(form), errors_of(errors)
    src, prefix, _ = source(how, d)
    t = cls
    for _ in prefix.split(':') if prefix else ():
        t = form_of(m=pilo.fields.SubForm(t))
    form2, errors2 = outcome(t, src)
    got = errors_of(errors2)
    if prefix:
        want_errors = [(k, '%s:%s' % (prefix, p)) for k, p in want_errors]
        for _ in prefix.split(':'):
            form2 = form2.get('m', {})
    check(sorted(got) == sorted(want_errors), 'errors are not those of native data')
    if kind == 'group' and 'f' in form2:
        form2['f'].sort(key=lambda v: v[0])
        want['f'].sort(key=lambda v: v[0])
    check(same(dict(form2), want if not prefix or not want_errors else {}), 'values are not those of native data')
    cover('error' if got else 'clean')
