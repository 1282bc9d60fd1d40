"""C08: an error says where in the data it occurred."""
import json

import pilo
from .common import *

BOUNDS = {'data': 'nested mappings and lists of depth up to four, lists of 0..2 items, keys of 1..2 characters of '
                  '"ab1", leaves any integer in a small range, text or absent',
          'renaming': 'fields under their own name, another key, or (flat) none',
          'sizes': 'nesting 12 and 25 deep of forms, lists and dicts, one value any'}
OUTSIDE = ['deeper nesting with more than one value that is any', 'keys other than short texts and small integers']


def leaf(label):
    return value(label, ('absent', 'int', 'str'), cap=1, alphabet='a1', lo=0, hi=9)


@harness(cases=[(a, b) for a in (0, 1) for b in (0, 1)], covers=['error', 'clean'])
def tree(renamed, location):
    """Items of lists and members of forms, possibly renamed."""
    inner = Node('form', fields=[('x', Node('int', src='ex' if renamed else UNSET, max_value=5))])
    n = form_node(('f', Node('list', src='eff' if renamed else UNSET, item=inner)),
                  ('g', Node('form', fields=[('h', inner), ('i', Node('int', default=None))])))
    item = lambda i: data_of(**{'ex' if renamed else 'x': value('x%d' % i, ('absent', 'int'), lo=0, hi=9)})
    data = {'eff' if renamed else 'f': [item(i) for i in range(pick('n', 3))],
            'g': data_of(h=item(9), i=leaf('i'))}
    form, errors, want = compare(n, data)
    cover('error' if errors else 'clean')
    if location:
        form = form_type(n)()
        errors2 = form.map(pilo.DefaultSource(data, location='here'))
        check(len(errors2) == len(errors), 'a location changes the errors')
        for e, f in zip(errors2, errors):
            p = 'here:' + text(f.path)
            check(text(e.path) == p, 'location of the source')
            check(text(e).startswith(p + ' - '), 'location of the source in the message')


@harness(cases=[('dict',), ('list',), ('form',)], covers=['error', 'clean'])
def keys(inside):
    """Members of mappings: the key is part of the location."""
    k = str_('k', 2, 'ab1')
    item = {'dict': lambda: Node('dict', key=Node('str'), item=Node('int')),
            'list': lambda: Node('list', item=Node('int')),
            'form': lambda: Node('form', fields=[('q', Node('int'))])}[inside]()
    n = form_node(('f', Node('dict', key=Node('str', max_length=1), item=item)))
    x = value('x', ('int', 'none', 'bool', 'dict'), lo=0, hi=9)
    v = {'dict': lambda: {'q': x}, 'list': lambda: [1, x], 'form': lambda: {'q': x}}[inside]()
    form, errors, want = compare(n, {'f': {k: v}})
    cover('error' if errors else 'clean')


@harness(covers=['error'])
def integer_keys():
    """Integer keys are shown like indices."""
    k = int_('k', 0, 12)
    n = form_node(('f', Node('dict', key=Node('any'), item=Node('int'))))
    form, errors, want = compare(n, {'f': {k: 'z'}})
    cover('error')
    check(text(errors[0].path) == 'f[%s]' % k, 'integer key')


@harness(cases=[(h,) for h in ('munge', 'filter', 'validate', 'default', 'parse', 'compute', 'item')], covers=['error', 'clean'])
def hooks(which):
    """Errors reported by hooks carry the location of their field."""
    lim = int_('lim', 0, 5)
    f = pilo.fields.Int()

    def report(v):
        if v > lim:
            pilo.ctx.errors.invalid('bad')
            return pilo.ERROR
        return v
    if which == 'munge':
        f.munge.attach(f)(munge_of(report))
    elif which == 'filter':
        f.filter.attach(f)(filter_of(report))
    elif which == 'validate':
        f.validate.attach(f)(validate_of(report))
    elif which == 'default':
        f.default.attach(f)(plain_of(lambda: report(5)))
    elif which == 'compute':
        f.compute.attach(f)(plain_of(lambda: report(5)))
    elif which == 'parse':
        f.parse.attach(f)(parse_of(report))
    else:
        f.munge.attach(f)(munge_of(report))
    inner = form_of(x=pilo.fields.List(f) if which == 'item' else f)
    cls = form_of(f=pilo.fields.List(pilo.fields.SubForm(inner)))
    v = int_('v', 0, 9)
    member = {} if which == 'default' else {'x': [0, v] if which == 'item' else v}
    form, errors = outcome(cls, {'f': [member]})
    if which in ('default', 'compute'):
        v = 5
    if v > lim:
        cover('error')
        place_ = 'f[0].x[1]' if which == 'item' else 'f[0].x'
        check(errors_of(errors) == [('Invalid', place_)], 'location of an error reported by a hook')
        check(text(errors[0]) == '%s - bad' % place_, 'message')
        check(errors[0].field is f, 'field of the error')
    else:
        cover('clean')
        check(not errors, 'errors')


def munge_of(fn):
    def hook(self, value):
        return fn(value)
    return hook


def parse_of(fn):
    def hook(self, path):
        return fn(path.primitive(int))
    return hook


def filter_of(fn):
    def hook(self, value):
        fn(value)
        return True
    return hook


def validate_of(fn):
    def hook(self, value):
        return fn(value) is not pilo.ERROR
    return hook


def plain_of(fn):
    def hook(self):
        return fn()
    return hook


@harness(covers=['error', 'clean'])
def frozen():
    """The location of an error does not change afterwards."""
    n = form_node(('f', Node('list', item=Node('form', fields=[('x', Node('int')), ('y', Node('int'))]))),
                  ('g', Node('int')))
    data = {'f': [data_of(x=leaf('x'), y=leaf('y')), {'x': 1, 'y': 2}], 'g': 3}
    cls = form_type(n)
    form = cls()
    seen = []

    def note(self, value):
        seen.extend(text(e.path) for e in self.ctx.errors)
        return value
    cls.g.munge.attach(cls.g)(note)
    errors = form.map(data)
    cover('error' if errors else 'clean')
    check(seen == [text(e.path) for e in errors], 'a location changed after the error was reported')
    with pilo.ctx(src=pilo.DefaultSource({'z': 1})):
        check(seen == [text(e.path) for e in errors], 'a location depends on the context it is read in')
    for e, p in zip(errors, seen):
        check(text(e).startswith(p + ' - '), 'message and location differ')


@harness(covers=['error', 'clean'])
def sources():
    """Other sources tell locations in their own way."""
    v = int_('v', 0, 9)
    cls = form_of(f=pilo.fields.List(pilo.fields.SubForm(form_of(x=pilo.fields.Int(max_value=5)))))
    data = {'f': [{'x': 0}, {'x': v}]}
    how = choice('how', ('union', 'mount', 'section'))
    if how == 'union':
        src, want = pilo.UnionSource([data, {'g': 1}]), 'f[1].x'
    elif how == 'mount':
        src, want = pilo.source.MountSource(m=pilo.DefaultSource(data)), '@m:f[1].x'
        cls = form_of(m=pilo.fields.SubForm(cls))
    else:
        src, want = pilo.source.ConfigSource('[s]\nx = %s' % ('8' if v > 5 else '1'), section='s', location='c.ini'), \
            'c.ini:[s]:x'
        cls = form_of(x=pilo.fields.Int(max_value=5))
    errors = cls().map(src)
    check(bool(errors) == (v > 5), 'errors')
    cover('error' if errors else 'clean')
    for e in errors:
        check(text(e.path) == want, 'location')
        check(text(e).startswith(want + ' - '), 'message')


class Called(object):

    def __init__(self, v):
        self.v = v

    def k(self):
        return self.v


@harness(cases=[(k, i) for k in ('k()', 'o.k()', 'o.m', 'k') for i in ('plain', 'list', 'form')], covers=['error', 'clean', 'absent'])
def odd_keys(key, inside):
    """Calls and dotted keys are told as they are declared."""
    x = value('x', ('absent', 'int', 'none', 'dict'), lo=0, hi=9)
    held = {'plain': x, 'list': [x], 'form': {'q': x}}[inside] if x is not ABSENT else ABSENT
    if held is ABSENT:
        data = {'o': {}}
    else:
        data = {'k': held if key == 'k' else lambda: held, 'o': {'m': held, 'k': Called(held).k}}
    n = Node('int', max_value=5)
    if inside == 'list':
        n = Node('list', item=n)
    elif inside == 'form':
        n = Node('form', fields=[('q', n)])
    inner = build(n)
    inner.src = key
    form, errors = outcome(form_of(a=pilo.fields.List(pilo.fields.SubForm(form_of(f=inner)))), {'a': [data]})
    place_ = 'a[0].' + key
    if held is ABSENT:
        cover('absent')
        want = [('Missing', place_)]
    else:
        place_ = place_ + {'plain': '', 'list': '[0]', 'form': '.q'}[inside]
        bad = isinstance(x, dict) or x is None or x > 5
        if x is None:
            bad = False
        want = [('Invalid', place_)] if bad else []
        cover('error' if want else 'clean')
    check(errors_of(errors) == want, 'where the error is')
    for e in errors:
        check(text(e).startswith(text(e.path) + ' - '), 'the message starts with the location')


@harness(covers=['error', 'clean'])
def fields():
    """An error names the field that is in error: the item of a list, the key of a dict, the field of a form."""
    how = choice('how', ('list', 'tuple', 'key', 'value', 'form', 'poly', 'group', 'flat', 'size'))
    x = value('x', ('int', 'str', 'none', 'list'), cap=1, lo=0, hi=9, alphabet='1a')
    item = pilo.fields.Int(max_value=5)
    data = {'f': [3, x]}
    place_ = 'f[1]'
    if how == 'list':
        f = pilo.fields.List(item)
    elif how == 'tuple':
        f = pilo.fields.Tuple((pilo.fields.Field(), item))
    elif how == 'key':
        # (keys are not converted, and keys of another type are known to fail: C28)
        if not isinstance(x, int):
            return
        f, data = pilo.fields.Dict(item, pilo.fields.Field()), {'f': {x: 1}}
        place_ = 'f'
        ok = isinstance(x, int) and x <= 5
    elif how == 'value':
        f, data, place_ = pilo.fields.Dict(pilo.fields.Field(), item), {'f': {'k': x}}, 'f.k'
    elif how in ('form', 'flat'):
        inner = form_of(q=item)
        f = pilo.fields.SubForm(inner, flat=how == 'flat')
        data, place_ = ({'f': {'q': x}}, 'f.q') if how == 'form' else ({'q': x}, 'q')
    elif how == 'poly':
        base = form_of(t=pilo.fields.Type.abstract())
        subtype(base, 'One', t=pilo.fields.Type.constant('one'), q=item)
        f, data, place_ = pilo.fields.PolymorphicSubForm(base.t), {'f': {'t': 'one', 'q': x}}, 'f.q'
    elif how == 'group':
        f, data, place_ = pilo.fields.Group(('q', item)), {'q': x}, 'q'
    else:
        f = pilo.fields.List(pilo.fields.Field(), max_length=int_('max', 1, 3))
        item, place_ = f, 'f'
    form, errors = outcome(form_of(f=f), data)
    if how == 'size':
        ok = f.max_length >= 2
    elif how != 'key':
        good, v = (True, 0) if x is None else coerce('int', x)
        ok = good and v <= 5
    if ok:
        cover('clean')
        check(not errors, 'errors')
    else:
        cover('error')
        if how == 'key':
            check(len(errors) == 1 and errors[0].field is item, 'the field in error')
        else:
            check(errors_of(errors) == [('Invalid', place_)], 'where the error is')
            check(errors[0].field is item, 'the field in error')


@harness(cases=[(w,) for w in ('plain', 'list', 'dict', 'form')], covers=['error', 'clean'])
def violations(where):
    """The violation of an error is its message without the location; of a missing value, the message says so."""
    f = choice('kind', (lambda: pilo.fields.Int(max_value=5), lambda: pilo.fields.String(max_length=0),
                        lambda: pilo.fields.Field(nullable=False)))()
    x = value('x', ('absent', 'none', 'int', 'str'), cap=1, alphabet='a1', lo=0, hi=9)
    d = data_of(k=x)
    if where == 'list':
        f, data = pilo.fields.List(f), {'f': list(d.values())}
    elif where == 'dict':
        f, data = pilo.fields.Dict(pilo.fields.String(), f), {'f': d}
    elif where == 'form':
        f, data = pilo.fields.SubForm(form_of(k=f)), {'f': d}
    else:
        data = {'f': d['k']} if d else {}
    form, errors = outcome(form_of(f=f), data)
    cover('error' if errors else 'clean')
    for e in errors:
        if kind_of(e) == 'Invalid':
            check(text(e) == text(e.path) + ' - ' + text(e.violation) and text(e.violation) != '', 'violation of the error')
        else:
            check(text(e) == text(e.path) + ' - missing', 'message of the error')


@harness(cases=[(12,), (25,)], covers=['error', 'clean'])
def far(n):
    """Far in, at large indices and under keys of any kind."""
    x = value('x', ('absent', 'int', 'str'), cap=1, alphabet='a1', lo=0, hi=9)
    at = choice('at', (0, 9, 10, 11, 99, 100, 101))
    key = choice('key', ('k', 'a long key with blanks', '\xe9\u65e5', '0', '-1', 'x' * 70))
    node_, data = Node('form', fields=[('x', Node('int', src=key))]), data_of(x=x)
    if 'x' in data:
        data = {key: x}
    for i in range(n):
        if i % 3 == 0:
            node_, data = Node('list', item=node_), [data]
        elif i % 3 == 1:
            node_, data = Node('form', fields=[('f%d' % i, node_)]), {'f%d' % i: data}
        else:
            node_, data = Node('dict', key=Node('any'), item=node_), {i if i < 9 else key: data}
    other = {'x': 1}
    filler = [None] * at
    form, errors, want = compare(form_node(('l', Node('list', item=node_)), ('g', Node('int', default=1))), {'l': filler + [data]})
    cover('error' if errors else 'clean')
    if errors:
        check(text(errors[0].path).startswith('l[%d]' % at), 'index in the location')


@harness(cases=[('flat',), ('group',), ('none',)], covers=['error', 'clean'])
def root(which):
    """An error of a field that is the whole of its data is located there, by no name."""
    lim = int_('lim', 0, 5)
    x = int_('x', 0, 9)

    def validate(self, value):
        if x > lim:
            self.ctx.errors.invalid('bad')
            return False
        return True
    inner = form_of(x=pilo.fields.Int())
    f = {'flat': lambda: pilo.fields.SubForm(inner, flat=True), 'group': lambda: pilo.fields.Group(('x', pilo.fields.Int())),
         'none': lambda: pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int(), None)}[which]()
    f.validate.attach(f)(validate)
    where = choice('where', ('top', 'located', 'form', 'list'))
    cls = form_of(f=f)
    data = {'x': x}
    if where == 'form':
        cls, data = form_of(g=pilo.fields.SubForm(cls)), {'g': data}
    elif where == 'list':
        cls, data = form_of(g=pilo.fields.List(cls)), {'g': [data]}
    elif where == 'located':
        data = pilo.DefaultSource(data, location='loc')
    form, errors = mapped(cls, data)
    if x > lim:
        cover('error')
        place = {'top': '', 'located': 'loc:', 'form': 'g', 'list': 'g[0]'}[where]
        check(errors_of(errors) == [('Invalid', place)], 'where the error is')
        check(text(errors[0]) == place + ' - bad' and errors[0].field is f, 'message of the error')
    else:
        cover('clean')
        check(not errors, 'errors')
