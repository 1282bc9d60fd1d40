"""C23: keys of native data."""
import pilo
from .common import *

BOUNDS = {'keys': 'all texts of 1..4 characters of "a", "b", ".", "(", ")" (5 in thorough), indexes -3..3', 'structures':
          'mappings, lists, objects with attributes and methods, nested three deep', 'values': 'symbolic integers',
          'aliases': 'to a key, an index or nothing', 'ignored': 'paths of one and two keys',
          'sizes': 'paths and aliases of 8 and 20 keys'}
OUTSIDE = ['keys of more characters', 'objects whose item or attribute access raises errors of its own',
           'ignored paths reached by a dotted key']


class Thing(object):

    def __init__(self, **attrs):
        self.__dict__.update(attrs)

    def b(self):
        return self.__dict__['value']


class Items(object):
    """Has items as well as attributes."""

    def __init__(self, items, **attrs):
        self.items_ = items
        self.__dict__.update(attrs)

    def __getitem__(self, k):
        return self.items_[k]


def item(c, k):
    if isinstance(c, Items):
        c = c.items_
    if isinstance(c, dict):
        return c[k] if k in c else ABSENT
    if isinstance(c, (list, tuple)) and isinstance(k, int):
        return c[k] if -len(c) <= k < len(c) else ABSENT
    return ABSENT


def attribute(c, k):
    if isinstance(c, (Thing, Items)):
        if k in ('a', 'ab') and k in c.__dict__:
            return c.__dict__[k]
        if k == 'b' and isinstance(c, Thing):
            return c.b
    return ABSENT


class Lookup(object):

    def __init__(self, aliases=None):
        self.aliases = aliases or {}

    def step(self, c, k):
        v = item(c, k)
        if v is not ABSENT:
            return v
        if k in self.aliases:
            v = item(c, self.aliases[k])
            if v is not ABSENT:
                return v
        return attribute(c, k) if isinstance(k, str) else ABSENT

    def get(self, c, key):
        if isinstance(key, str) and key.endswith('()'):
            v = item(c, key)
            if v is not ABSENT:
                return v
            v = self.get(c, key[:-2])
            return v() if callable(v) else ABSENT
        v = self.step(c, key)
        if v is not ABSENT or not isinstance(key, str):
            return v
        v = c
        for atom in key.split('.'):
            v = self.step(v, atom)
            if v is ABSENT:
                break
        return v


def structure(which):
    n = [int_('n%d' % i, -9, 9) for i in range(7)]
    thing = Thing(a=n[5], value={'a': n[6]})
    if which == 'dict':
        return {'a': {'a': n[0], 'b': {'a': n[1]}, 'a.b': n[2]}, 'a.b': n[3], 'b': None, 'ab': {'': n[4]}, '(': n[5], 'b.a': {'b': n[6]}}
    if which == 'objects':
        return {'a': Thing(a=n[0], value=n[1]), 'b': Thing(ab=Thing(a=n[2], value=n[3]), value=Thing(a=n[4], value=n[5])), 'b()': Thing(value=n[6])}
    if which == 'both':
        return {'a': Items({'b': n[0], 'a': Thing(value=n[6])}, a=n[1], ab=n[2]), 'a()': n[3], 'b': Items({'a()': n[4]}, a=lambda: thing)}
    if which == 'calls':
        one, two = {'b': n[0], 'a': lambda: n[1]}, lambda: n[4]
        return {'a': lambda: one, 'b': Thing(value=Thing(value=n[2])), '()': n[3], 'a.b': lambda: two, 'ab': n[5], 'aa()': n[6]}
    raise AssertionError(which)


def judge(data, key, lookup, src=None, prefix=''):
    """Map a field of that key and compare."""
    f = pilo.fields.Field(key)
    form, errors = mapped(form_of(f=f, z=pilo.fields.Field('none', default=3)), src if src is not None else pilo.DefaultSource(data))
    want = lookup.get(data, key)
    check(form['z'] == 3, 'the field after it')
    if want is ABSENT:
        cover('absent')
        check(errors_of(errors) == [('Missing', prefix + text(key))], 'absent')
        check('f' not in form, 'a value although there is none')
    else:
        cover('found')
        check(not errors, 'errors')
        got = form['f']
        check(type(got) is type(want) and got == want if callable(want) else got is want or same(got, want), 'the value')
    return want


@harness(cases=[(w, 3, 1) for w in ('dict', 'objects', 'both', 'calls')] + [(w, 4, 4) for w in ('dict', 'objects', 'both', 'calls')] + [
             (w, 5, 5) for w in ('both', 'calls')],
         thorough=[(w, n, n if n > 3 else 1) for w in ('dict', 'objects', 'both', 'calls') for n in (3, 4, 5)], covers=['found', 'absent'])
def keys(which, cap, least):
    """Any key in any of the structures."""
    key = str_('key', cap, 'ab.()' if which in ('objects', 'both', 'calls') else 'ab.(', least)
    judge(structure(which), key, Lookup())


@harness(covers=['found', 'absent'])
def indexes():
    """Keys that are no texts."""
    n = [int_('n%d' % i, -9, 9) for i in range(4)]
    data = {'l': [n[0], n[1]][:pick('len', 3)], 't': (n[2],), 'd': {0: n[3], 1: n[0], -1: n[1]}, 's': Thing(value=3)}
    at = choice('at', ('l', 't', 'd', 's'))
    i = int_('i', -3, 3)
    d = data[at]
    inner = form_of(x=pilo.fields.Field(i))
    if at == 'd':
        form, errors = mapped(form_of(f=pilo.fields.SubForm(inner)), {'f': d})
        where = 'f[' + text(i) + ']'
        got = dict(form['f'])['x'] if 'f' in form else ABSENT
    else:
        form, errors = mapped(inner, pilo.DefaultSource(Forced(d)))
        where = text(i)
        got = dict(form)['x'] if 'x' in form else ABSENT
    want = item(d, i)
    if want is ABSENT:
        cover('absent')
        check(errors_of(errors) == [('Missing', where)] and got is ABSENT, 'absent')
    else:
        cover('found')
        check(not errors and same(got, want), 'item')


class Forced(dict):
    """A mapping whose items are those of something else."""

    def __init__(self, c):
        dict.__init__(self)
        self.c = c

    def __getitem__(self, k):
        return self.c[k]


@harness(cases=[('dict',), ('list',)], covers=['found', 'absent', 'captured'])
def aliases(which):
    """Aliases stand in for keys the data do not have, at the top only."""
    n = [int_('n%d' % i, -9, 9) for i in range(4)]
    if which == 'dict':
        to = choice('to', ('b', 'c', 'nothing'))
        data = data_of(b=data_of(a=n[0], x=n[3] if flag('inner') else ABSENT), c=n[2])
        if flag('a'):
            data['a'] = choice('held', (n[1], None))
    else:
        to = choice('to', (0, 1, 2, -1))
        data = [n[0], data_of(a=n[1], x=n[2] if flag('inner') else ABSENT)][:1 + pick('len', 2)]
    al = {'a': to, 'x': choice('x', ('a', 0))}
    key = choice('key', ('a', 'x', 'b', 'a.a', 'a.x', 'q', 'x.a'))
    want = judge(data, key, AliasLookup(al), pilo.DefaultSource(data, aliases=al))
    sub = form_of(i=pilo.fields.Field('x', default=None))
    form, errors = mapped(form_of(f=pilo.fields.SubForm(sub, 'a', default=None)), pilo.DefaultSource(data, aliases=al))
    top = Lookup(al).get(data, 'a')
    if isinstance(top, dict):
        check(not errors and same(form['f']['i'], top.get('x')), 'aliases do not hold further in')
    cover('captured')
    form = pilo.Form()
    errors = form.map(pilo.DefaultSource(data, aliases=al), unmapped='capture')
    for k, v in form.items():
        w = Lookup(al).get(data, k)
        check(k in al and (v is w or same(v, w)), 'captured by alias')


@harness(covers=['item', 'alias', 'attribute', 'absent'])
def order_of_lookups():
    """Of what has items and attributes: first items, then aliases, then attributes."""
    n = [int_('n%d' % i, -9, 9) for i in range(4)]
    has_item, has_alias, has_attribute = flag('item'), choice('to', ('none', 'there', 'not there')), flag('attribute')
    attrs = data_of(a=n[2] if has_attribute else ABSENT)
    if flag('sequence'):
        data = Items([n[0], n[1]], **attrs)
        has_item, to = False, {'none': None, 'there': 1, 'not there': 5}[has_alias]
    else:
        data = Items(data_of(b=n[1], a=n[0] if has_item else ABSENT), **attrs)
        to = {'none': None, 'there': 'b', 'not there': 'c'}[has_alias]
    want = n[0] if has_item else n[1] if has_alias == 'there' else n[2] if has_attribute else ABSENT
    cover('item' if has_item else 'alias' if has_alias == 'there' else 'attribute' if has_attribute else 'absent')
    with pilo.ctx(src=pilo.DefaultSource(data, aliases={} if to is None else {'a': to})):
        with pilo.ctx(src='a'):
            path = pilo.ctx.src_path
            check(path.exists == (want is not ABSENT), 'there or not')
            if want is not ABSENT:
                check(same(path.primitive(int), want), 'the value')


class AliasLookup(Lookup):
    """Dotted keys: the alias holds for each part (there is one key in the path)."""


@harness(covers=['found', 'absent'])
def positions():
    """A form mapped from a sequence takes the items in order of declaration."""
    data = [value('v%d' % i, ('none', 'int', 'str'), cap=1, alphabet='1a') for i in range(3)][:pick('n', 4)]
    if flag('tuple'):
        data = tuple(data)
    nodes = [('c', Node('int')), ('a', Node('any')), ('b', Node('int', default=5))]
    cls = form_type(form_node(*nodes))
    form, errors = outcome(cls, data)
    ref = Ref()
    want = {}
    for i, (name, n) in enumerate(nodes):
        v = ref.at(n, data[i] if i < len(data) else ABSENT, (name,))
        if not is_nothing(v):
            want[name] = v
    cover('absent' if len(data) < 3 else 'found')
    agree(form, errors, want, ref.errors)
    made = None
    try:
        made = cls(data)
    except ValueError:
        check(bool(errors), 'raised')
    if made is not None:
        check(not errors and same(dict(made), want), 'made from a sequence')


@harness(covers=['ignored', 'found'])
def ignored():
    """Ignored paths do not exist; others do."""
    a, b, c = [value(x, ('absent', 'none', 'int'), lo=-9, hi=9) for x in 'abc']
    ign = choice('ignored', (['a'], ['f.b'], ['a', 'f.b'], ['b'], ['f'], ['f.f'], [], None))
    data = dict(f=data_of(a=a, b=b), **data_of(a=c, b=a))
    cls = form_of(a=pilo.fields.Field(), b=pilo.fields.Field(), f=pilo.fields.SubForm(form_of(a=pilo.fields.Field(), b=pilo.fields.Field(default=4))))
    form, errors = outcome(cls, pilo.DefaultSource(data, ignores=ign))
    seen = dict(data, f=dict(data['f']))
    for i in ign or ():
        d = seen
        *into, last = i.split('.')
        for k in into:
            d = d.get(k, {})
        d.pop(last, None)
    n = form_node(('a', Node('any')), ('b', Node('any')), ('f', Node('form', fields=[('a', Node('any')), ('b', Node('any', default=4))])))
    ref = Ref()
    want = ref.form(n, seen)
    cover('ignored' if ign else 'found')
    agree(form, errors, want, ref.errors)


@harness(covers=['absent', 'present'])
def methods_of_dicts():
    """A key named like an attribute of mappings is in the data or absent."""
    key = choice('key', ('items', 'keys', 'values', 'get', 'pop', 'copy', '__class__', 'a.items'))
    v = value('v', ('absent', 'int'))
    data = {'a': {}}
    if v is not ABSENT:
        if key == 'a.items':
            data['a']['items'] = v
        else:
            data[key] = v
    form, errors = mapped(form_of(x=pilo.fields.Field(key)), data)
    if v is ABSENT:
        cover('absent')
        check(errors_of(errors) == [('Missing', key)], 'absent', known=[('dict-attribute', True)])
    else:
        cover('present')
        check(not errors and same(form['x'], v), 'value')


@harness(cases=[(s,) for s in ('native', 'json', 'union', 'mount', 'config')], covers=['found', 'absent', 'again'])
def walks(kind):
    """What keys lead to depends on the keys alone, not on what was read on the way."""
    n = [int_('n%d' % i, -9, 9) for i in range(3)]
    if kind == 'config':
        data = {'a': {'a': '1', 'name': 'x', 'b': '2'}, 'name': {'a': 'y', 'name': '3'}}
        src = pilo.source.ConfigSource('[a]\na=1\nname=x\nb=2\n[name]\na=y\nname=3\n')
    else:
        data = {'a': {'a': n[0], 'name': {'a': n[1]}, 'b': None}, 'name': n[2]}
        if flag('no name'):
            del data['name']
        src = {'native': lambda: pilo.DefaultSource(data), 'json': lambda: pilo.source.JsonSource(json_text(data)), 'union': lambda: pilo.UnionSource([data]),
               'mount': lambda: pilo.source.mount(m=data)}[kind]()
    with pilo.ctx(src=src):
        path = pilo.ctx.src_path
        if kind == 'mount':
            path.append('m')
        here = data
        for i in range(3):
            if i and flag('another%d' % i):
                # another way tried first
                path.append(choice('other%d' % i, ('a', 'name')))
                path.exists
                path.pop()
                cover('again')
            key = choice('key%d' % i, ('a', 'name', 'b'))
            path.append(key)
            here = here[key] if isinstance(here, dict) and key in here else ABSENT
            if kind == 'union' and isinstance(here, dict):
                # a place in a union is a mapping once it is asked for as one
                path.mapping()
            if i == 2 or flag('look%d' % i):
                check(path.exists == (here is not ABSENT), 'there or not')
                if here is not ABSENT:
                    check(path.is_null == (here is None), 'null or not')
        cover('absent' if here is ABSENT else 'found')
        if isinstance(here, dict):
            check(sorted(path.mapping()) == sorted(here), 'keys')
        elif here is not ABSENT and here is not None:
            check(same(path.primitive(), here), 'value')


@harness(cases=[(8,), (20,)], covers=['found', 'absent'])
def far(n):
    """Many keys deep, by nested forms, by dots, and at large indexes."""
    v = int_('v', 0, 9)
    last = str_('last', 2, 'ab', least=1)
    data = {'ab': v, 'b': 5}
    for i in range(n):
        data = {'k%d' % i: data, 'x': i}
    key = '.'.join('k%d' % i for i in reversed(range(n))) + '.' + last
    form, errors = mapped(form_of(f=pilo.fields.Field(key)), data)
    if last == 'ab' or last == 'b':
        cover('found')
        check(not errors and same(form['f'], v if last == 'ab' else 5), 'the value')
    else:
        cover('absent')
        check(errors_of(errors) == [('Missing', key)] and not form, 'absent')
    at, m = int_('at', -n - 2, n + 2), n
    form, errors = mapped(form_of(x=pilo.fields.Int(at)), pilo.DefaultSource(Forced([i * 3 for i in range(m)])))
    if -m <= at and at < m:
        check(not errors and same(form['x'], (at if at >= 0 else at + m) * 3), 'the item')
    else:
        check([kind_of(e) for e in errors] == ['Missing'] and not form, 'no such item')
