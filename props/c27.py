"""C27: mapping is repeatable and changes nothing else."""
import pilo
from .common import *

BOUNDS = {'forms': '11 shapes: every kind of container and scalar, polymorphic, groups, captured rest, hooks, String.format, tags',
          'history': 'mapping A, then B, then A again (same form, new form, form class never used), from data or sources',
          'values': 'absent, null, integers -9..9, texts of 0..1 characters',
          'sizes': 'mapped up to 30 times with others in between'}
OUTSIDE = ['hooks that change the data themselves', 'other histories']

KINDS = ('absent', 'none', 'int', 'str')


def v(label, kinds=KINDS):
    return value(label, kinds, cap=1, alphabet='1a', lo=-9, hi=9)


def s_scalars():
    def make():
        return form_of(a=pilo.fields.Int(min_value=0), b=pilo.fields.String(choices=['a', '1'], translate={'a': 'b'}, default='x'),
                       c=pilo.fields.Float('a', default=lambda: 2.0), d=pilo.fields.Bool('a', default=None))
    return make, lambda i: data_of(a=v('a' + i), b=v('b' + i, ('absent', 'str')))


def s_string():
    def make():
        return form_of(a=pilo.fields.String(max_length=1, alphabet='1b', ignore='1', default='i'), b=pilo.fields.String('a').capture('(?P<b>a*)1?'))
    return make, lambda i: data_of(a=value('a' + i, ('absent', 'str'), cap=2, alphabet='1ab'))


def s_nested():
    def make():
        leaf = form_of(x=pilo.fields.Int(default=1), y=pilo.fields.Int())
        return form_of(f=pilo.fields.SubForm(leaf, attach_parent=True), g=pilo.fields.SubForm(leaf, 'f', default=None), h=pilo.fields.SubForm(leaf, flat=True))
    return make, lambda i: data_of(f=data_of(x=v('x' + i), y=v('y' + i, ('absent', 'int'))), y=v('z' + i, ('absent', 'int')))


def s_list():
    def make():
        return form_of(l=pilo.fields.List(pilo.fields.Int(max_value=5), max_length=1), t=pilo.fields.Tuple('l', (pilo.fields.Int(), pilo.fields.Int(default=2))))
    return make, lambda i: dict(l=[v('l%s%d' % (i, j), KINDS[1:]) for j in range(2)][:pick('n' + i, 3)])


def s_dict():
    def make():
        return form_of(d=pilo.fields.Dict(pilo.fields.String(max_length=1), pilo.fields.Int(), required_keys=['a'], max_keys=1))
    return make, lambda i: dict(d=data_of(a=v('a' + i), bb=v('b' + i, ('absent', 'int')), c=v('c' + i, ('absent', 'int'))))


def s_group():
    def make():
        import re
        return form_of(g=pilo.fields.Group(('a', pilo.fields.Int()), (re.compile('b(.)'), pilo.fields.Int(default=3))))
    return make, lambda i: data_of(a=v('a' + i), b1=v('b' + i, ('absent', 'none', 'int')), b2=v('c' + i, ('absent', 'int')))


def s_poly():
    def make():
        base = type('Base', (pilo.Form,), dict(type=pilo.fields.Type.abstract()))
        subtype(base, 'One', type=pilo.fields.Type.instance('one'), a=pilo.fields.Int())
        subtype(base, 'Two', type=pilo.fields.Type.instance('two'), b=pilo.fields.Int('a', default=5))
        return form_of(p=pilo.fields.PolymorphicSubForm(base.type))
    return make, lambda i: dict(p=data_of(type=choice('t' + i, ('one', 'two', 'other', ABSENT)), a=v('a' + i)))


def s_rest():
    def make():
        leaf = form_of(x=pilo.fields.Int(default=1))
        f = pilo.fields.SubForm(leaf)
        f.unmapped = (pilo.fields.String(max_length=1), pilo.fields.Int())
        return form_of(f=f)
    return make, lambda i: dict(f=data_of(x=v('x' + i), y=v('y' + i), zz=v('z' + i, ('absent', 'int'))))


def s_hooks():
    def make():
        f = pilo.fields.Int(default=1)

        def munge(self, value):
            return value if value is None else [value, self.b]

        def dflt(self):
            return 'called'
        f.munge(munge)
        b = pilo.fields.Int()
        b.default(dflt)
        return form_of(a=f, b=b, c=pilo.fields.String().format('{x}', x='b'))
    return make, lambda i: data_of(a=v('a' + i, ('absent', 'none', 'int')), b=v('b' + i, ('absent', 'int')))


def s_constant():
    def make():
        base = form_of(a=pilo.fields.Int(default=0), b=pilo.fields.Int())
        return type('Sub', (base,), dict(a=base.a.constant(4)))
    return make, lambda i: data_of(a=v('a' + i), b=v('b' + i))


SHAPES = ('scalars', 'string', 'nested', 'list', 'dict', 'group', 'poly', 'rest', 'hooks', 'constant')


def plain(x):
    if isinstance(x, dict):
        return dict((k, plain(y)) for k, y in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if hasattr(x, 'groups') and hasattr(x, 'lastindex'):  # a match: a new one each time
        return [x.group(0), plain(x.groups())]
    return x


def unchanged(x, y):
    """The data hold the very same values."""
    if isinstance(y, dict):
        return type(x) is dict and list(x) == list(y) and all(unchanged(x[k], y[k]) for k in y)
    if isinstance(y, list):
        return isinstance(x, list) and len(x) == len(y) and all(unchanged(a, b) for a, b in zip(x, y))
    return x is y


def describe(f):
    """The options of a field."""
    out = [type(f), f.name, f.src, f.nullable, list(f.ignores), dict(f.translations), dict(f.tags), f.default]
    for a in ('min_value', 'max_value', 'min_length', 'max_length', 'choices', 'alphabet', 'required_keys', 'max_keys'):
        x = getattr(f, a, None)
        out.append(list(x) if isinstance(x, (list, tuple)) else x)
    return out


def result(form, errors):
    return dict(form), errors_of(errors), [text(e) for e in errors]


def agree_(one, two, when):
    check(one[1] == two[1], 'errors ' + when)
    check(same(plain(one[0]), plain(two[0])), 'values ' + when)
    check(all(bool(p == q) for p, q in zip(one[2], two[2])) and len(one[2]) == len(two[2]), 'messages ' + when)


@harness(cases=[(s,) for s in SHAPES], covers=['error', 'clean'])
def again(shape):
    """Mapping A, then B, then A again."""
    make, data = globals()['s_' + shape]()
    cls, twin = make(), make()
    a, b = data('A'), data('B')
    before = plain(a), plain(b)
    fields = [f for f in cls.fields]
    options = [describe(f) for f in fields]
    form, errors = outcome(cls, a)
    one = result(form, errors)
    mapped(cls, b)
    agree_(one, result(form, errors), 'later')
    two = result(*mapped(cls, a))
    agree_(one, two, 'again')
    agree_(one, result(*mapped(twin, a)), 'of a fresh form')
    check(unchanged(a, before[0]) and unchanged(b, before[1]), 'the data were changed')
    check(cls.fields == fields and len(fields) == len(cls.fields), 'the fields of the form were changed')
    check(all(all(p is q or bool(p == q) for p, q in zip(describe(f), o)) for f, o in zip(fields, options)), 'the options of a field were changed')
    cover('error' if errors else 'clean')


@harness(cases=[(s,) for s in SHAPES], covers=['same'])
def same_form(shape):
    """The same form mapped A, B and A again, forgetting in between; one source used again."""
    make, data = globals()['s_' + shape]()
    cls = make()
    a, b = data('A'), {}
    src = pilo.DefaultSource(a)
    form = cls()
    errors = list(form.map(src))
    one = result(form, errors)
    try:
        form.map(b, reset=True)
    except TypeError:
        pass
    cleared = [n for n in list(form) if n in [f.name for f in cls.fields]]
    errors = list(form.map(src, reset=True))
    agree_(one, result(form, errors), 'again')
    agree_(one, result(*mapped(cls, a)), 'of the data')
    path = src.path()
    check(len(path) == 0 and path.value is a, 'the source')
    cover('same')


@harness(cases=[('json',), ('union',), ('mount',), ('alias',)], covers=['same'])
def sources(which):
    """The other sources can be used again too."""
    n = form_node(('x', Node('int', max_value=5)), ('f', Node('form', default=ABSENT, fields=[('y', Node('int')), ('l', Node('list', item=Node('int')))])),
                  ('l', Node('list', item=Node('form', fields=[('y', Node('int'))]), default=[])))
    cls = form_type(n)
    d = data_of(x=v('x'))
    if flag('f'):
        d['f'] = data_of(y=v('y', ('absent', 'int')), l=[v('l0', ('none', 'int', 'str')), 3][:pick('n', 3)])
    if flag('l'):
        d['l'] = [data_of(y=v('y2', ('absent', 'int'))), {'y': 5}]
    before = plain(d)
    if which == 'json':
        make = lambda: pilo.source.JsonSource(json_text(d))
    elif which == 'union':
        two = dict(f=dict(y=3, l=[4]), l=[{'y': 4}])
        make = lambda: pilo.UnionSource([d, two], merge=rule)
        rule = choice('rule', ('first', 'last', 'combine'))
    elif which == 'mount':
        make = lambda: pilo.source.MountSource(m=d, n={})
        cls = form_of(m=pilo.fields.SubForm(cls), n=pilo.fields.SubForm(cls, default=None))
    else:
        make = lambda: pilo.DefaultSource(d, aliases={'x': 'w', 'l': 'l'}, ignores=['f.y'])
    src = make()
    one = result(*outcome(cls, src))
    two_ = result(*mapped(cls, src))
    agree_(one, two_, 'again')
    agree_(one, result(*mapped(cls, make())), 'from a fresh source')
    check(unchanged(d, before), 'the data were changed')
    cover('same')


@harness(covers=['independent'])
def independent():
    """What a form holds can be changed without an effect on later mappings."""
    cls = form_of(l=pilo.fields.List(pilo.fields.Int(), default=list), d=pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int(), default=dict),
                  f=pilo.fields.SubForm(form_of(x=pilo.fields.Int(default=1))))
    x = int_('x', 0, 9)
    data = data_of(l=[x] if flag('l') else ABSENT, d={'k': x} if flag('d') else ABSENT, f={})
    before = plain(data)
    form, errors = mapped(cls, data)
    one = plain(dict(form))
    form['l'].append(5)
    form['d']['more'] = 6
    form['f'].x = 7
    form.f['z'] = 8
    check(unchanged(data, before), 'the data were changed')
    form, errors = mapped(cls, data)
    check(same(plain(dict(form)), one), 'again')
    cover('independent')


@harness(cases=[(k,) for k in ('native', 'json', 'union', 'mount', 'config')], covers=['same', 'error'])
def within(kind):
    """A source used again while it is being mapped."""
    x, y = v('x', ('absent', 'int', 'str')), v('y', ('absent', 'int'))
    depth = choice('depth', (1, 2))
    d = data_of(x=x, a=data_of(x=y, a={'x': 3}))
    if kind == 'config':
        src = pilo.source.ConfigSource('[m]\nx = %s\n[a]\nx = 4\n' % choice('text', ('1', 'q')))
    else:
        src = {'native': lambda: pilo.DefaultSource(d), 'json': lambda: pilo.source.JsonSource(json_text(d)), 'union': lambda: pilo.UnionSource([d, {'x': 7}]),
               'mount': lambda: pilo.source.MountSource(m=d, a={'x': 5})}[kind]()
    again = form_of(x=pilo.fields.Int('m.x' if kind == 'config' else 'x', default=8), a=pilo.fields.SubForm(form_of(x=pilo.fields.Int(default=9)), default=None))
    alone = result(*outcome(again, src))
    inside = []
    mode = choice('mode', ('new', 'held'))
    keep = again()

    def munge(self, value):
        inside.append(result(*mapped(again, src)) if mode == 'new' else result(keep, keep.map(src, reset=True)))
        return value

    def around(hooked):
        leaf = pilo.fields.Int(default=0)
        if hooked:
            leaf.munge(munge)
        if depth == 2 and kind != 'config':
            inner = form_of(a=pilo.fields.SubForm(form_of(x=leaf), default=None), x=pilo.fields.Int(default=1))
        else:
            inner = form_of(x=leaf, z=pilo.fields.Int('x', default=1))
        return form_of(a=pilo.fields.SubForm(inner), w=pilo.fields.Int('a.x' if kind == 'config' else 'x', default=2))
    form, errors = outcome(around(True), src)
    agree_(result(form, errors), result(*mapped(around(False), src)), 'of the mapping around')
    for r in inside:
        cover('error' if r[1] else 'same')
        agree_(r, alone, 'of the mapping inside')
    if not inside:
        cover('same')


@harness(cases=[(s, 6) for s in SHAPES] + [('list', 30), ('nested', 30)], covers=['error', 'clean'])
def often(shape, n):
    """The first result is that of every later mapping, whatever was mapped in between."""
    make, data = globals()['s_' + shape]()
    cls = make()
    a = data('A')
    src = pilo.DefaultSource(a) if flag('source') else a
    others = [{}, {'a': 'q', 'f': 3, 'l': {}, 'd': [1], 'p': {'type': 'two'}, 'g': None}, {'a': 1, 'b': 2, 'f': {'x': 1, 'y': 2}, 'l': [1, 9, 9], 'd': {'zz': 'z'}, 'b1': 4}]
    before = plain(a)
    first = result(*outcome(cls, src))
    form = cls()
    for i in range(n):
        mapped(cls, others[i % 3])
        if i % 2:
            agree_(first, result(*mapped(cls, src)), 'again')
        else:
            errors = list(form.map(src, reset=True))
            agree_(first, result(form, errors), 'of the same form')
    check(unchanged(a, before), 'the data were changed')
    cover('error' if first[1] else 'clean')


def alter(x):
    """Change what was mapped, in every place."""
    if isinstance(x, dict):
        for k in list(x):
            alter(x[k])
        x['new'] = 'new'
        for k in list(x)[:1]:
            del x[k]
    elif isinstance(x, list):
        for y in x:
            alter(y)
        x.append('new')
        x.reverse()


@harness(cases=[(w,) for w in ('native', 'json', 'same json', 'union', 'mount', 'config', 'reader')], covers=['clean', 'error'])
def altered(which):
    """What is done to the values of one mapping is not seen by the next."""
    inner = form_of(x=pilo.fields.Int(max_value=5), m=pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int(), default=dict))
    fields = dict(l=pilo.fields.List(pilo.fields.List(pilo.fields.Int())), s=pilo.fields.SubForm(inner), d=pilo.fields.Dict(pilo.fields.String(), pilo.fields.List(pilo.fields.Int()), default=dict),
                  k=pilo.fields.List(pilo.fields.SubForm(inner), default=list))
    if which in ('json', 'same json', 'reader'):
        fields['any'] = pilo.fields.Field(default=list)
    x, y = int_('x', 0, 9), int_('y', 0, 9)
    data = {'l': [[x, 1], []], 's': {'x': y, 'm': {'p': 1}}, 'd': {'q': [2, y]}, 'k': [{'x': 1}, {'x': x}]}
    if which != 'reader' and 'any' in fields and flag('any'):
        data['any'] = [{'z': [x]}]
    if which == 'config':
        fields = dict(l=pilo.fields.SubForm(form_of(l=pilo.fields.List(pilo.fields.String()), m=pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int(max_value=5))), 's'))
        n = choice('n', ('3', '7'))
        source = pilo.source.ConfigSource('[s]\nl = a b\nm[k] = %s\n' % n)
        make = lambda: source
    elif which == 'native':
        make = lambda: data
    elif which == 'same json':
        t = json_text(data)
        make = lambda: pilo.source.JsonSource(t)
    elif which == 'json':
        make = lambda: pilo.source.JsonSource(json_text(data))
    elif which == 'union':
        make = lambda: pilo.UnionSource([{'s': {'x': y}}, data], merge='combine')
    elif which == 'mount':
        make = lambda: pilo.source.MountSource(a=data)
    else:
        # read through a union, as another source
        t = json_text(data)
        make = lambda: pilo.UnionSource([pilo.source.JsonSource(t)])
    cls = form_of(**fields) if which != 'mount' else form_of(a=pilo.fields.SubForm(form_of(**fields)))
    form, errors = mapped(cls, make())
    first = plain(form), errors_of(errors)
    check(not (which == 'native') or data['l'][0][0] is x, 'the data were changed')
    alter(form)
    for again in range(2):
        form, errors = mapped(cls, make())
        check(errors_of(errors) == first[1], 'errors of the next mapping')
        check(same(plain(form), first[0]), 'values of the next mapping')
    cover('error' if errors else 'clean')
