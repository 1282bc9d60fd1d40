"""C25: mounted sources."""
import pilo
from .common import *

BOUNDS = {'sources': 'two mounted at once, native, JSON, configuration text, a union or mounts again', 'forms': 'nested two deep below a mount, with '
          'lists and captured rest', 'values': 'absent, null, integers -9..9, texts of 0..1 characters, mappings, sequences',
          'sizes': 'mounts 9 deep; 25 mounts, one of any data'}
OUTSIDE = ['fields that take a whole mount as a plain value']


def node(default=UNSET):
    return Node('form', default=default, fields=[
        ('x', Node('int', max_value=5)), ('g', Node('form', default=ABSENT, fields=[('y', Node('int')), ('z', Node('str', default='d'))])),
        ('l', Node('list', item=Node('int'), default=[]))])


def data(i):
    d = data_of(x=value('x' + i, ('absent', 'none', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9))
    g = choice('g' + i, ('absent', 'int', 'dict'))
    if g == 'dict':
        d['g'] = data_of(y=value('y' + i, ('absent', 'int')))
    elif g == 'int':
        d['g'] = 3
    l = choice('l' + i, ('absent', 'one', 'int'))
    if l != 'absent':
        d['l'] = [int_('l' + i, 0, 9), 'q'] if l == 'one' else 4
    return d


def below(at, errors):
    return [(k, '@%s:%s' % (at, p)) for k, p in errors]


def source(which, d):
    if which == 'json':
        return pilo.source.JsonSource(json_text(d))
    if which == 'union':
        return pilo.UnionSource([d, {}])
    if which == 'native':
        return pilo.DefaultSource(d)
    return d


@harness(cases=[('native', 'plain'), ('json', 'native'), ('union', 'json')], covers=['error', 'clean', 'absent'])
def two(one, other):
    """What is found under a mount is what its source gives alone."""
    n = node()
    cls = form_type(n)
    d1 = data('1')
    d2 = data_of(x=value('x2', ('absent', 'int'), lo=-9, hi=9))
    f1, e1 = mapped(cls, source(one, d1))
    f2, e2 = mapped(cls, source(other, d2))
    top = form_of(a=pilo.fields.SubForm(cls), b=pilo.fields.SubForm(cls), c=pilo.fields.SubForm(cls))
    # the mount order is not the order of declaration
    mounts = dict(b=source(other, d2), a=source(one, d1))
    form, errors = outcome(top, pilo.source.MountSource(**mounts))
    want = below('a', errors_of(e1)) + below('b', errors_of(e2)) + [('Missing', '@c')]
    check(errors_of(errors) == want, 'errors')
    cover('absent')
    check('c' not in form, 'a value of what is not mounted')
    for k, f, e in (('a', f1, e1), ('b', f2, e2)):
        if e:
            cover('error')
            check(k not in form, 'a form with errors is no value')
        else:
            cover('clean')
            check(k in form and same(dict(form[k]), dict(f)), 'values')


@harness(covers=['default', 'null', 'bad'])
def whole():
    """Mounts of nothing, and names that are not mounted, with defaults."""
    n = node(default=choice('default', (UNSET, None, 'dflt')))
    top = form_type(form_node(('a', n), ('b', n), ('z', Node('int', default=1))))
    src = pilo.source.MountSource(a=None, **({'b': {'x': int_('x', 0, 5)}} if flag('b') else {}))
    form, errors = outcome(top, src)
    check(form['a'] is None, 'a mount of nothing is null')
    cover('null')
    if 'b' in src.srcs:
        check(not errors and same(form['b']['x'], src.srcs['b'].data['x']), 'values')
    elif n.default is UNSET:
        cover('bad')
        check(errors_of(errors) == [('Missing', '@b')], 'not mounted')
    else:
        cover('default')
        check(not errors and form['b'] == n.default, 'not mounted')
    check(form['z'] == 1, 'not mounted, with a default')


@harness(covers=['rest', 'mapped'])
def capture():
    """Captured rest below a mount and at the top."""
    v, w = int_('v', -9, 9), value('w', ('absent', 'int', 'str'), cap=1, alphabet='1a')
    src = pilo.source.MountSource(a=data_of(x=v, y=w), b={'p': v})
    cls = form_of(a=pilo.fields.SubForm(form_of(x=pilo.fields.Int()), unmapped='capture'))
    form, errors = outcome(cls, src)
    check(not errors and same(dict(form['a']), data_of(x=v, y=w)), 'captured below a mount')
    cover('mapped')
    form = cls()
    errors = form.map(src, unmapped=(pilo.fields.String(), pilo.fields.SubForm(form_of(p=pilo.fields.Int()))))
    check(not errors and same(dict(form['b']), {'p': v}), 'captured mounts')
    cover('rest')
    d = pilo.fields.Dict(pilo.fields.String(), pilo.fields.Field(), 'a')
    form, errors = mapped(form_of(d=d), src)
    check(not errors and same(form['d'], data_of(x=v, y=w)), 'a mount as a dict field')


@harness(covers=['deep'])
def again():
    """Mounts in mounts, and keys below a mount."""
    x, y = value('x', ('absent', 'int', 'str'), cap=1, alphabet='1a'), int_('y', -9, 9)
    inner = pilo.source.MountSource(p=data_of(x=x), q={'x': y})
    src = pilo.source.MountSource(m=inner, n={'x': y})
    leaf = form_of(x=pilo.fields.Int())
    cls = form_of(m=pilo.fields.SubForm(form_of(p=pilo.fields.SubForm(leaf), q=pilo.fields.SubForm(leaf))), n=pilo.fields.SubForm(leaf),
                  k=pilo.fields.SubForm(leaf, 'n'))
    form, errors = outcome(cls, src)
    _, alone = mapped(leaf, data_of(x=x))
    cover('deep')
    check([k for k, p in errors_of(errors)] == [kind_of(e) for e in alone], 'errors')
    for e in errors:
        check(text(e.path) == '@m:@p:x', 'place of the error')
    check(same(dict(form['n']), {'x': y}) and same(dict(form['k']), {'x': y}), 'values beside it')
    if alone:
        check('m' not in form, 'a form with errors is no value')
    else:
        check(same(form['m']['q']['x'], y), 'values')


@harness(covers=['twice'])
def twice():
    """The same source mounted twice, and mapped twice."""
    d = data('1')
    cls = form_type(node())
    s = pilo.source.MountSource(a=pilo.DefaultSource(d), b=pilo.DefaultSource(d))
    top = form_of(b=pilo.fields.SubForm(cls, default=None), a=pilo.fields.SubForm(cls, default=None))
    form, errors = outcome(top, s)
    alone, e = mapped(cls, d)
    check(errors_of(errors) == below('b', errors_of(e)) + below('a', errors_of(e)), 'errors')
    form2, errors2 = mapped(top, s)
    check(errors_of(errors2) == errors_of(errors) and same(dict(form2), dict(form)), 'mapped twice')
    cover('twice')


@harness(covers=['refused'])
def refused():
    """Only sources, mappings and None are mounted; a mount point is neither text nor sequence."""
    x = choice('x', (3, 'a', [1]))
    try:
        pilo.source.MountSource(a={}, b=x)
        fail('not a source')
    except TypeError:
        cover('refused')
    top = form_of(a=choice('f', (pilo.fields.String, pilo.fields.Int, lambda src, **kw: pilo.fields.List(src, pilo.fields.Int(), **kw)))(None),
                  z=pilo.fields.SubForm(form_of(x=pilo.fields.Int())))
    form, errors = mapped(top, pilo.source.MountSource(z={'x': 1}))
    check([kind_of(e) for e in errors] == ['Invalid'] and form == {'z': {'x': 1}}, 'the mount point itself')


@harness(cases=[(4,), (9,)], covers=['error', 'clean'])
def deep(n):
    """Mounts in mounts in mounts."""
    x = value('x', ('absent', 'none', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)
    y = int_('y', -9, 9)
    leaf = form_of(x=pilo.fields.Int(max_value=5), w=pilo.fields.Int(default=1))
    cls, src, where = leaf, data_of(x=x), ''
    for i in range(n):
        k = 'm%d' % i
        cls = type('F', (pilo.Form,), {k: pilo.fields.SubForm(cls), 'b': pilo.fields.SubForm(form_of(y=pilo.fields.Int()))})
        src = pilo.source.MountSource(**{'b': {'y': y}, k: src})
        where = '@' + k + ':' + where
    form, errors = outcome(cls, src)
    got, alone = mapped(leaf, data_of(x=x))
    check(errors_of(errors) == [(kd, where + p) for kd, p in errors_of(alone)], 'errors')
    check(same(dict(form['b']), {'y': y}), 'values beside it')
    if errors:
        cover('error')
        check(list(form) == ['b'], 'a form with errors is no value')
    else:
        cover('clean')
        for i in range(n - 1, -1, -1):
            form = form['m%d' % i]
        check(same(dict(form), dict(got)), 'values')


@harness(cases=[(6,), (25,)], covers=['error', 'clean'])
def many(n):
    """Many mounts, one of which has any data."""
    at = choice('at', (0, n // 2, n - 1))
    d = data_of(x=value('x', ('absent', 'none', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9))
    leaf = form_of(x=pilo.fields.Int(max_value=5))
    ds = [d if i == at else {'x': -i} for i in range(n)]
    src = pilo.source.MountSource(**dict(('m%d' % i, source(('plain', 'native', 'json', 'union')[i % 4], ds[i])) for i in range(n)))
    cls = type('F', (pilo.Form,), dict(('m%d' % i, pilo.fields.SubForm(leaf)) for i in range(n - 1, -1, -1)))
    form, errors = outcome(cls, src)
    got, alone = mapped(leaf, d)
    check(errors_of(errors) == below('m%d' % at, errors_of(alone)), 'errors')
    for i in range(n):
        k = 'm%d' % i
        if i == at and alone:
            check(k not in form, 'a form with errors is no value')
        else:
            check(same(dict(form[k]), dict(got) if i == at else {'x': -i}), 'values')
    cover('error' if errors else 'clean')
