"""C18: nested forms."""
import re

import pilo
from .common import *

BOUNDS = {'forms': 'nested up to three deep, two fields each', 'values': 'absent, null, booleans, integers -9..9, texts of '
          '0..1 characters, lists, mappings',
          'sizes': 'forms nested 25 deep; 20 nested forms side by side'}
OUTSIDE = ['deep nesting with more than one value that is any']

KINDS = ('absent', 'none', 'int', 'str')


def inner_node():
    return Node('form', fields=[('x', Node('int', min_value=int_('lo', -5, 5))), ('y', Node('any', default=3))])


def leaves(i=''):
    return data_of(x=value('x' + i, KINDS, cap=1, alphabet='1a', lo=-9, hi=9), y=value('y' + i, ('absent', 'int')))


@harness(cases=[('class',), ('src',), ('from_fields',), ('list',)], covers=['error', 'clean'])
def like_alone(how):
    """A nested form holds what the form alone gets from the same data; its errors are those, further in."""
    node = inner_node()
    cls = form_type(node)
    d = leaves()
    alone, alone_errors = mapped(cls, d)
    key = 'f'
    if how == 'class':
        f = pilo.fields.SubForm(cls)
    elif how == 'src':
        f, key = pilo.fields.SubForm(cls, 'eff'), 'eff'
    elif how == 'from_fields':
        f = pilo.fields.SubForm.from_fields(**dict((n, build(x)) for n, x in node.fields))
    else:
        f = pilo.fields.List(cls)
    form, errors = outcome(form_of(f=f), {key: [d] if how == 'list' else d})
    where = key + ('[0]' if how == 'list' else '')
    check([(k, where + '.' + p) for k, p in errors_of(alone_errors)] == errors_of(errors), 'errors of the nested form')
    if errors:
        cover('error')
        check((form['f'] == []) if how == 'list' else 'f' not in form, 'a form with errors is no value')
    else:
        cover('clean')
        got = form['f'][0] if how == 'list' else form['f']
        check(same(dict(got), dict(alone)), 'values of the nested form')
        check(isinstance(got, pilo.Form), 'not a form')
        if how != 'from_fields':
            check(type(got) is cls, 'not the declared form')


@harness(cases=[('flat',), ('none',)], covers=['error', 'clean'])
def flat(how):
    """A flat nested form maps from the data around it."""
    node = inner_node()
    cls = form_type(node)
    f = pilo.fields.SubForm(cls, flat=True) if how == 'flat' else pilo.fields.SubForm(cls, None)
    d = leaves()
    d.update(data_of(z=value('z', ('absent', 'int'))))
    alone, alone_errors = mapped(cls, d)
    form, errors = outcome(form_of(f=f, z=pilo.fields.Int()), d)
    check([e for e in errors_of(errors) if e[1] != 'z'] == errors_of(alone_errors), 'errors of the flat form')
    check(('Missing', 'z') in errors_of(errors) if 'z' not in d else same(form['z'], d['z']), 'the field beside it')
    cover('error' if alone_errors else 'clean')
    if alone_errors:
        check('f' not in form, 'a form with errors is no value')
    else:
        check(same(dict(form['f']), dict(alone)), 'values of the flat form')


@harness(cases=[(d,) for d in ('unset', 'null', 'call', 'none')], covers=['absent', 'present', 'invalid', 'null'])
def absent(default):
    """Absent, null and unsuitable data of a nested form."""
    kw = {'unset': {}, 'null': dict(default=None), 'call': dict(default=lambda: 'dflt'), 'none': dict(default=ABSENT)}[default]
    n = Node('form', fields=[('x', Node('int', default=1))], **kw)
    nullable = choice('nullable', (UNSET, False, True)) if default != 'null' else UNSET
    n.nullable = nullable
    x = value('f', [k for k in ANY if k != 'list'], cap=1)
    form, errors, want = compare(form_node(('f', n)), data_of(f=x))
    if x is ABSENT:
        cover('absent')
        if default == 'unset':
            check(errors_of(errors) == [('Missing', 'f')], 'Missing expected')
        else:
            check(not errors, 'errors although there is a default')
    elif x is None:
        cover('null')
        check(errors_of(errors) == ([('Invalid', 'f')] if nullable is False else []), 'null')
    elif isinstance(x, dict):
        cover('present')
        check(not errors and form['f'] == {'x': 1}, 'a form')
    else:
        cover('invalid')
        check(errors_of(errors) == [('Invalid', 'f')], 'what is no mapping is invalid')


@harness(covers=['error', 'clean'])
def deep():
    """Three levels; every error is reported once; siblings are kept."""
    n3 = Node('form', fields=[('p', Node('int', max_value=5)), ('q', Node('int', default=0))])
    n2 = Node('form', fields=[('m', n3), ('n', Node('form', default=None, fields=[('p', Node('int'))]))])
    n1 = form_node(('f', n2), ('g', n3))
    lf = lambda i: data_of(p=value('p' + i, ('absent', 'int', 'none'), lo=0, hi=9), q=value('q' + i, ('absent', 'str'), cap=1, alphabet='1a'))
    mid = data_of(m=lf('1'))
    if flag('n'):
        mid['n'] = data_of(p=value('pn', ('absent', 'int')))
    form, errors, want = compare(n1, {'f': mid, 'g': lf('2')})
    cover('error' if errors else 'clean')


@harness(covers=['seen'])
def parent():
    """attach_parent: the nested form knows the form it is in."""
    v = int_('v', 0, 9)
    inner = form_of(x=pilo.fields.Int())
    cls = form_of(a=pilo.fields.Int(), f=pilo.fields.SubForm(inner, attach_parent=True), g=pilo.fields.SubForm(inner))
    form = cls()
    errors = form.map({'a': v, 'f': {'x': 1}, 'g': {'x': 2}})
    cover('seen')
    check(not errors, 'errors')
    check(form['f'].parent['a'] == v, 'the form it is in')
    check(not hasattr(form['g'], 'parent'), 'parent although not asked for')


@harness(covers=['form', 'null', 'default', 'error'])
def parent_values():
    """attach_parent with values that are no forms: mapped like without."""
    inner = form_of(x=pilo.fields.Int(max_value=5))
    default = choice('default', (UNSET, None, 7, 'form', 'dict', 'text'))
    kw = {}
    if default is not UNSET:
        kw['default'] = {'form': lambda: inner(x=3), 'dict': dict}.get(default, default)
    if flag('nullable'):
        kw['nullable'] = True
    data = data_of(f=value('f', ('absent', 'none', 'int', 'list'), lo=0, hi=9))
    if flag('form'):
        data['f'] = {'x': int_('x', 0, 9)}
    with_, without = [form_of(f=pilo.fields.SubForm(inner, attach_parent=a, **kw)) for a in (True, False)]
    form, errors = outcome(with_, data)
    form2, errors2 = outcome(without, data)
    check(errors_of(errors) == errors_of(errors2), 'errors with attach_parent')
    check(same(dict(form), dict(form2)), 'values with attach_parent')
    if errors:
        cover('error')
    elif form['f'] is None:
        cover('null')
    elif 'f' not in data:
        cover('default')
        if default == 'form':
            check(form['f'].parent == form, 'a default form knows the form it is in')
    else:
        cover('form')
        check(form['f'].parent == form, 'a form knows the form it is in')


@harness(cases=[('list',), ('tuple',), ('dict',), ('group',)], covers=['seen', 'error'])
def parent_items(inside):
    """attach_parent of the forms in a container: each knows what it is in, or that it is in nothing."""
    inner = form_of(x=pilo.fields.Int(max_value=5))
    item = pilo.fields.SubForm(inner, attach_parent=True, nullable=True)
    x = value('x', ('int', 'none', 'str'), cap=1, lo=0, hi=9)
    y = choice('y', (None, UNSET))
    one, two = {'x': x}, ({'x': 1} if y is UNSET else y)
    field, data = {
        'list': lambda: (pilo.fields.List(item), {'f': [one, two]}),
        'tuple': lambda: (pilo.fields.Tuple(item, item), {'f': [one, two]}),
        'dict': lambda: (pilo.fields.Dict(pilo.fields.String(), item), {'f': {'a': one, 'b': two}}),
        'group': lambda: (pilo.fields.Group((re.compile('f_(.)'), item)), {'f_a': one, 'f_b': two})}[inside]()
    form, errors = outcome(form_of(f=field), data)
    cover('error' if errors else 'seen')
    plain = pilo.fields.SubForm(inner, nullable=True)
    field = {'list': lambda: pilo.fields.List(plain), 'tuple': lambda: pilo.fields.Tuple(plain, plain),
             'dict': lambda: pilo.fields.Dict(pilo.fields.String(), plain), 'group': lambda: pilo.fields.Group((re.compile('f_(.)'), plain))}[inside]()
    form2, errors2 = outcome(form_of(f=field), data)
    check(errors_of(errors) == errors_of(errors2), 'errors with attach_parent')
    if inside == 'group':
        # the match objects differ
        form, form2 = [dict((k, [(e[0], e[2]) for e in v]) for k, v in m.items()) for m in (form, form2)]
    check(same(dict(form), dict(form2)), 'values with attach_parent')


@harness(covers=['refused', 'clean', 'error'])
def declared():
    """A nested form is declared by its form type and key in either order; without a form type it is refused."""
    inner = form_of(x=pilo.fields.Int(max_value=5))
    key = choice('key', ('f', 'g'))
    f = choice('order', (lambda: pilo.fields.SubForm(inner, key), lambda: pilo.fields.SubForm(key, inner)))()
    x = int_('x', 0, 9)
    form, errors = outcome(form_of(f=f), {key: {'x': x}, 'x': 1, 'h': {'x': 2}})
    if x > 5:
        cover('error')
        check(errors_of(errors) == [('Invalid', key + '.x')] and not form, 'error of the nested form')
    else:
        cover('clean')
        check(not errors and type(form['f']) is inner and form == {'f': {'x': x}}, 'value of the nested form')
    try:
        choice('none', (lambda: pilo.fields.SubForm(), lambda: pilo.fields.SubForm(key), lambda: pilo.fields.SubForm(key, int)))()
        refused = False
    except Exception:
        cover('refused')
        refused = True
    check(refused, 'a nested form without a form type')


@harness(cases=[(12,), (25,)], covers=['error', 'clean'])
def very_deep(n):
    """Many forms within each other; each holds what it does alone."""
    node_, data = Node('form', fields=[('x', Node('int', min_value=int_('lo', -1, 1))), ('y', Node('any', default=3))]), data_of(
        x=value('x', ('absent', 'int', 'none'), lo=-1, hi=1), y=value('y', ('absent', 'int'), lo=0, hi=1))
    s = int_('s', 0, 1)
    for i in range(n):
        node_ = Node('form', fields=[('a', Node('int', max_value=0)), ('f', node_), ('z', Node('int', default=i))])
        data = {'f': data, 'a': s if i in (0, n - 1) else 0, 'other': 5}
    form, errors, want = compare(node_, data)
    cover('error' if errors else 'clean')


@harness(cases=[(20,)], covers=['error', 'clean'])
def siblings(n):
    """Many forms beside each other."""
    lo, x, y, at = int_('lo', -1, 1), int_('x', -1, 1), int_('y', -1, 1), choice('at', (0, 9, n - 1))
    inner = Node('form', fields=[('x', Node('int', min_value=lo)), ('y', Node('int', default=1))])
    fields = [('f%d' % i, inner) for i in range(n)]
    form, errors, want = compare(form_node(*fields), dict(('f%d' % i, {'x': x if i == at else y}) for i in range(n)))
    cover('error' if errors else 'clean')


@harness(cases=[(w,) for w in ('alone', 'list', 'tuple', 'dict', 'group', 'poly')], covers=['empty', 'held', 'error'])
def holding_nothing(inside):
    """A nested form that holds nothing is a form, not absence."""
    base = form_of(t=pilo.fields.Type.abstract())
    inner = subtype(base, 'Inner', t=pilo.fields.Type.instance('one', 'two', optional=True), a=pilo.fields.Int(optional=True)) if inside == 'poly' else form_of(
        a=pilo.fields.Int(optional=True))
    d = data_of(a=value('a', ('absent', 'int', 'str'), cap=1, alphabet='x1'))
    sub = pilo.fields.PolymorphicSubForm(base.t) if inside == 'poly' else pilo.fields.SubForm(inner)
    if inside == 'poly':
        d['t'] = 'one'
    alone, alone_errors = mapped(inner, d)
    f, data, want = {
        'list': lambda: (pilo.fields.List(sub, default=7), [d], [alone]),
        'tuple': lambda: (pilo.fields.Tuple(pilo.fields.Int(), sub, default=7), [1, d], (1, alone)),
        'dict': lambda: (pilo.fields.Dict(pilo.fields.String(), sub, default=7), {'k': d}, {'k': alone}),
        'group': lambda: (pilo.fields.Group(('g', sub)), None, [('g', None, alone)])}.get(inside, lambda: (sub.options(default=choice('default', (7, pilo.NONE, None, pilo.NOT_SET))) if not flag('optional') else sub.options(optional=True), d, alone))()
    form, errors = mapped(form_of(f=f), {'g': d} if inside == 'group' else {'f': data})
    if alone_errors:
        cover('error')
        check(len(errors) == len(alone_errors), 'errors')
        return
    cover('held' if alone else 'empty')
    check(not errors and 'f' in form and same(form['f'], want), 'the nested form')


@harness(cases=[(w,) for w in ('list', 'tuple', 'dict', 'group', 'beside', 'again', 'poly')], covers=['error', 'clean'])
def after_another(where):
    """What one nested form holds does not depend on those mapped by its field before, in error or not."""
    base = form_of(t=pilo.fields.Type.abstract())
    fields = dict(x=pilo.fields.Int(optional=True), y=pilo.fields.Int(max_value=5))
    if where == 'poly':
        inner = subtype(base, 'Inner', t=pilo.fields.Type.instance('one'), **fields)
        sub = pilo.fields.PolymorphicSubForm(base.t, unmapped='capture')
    else:
        inner = form_of(**fields)
        sub = pilo.fields.SubForm(inner, unmapped='capture' if flag('capture') else 'ignore')
    one = data_of(x=value('x0', ('absent', 'int'), lo=0, hi=9), y=int_('y0', 0, 9))
    two = data_of(x=value('x1', ('absent', 'int'), lo=0, hi=9), y=int_('y1', 0, 9))
    if flag('more'):
        one['z'] = 4
    if where == 'poly':
        one['t'] = two['t'] = 'one'
    alone = []
    for d in (one, two):
        form, errors = inner(), None
        errors = form.map(d, unmapped=sub.unmapped)
        alone.append(ABSENT if errors else dict(form))
    cover('error' if ABSENT in [a for a in alone if a is ABSENT] else 'clean')
    if where in ('list', 'poly'):
        form, _ = mapped(form_of(f=pilo.fields.List(sub)), {'f': [one, two]})
        got = [dict(x) for x in form['f']]
    elif where == 'tuple':
        form, _ = mapped(form_of(f=pilo.fields.Tuple(sub, sub)), {'f': [one, two]})
        got = [dict(x) for x in form['f']]
    elif where == 'dict':
        form, _ = mapped(form_of(f=pilo.fields.Dict(pilo.fields.String(), sub)), {'f': {'a': one, 'b': two}})
        got = [dict(form['f'][k]) for k in 'ab' if k in form['f']]
    elif where == 'group':
        form, _ = mapped(form_of(f=pilo.fields.Group((re.compile('[ab]'), sub))), {'a': one, 'b': two})
        got = [dict(x) for _, _, x in form['f']]
    elif where == 'beside':
        form, _ = mapped(form_of(f=sub, g=pilo.fields.SubForm(inner, unmapped=sub.unmapped)), {'f': one, 'g': two})
        got = [dict(form[k]) for k in 'fg' if k in form]
    else:
        cls = form_of(f=sub)
        got = [dict(form['f']) for form, _ in [mapped(cls, {'f': one}), mapped(cls, {'f': two})] if 'f' in form]
    check(same(got, [a for a in alone if a is not ABSENT]), 'values of the nested forms')
