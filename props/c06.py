"""C06: errors are collected, all of them, and fields do not affect each other."""
import pilo
from .common import *

BOUNDS = {'forms': 'two or three fields, each of any of the kinds listed (scalars with limits, list, tuple, mapping, '
                   'nested form; texts are not given to lists and tuples), required or with a default',
          'values': 'absent, null, booleans, integers -20..120, floats n/4 in that range, nan, infinities, texts of '
                    '0..1 characters of 0-9-. az, one-element lists and mappings',
          'sizes': '40 and 130 fields in error, any of them'}
OUTSIDE = ['forms of more than three fields, or nested deeper than two, with more than one value that is any']


def node(kind, i):
    lo = int_('lo%d' % i, -5, 5)
    if kind in ('int', 'float'):
        return Node(kind, min_value=lo)
    if kind == 'str':
        return Node(kind, min_length=1)
    if kind == 'list':
        return Node('list', item=Node('int', min_value=lo))
    if kind == 'tuple':
        return Node('tuple', items=[Node('int', min_value=lo)])
    if kind == 'dict':
        return Node('dict', key=Node('str'), item=Node('int', min_value=lo))
    if kind == 'form':
        return Node('form', fields=[('k', Node('int', min_value=lo)), ('m', Node('str'))])
    if kind == 'default':
        return Node('int', min_value=lo, default=lo)
    if kind == 'nonnull':
        return Node('any', nullable=False)
    return Node(kind)


def textual(kind):
    # what a text means to a field that wants a sequence is not specified
    return 'bool' if kind in ('list', 'tuple') else 'str'


def seen(form, errors):
    return dict(form), errors_of(errors)


TRIPLES = [('int', 'str', 'form'), ('form', 'list', 'int'), ('list', 'form', 'bool'), ('tuple', 'dict', 'nonnull'),
           ('dict', 'nonnull', 'form'), ('default', 'int', 'list'), ('bool', 'default', 'tuple')]
PAIRS = [('float', 'int'), ('str', 'form'), ('list', 'default'), ('form', 'form')]


@harness(cases=[(t,) for t in TRIPLES], covers=['none', 'one', 'two', 'three'])
def all_errors(kinds_):
    """Errors of every field, in the order of declaration; values of the rest."""
    names = ('c', 'a', 'b')
    nodes = [(names[i], node(k, i)) for i, k in enumerate(kinds_)]
    data = data_of(**dict((n, value(n, ('absent', 'none', 'int', textual(kinds_[i]), ('list', 'dict', 'list')[i]),
                                    cap=1)) for i, (n, _) in enumerate(nodes)))
    form, errors, want = compare(form_node(*nodes), data)
    cover(['none', 'one', 'two', 'three'][min(3, len(errors))])
    for n, _ in nodes:
        # a field has a value, a reported error or a silent absence, never a value and an error of its own
        own = [p for _, p in errors_of(errors) if p == n]
        check(not (own and n in form), 'a value although an error was reported')


@harness(cases=[(t,) for t in PAIRS], covers=['both', 'either', 'neither'])
def independent(kinds_):
    """What a field gives does not depend on the other fields or their data."""
    nodes = [('ab'[i], node(k, i)) for i, k in enumerate(kinds_)]
    data = data_of(**dict((n, value(n, [k for k in ANY if k != 'str' or textual(kinds_[i]) == k], cap=1))
                          for i, (n, _) in enumerate(nodes)))
    cls = form_type(form_node(*nodes))
    v, e = seen(*mapped(cls, data))
    alone_v, alone_e = {}, []
    for n, x in nodes:
        w, f = seen(*mapped(form_type(form_node((n, x))), data))
        alone_v.update(w)
        alone_e.append(f)
    cover('both' if all(alone_e) else 'either' if any(alone_e) else 'neither')
    check(same(v, alone_v), 'values depend on other fields')
    check(e == alone_e[0] + alone_e[1], 'errors depend on other fields')
    # the other way round
    swapped = form_type(form_node(*[(n, x) for n, x in reversed(nodes)]))
    v2, e2 = seen(*mapped(swapped, data))
    check(same(v2, v), 'values depend on the order of the fields')
    check(e2 == alone_e[1] + alone_e[0], 'errors are not in the order of declaration')


@harness(covers=['seen'])
def complete():
    """Every item of nested lists and forms that is bad is reported, at once."""
    lo = int_('lo', -3, 3)
    item = Node('form', fields=[('x', Node('int', min_value=lo)), ('y', Node('list', item=Node('int', max_value=3)))])
    data = {'f': [{'x': int_('x0', -4, 4), 'y': [int_('y00', 0, 5), int_('y01', 0, 5)]},
                  {'x': int_('x1', -4, 4), 'y': [int_('y10', 0, 5)]}],
            'g': int_('g', -4, 4)}
    form, errors, want = compare(form_node(('f', Node('list', item=item)), ('g', Node('int', min_value=lo))), data)
    cover('seen')


@harness(cases=[('int',), ('nonnull',), ('form',), ('str',), ('bool',)], covers=['all', 'clean'])
def shared(kind):
    """Fields that read the same key are each reported, although the errors read alike."""
    nodes = []
    for i, name in enumerate('cab'):
        n = node(kind, 0 if kind == 'int' else i)
        n.src = 'k'
        nodes.append((name, n))
    data = data_of(k=value('k', ('absent', 'none', 'bool', 'int', textual(kind), 'dict'), cap=1))
    cls = form_type(form_node(*nodes))
    form, errors, want = compare(form_node(*nodes), data, form_cls=cls)
    if errors:
        cover('all')
        by = [f for f in cls.fields if f.name not in form]
        if kind != 'form':
            check(len(by) == len(errors) and all(e.field is f for e, f in zip(errors, by)), 'fields of the errors')
    else:
        cover('clean')
    # and in nested forms
    form, errors, want = compare(form_node(('f', Node('form', fields=nodes)), ('g', Node('form', src='f', fields=nodes))),
                                 {'f': data})


@harness(cases=[(40,), (130,)], covers=['none', 'some', 'all'])
def many(n):
    """Forms and containers of many fields and items: each that is invalid is reported, and no other."""
    lo = int_('lo', 0, 1)
    where = choice('where', ('form', 'list', 'dict', 'nested'))
    # the first ones are any, the others as the first or the second
    some = [int_('v%d' % i, 0, 1) for i in range(3)]
    vals = [some[0] if i < n // 2 else some[1] for i in range(n - 1)] + [some[2]]
    item = lambda: Node('int', min_value=lo)
    if where == 'list':
        node_, data = form_node(('f', Node('list', item=item()))), {'f': vals}
    elif where == 'dict':
        node_, data = form_node(('f', Node('dict', key=Node('str'), item=item()))), {'f': dict(('k%d' % i, v) for i, v in enumerate(vals))}
    else:
        node_ = form_node(*[('k%d' % i, item()) for i in range(n)])
        data = dict(('k%d' % i, v) for i, v in enumerate(vals))
        if where == 'nested':
            node_, data = form_node(('f', node_), ('g', item())), {'f': data, 'g': some[0]}
    form, errors, want = compare(node_, data)
    bad = len([v for v in vals if v < lo])
    check(len([e for e in errors if e.field.name != 'g']) == bad, 'one error for each invalid value')
    cover('none' if not errors else 'all' if bad == n else 'some')


@harness(cases=[(w,) for w in ('plain', 'list', 'dict', 'form')], covers=['limit', 'hook', 'clean'])
def own_reports(where):
    """A value outside the limits is reported by them alone; the hooks after them are not asked."""
    hi, lim = int_('hi', 0, 5), int_('lim', 0, 5)
    kind = choice('kind', ('filter', 'validate', 'both'))
    asked = []

    def validate(self, value):
        asked.append(value)
        if value > lim:
            self.ctx.errors.invalid('too much')
            return False
        return True

    def filter(self, value):
        return value != 9
    f = pilo.fields.Int(max_value=hi, default=7)
    if kind != 'filter':
        f.validate.attach(f)(validate)
    if kind != 'validate':
        f.filter.attach(f)(filter)
    x = int_('x', -9, 9)
    f, data = {'plain': lambda: (f, x), 'list': lambda: (pilo.fields.List(f), [1, x]), 'dict': lambda: (pilo.fields.Dict(pilo.fields.String(), f), {'k': x}),
               'form': lambda: (pilo.fields.SubForm(form_of(k=f)), {'k': x})}[where]()
    form, errors = outcome(form_of(f=f, g=pilo.fields.Int()), {'f': data, 'g': 3})
    place = {'plain': 'f', 'list': 'f[1]', 'dict': 'f.k', 'form': 'f.k'}[where]
    first = kind != 'filter' and where == 'list' and 1 <= hi and 1 > lim
    want = [('Invalid', 'f[0]')] if (where == 'list' and 1 > hi) or first else []
    skipped = kind != 'validate' and x == 9
    if not skipped and x > hi:
        cover('limit')
        want.append(('Invalid', place))
        check(not asked or asked[-1] is not x or where == 'list', 'a hook was asked about a value outside the limits')
    elif not skipped and kind != 'filter' and x > lim:
        cover('hook')
        want.append(('Invalid', place))
    else:
        cover('clean')
    check(errors_of(errors) == want, 'one error for each value that is invalid')
    check(form['g'] == 3, 'the field beside it')
    got = [v for v in asked if not (where == 'list' and v is asked[0] and len(asked) > 1)]
    check(len(asked) <= (2 if where == 'list' else 1), 'a hook was asked twice')
