"""C20: tags, reset and mapping again."""
import pilo
from pilo.context import ctx
from .common import *

BOUNDS = {'forms': 'four fields with the tags x, y or none, one of them a nested form with tagged fields',
          'history': 'up to two mappings (three in thorough) of different data with any tags and reset',
          'values': 'absent, null, integers -9..9, texts of 0..1 characters', 'tag names': 'x, y, and one no field has',
          'sizes': '12 fields; histories of 25 mappings, one of them of any data'}
OUTSIDE = ['long histories with more than one mapping of any data']

TAGS = (None, ['x'], ['y'], ['x', 'y'], set(['x']), ['none'], [])


def nodes():
    inner = [('p', Node('int', tags=('x',))), ('q', Node('int', default=3, tags=('y',)))]
    return [('a', Node('int', tags=('x',))), ('b', Node('int', min_value=0, tags=('x', 'y'))),
            ('c', Node('int', default=7)), ('f', Node('form', fields=inner, default=ABSENT, tags=('y',)))]


def pairs(fields):
    return form_node(*fields)


class Model(object):

    def __init__(self, fields):
        self.fields, self.state = fields, {}

    def map(self, data, tags, reset, everywhere=None):
        """The errors of one mapping."""
        use = set(tags or everywhere or ())
        ref = Ref()
        for name, node in self.fields:
            if use and not use & set(node.tags):
                continue
            if reset:
                self.state.pop(name, None)
            if node.kind == 'form' and everywhere:
                sub = Node('form', default=node.default, fields=[(n, x) for n, x in node.fields if set(everywhere) & set(x.tags)])
                v = ref.field(sub, name, data, ())
            else:
                v = ref.field(node, name, data, ())
            if not is_nothing(v):
                self.state[name] = v
        return ref.errors


def values(i, kinds=('absent', 'none', 'int')):
    d = data_of(a=value('a' + i, kinds, lo=-9, hi=9), b=value('b' + i, ('absent', 'int'), lo=-9, hi=9), c=int_('c' + i, 0, 9))
    if flag('f' + i):
        d['f'] = data_of(p=value('p' + i, ('absent', 'int')))
    return d


@harness(covers=['some', 'all', 'error', 'clean'])
def tagged():
    """One mapping with tags."""
    fields = nodes()
    cls = form_type(pairs(fields))
    m = Model(fields)
    tags = choice('tags', TAGS)
    data = values('', ('absent', 'none', 'int', 'str'))
    form, errors = outcome(cls, data, tags=tags)
    want_errors = m.map(data, tags, False)
    agree(form, errors, m.state, want_errors)
    cover('some' if tags else 'all')
    cover('error' if errors else 'clean')


@harness(covers=['some', 'none'])
def everywhere():
    """Tags set in the context hold in nested forms too."""
    fields = nodes()
    cls = form_type(pairs(fields))
    m = Model(fields)
    tags = choice('tags', (['x'], ['y'], ['x', 'y'], set(['y']), ['none']))
    own = choice('own', (None, ['y']))
    data = values('')
    with ctx(tags=tags):
        form, errors = outcome(cls, data, tags=own)
    want_errors = m.map(data, own, False, tags)
    agree(form, errors, m.state, want_errors)
    cover('some' if form else 'none')
    form, errors = mapped(cls, data)
    m = Model(fields)
    want_errors = m.map(data, None, False)
    agree(form, errors, m.state, want_errors)


@harness(covers=['some', 'none'])
def innermost():
    """Of tags set around tags the innermost count."""
    fields = nodes()
    cls = form_type(pairs(fields))
    outer, inner = choice('outer', (['x'], ['none'], set(['y']), ['x', 'y'])), choice('inner', (['x'], ['y'], set(['x', 'y']), ['none']))
    data = values('')
    m, later = Model(fields), Model(fields)
    with ctx(tags=outer):
        with ctx(tags=inner):
            form, errors = outcome(cls, data)
        agree(form, errors, m.state, m.map(data, None, False, inner))
        cover('some' if form else 'none')
        form, errors = outcome(cls, data)
        want = later.map(data, None, False, outer)
    agree(form, errors, later.state, want)


@harness(cases=[(2, 'tags'), (2, 'plain')], thorough=[(2, 'tags'), (3, 'plain')], covers=['reset', 'kept', 'stale'])
def histories(n, what):
    """Mapping a form again: mapped fields are refreshed, others stay."""
    fields = nodes()[:3]
    cls = form_type(pairs(fields))
    m, form = Model(fields), cls()
    for i in range(n):
        i = str(i)
        tags = choice('tags' + i, (None, ['x'], ['y'])) if what == 'tags' else None
        reset = flag('reset' + i)
        data = data_of(a=value('a' + i, ('absent', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9), b=value('b' + i, ('absent', 'int'), lo=-9, hi=9))
        if flag('c' + i):
            data['c'] = int_('c' + i, 0, 9)
        before = dict(m.state)
        errors = list(form.map(data, tags=tags, reset=reset))
        want_errors = m.map(data, tags, reset)
        agree(form, errors, m.state, want_errors)
        if reset:
            cover('reset')
        elif before:
            cover('kept')
            if 'a' in before and 'a' not in data:
                cover('stale')


@harness(covers=['own', 'captured'])
def set_fields():
    """Values set by hand are kept until their field is mapped or reset; other entries always."""
    fields = nodes()[:3]
    cls = form_type(pairs(fields))
    form, m = cls(), Model(fields)
    v = int_('v', -9, 9)
    form.a = v
    form['own'] = v
    form.c = v
    m.state = {'a': v, 'own': v, 'c': v}
    if flag('delete'):
        del form.c
        del m.state['c']
    tags = choice('tags', (None, ['x'], ['y']))
    reset = flag('reset')
    a = value('a', ('absent', 'int'))
    data = data_of(a=a, b=value('b', ('absent', 'int'), lo=-9, hi=9))
    unmapped = choice('unmapped', ('ignore', 'capture'))
    if unmapped == 'capture':
        data['more'] = v
    errors = list(form.map(data, tags=tags, reset=reset, unmapped=unmapped))
    want_errors = m.map(data, tags, reset)
    if unmapped == 'capture':
        cover('captured')
        for k in data:
            if k not in m.state:
                m.state[k] = data[k]
    cover('own')
    agree(form, errors, m.state, want_errors)


@harness(covers=['with'])
def tag_values():
    """Tags are declared as names or with values, and add up."""
    f = pilo.fields.Int(default=1).tag('x').tag('y', z=5)
    check(f.has_tag('x') and f.has_tag('y') and f.has_tag('z') and not f.has_tag('w'), 'tags of a field')
    check(f.tags['z'] == 5, 'value of a tag')
    t = choice('tag', ('x', 'y', 'z', 'w'))
    form, errors = outcome(form_of(f=f, g=pilo.fields.Int(default=2)), {}, tags=[t])
    cover('with')
    check(not errors and form == ({} if t == 'w' else {'f': 1}), 'fields with the tag')


@harness(covers=['reset', 'kept'])
def reset_everywhere():
    """With tags set in the context a reset forgets what those tags map, and nothing else."""
    fields = nodes()[:3]
    cls = form_type(pairs(fields))
    m, form = Model(fields), cls()
    first = data_of(a=value('a0', ('absent', 'int'), lo=-9, hi=9), b=int_('b0', 0, 9), c=int_('c0', 0, 9))
    agree(form, list(form.map(first)), m.state, m.map(first, None, False))
    tags = choice('tags', (['x'], ['y'], ('y',), set(['x']), ['none']))
    own = choice('own', (None, ['y'], ['x'], ('x',)))
    reset = flag('reset')
    again = data_of(a=value('a1', ('absent', 'int'), lo=-9, hi=9), b=value('b1', ('absent', 'int'), lo=-9, hi=9))
    if isinstance(tags, tuple) or isinstance(own, tuple):
        tags, own = set(tags), None if own is None else set(own)
    with ctx(tags=tags):
        errors = list(form.map(again, tags=own, reset=reset))
    observe(dict(form))
    agree(form, errors, m.state, m.map(again, own, reset, tags))
    cover('reset' if reset else 'kept')


@harness(covers=['reset', 'kept'])
def nested_reset():
    """The form a nested field held is replaced, never mixed with what it holds now."""
    reset = flag('reset')
    inner = [('p', Node('int', default=ABSENT)), ('q', Node('int', default=3))]
    n = form_node(('f', Node('form', fields=inner, default=ABSENT)), ('l', Node('list', item=Node('form', fields=inner), default=ABSENT)))
    cls = form_type(n)
    cls.f.reset = flag('field')
    form, state = cls(), {}
    for i in '01':
        d = data_of(f=data_of(p=value('p' + i, ('absent', 'int')), q=value('q' + i, ('absent', 'int'))))
        if flag('none' + i):
            del d['f']
        if flag('l' + i):
            d['l'] = [data_of(p=value('lp' + i, ('absent', 'int')))]
        held = form.get('f')
        errors = list(form.map(d, reset=reset))
        ref = Ref()
        if reset:
            state = {}
        state.update(ref.form(n, d))
        agree(form, errors, state, ref.errors)
        if held is not None and 'f' in d:
            check(form['f'] is not held, 'a nested form is made anew')
        cover('reset' if reset else 'kept')


@harness(covers=['with', 'without'])
def tag_options():
    """The option takes one tag, several, or a map of them."""
    given = choice('given', ('x', ['x'], ['x', 'y'], ('y', 'x'), set(['x', 'z']), {'x': None}, {'x': 3, 'y': None}, [], {}))
    tags = [given] if isinstance(given, str) else list(given)
    f = pilo.fields.Int(tags=given) if flag('made') else pilo.fields.Int().options(tags=given)
    more = flag('more')
    if more:
        f.options(tags='w').tag('v')
        tags += ['w', 'v']
    check(sorted(f.tags) == sorted(tags), 'tags of the field')
    if isinstance(given, dict):
        check(all(f.tags[k] == given[k] for k in given), 'values of tags')
        f.tag('own')
        check('own' not in given, 'the map given was changed')
    t = choice('tag', ('x', 'y', 'w', 'q'))
    form, errors = outcome(form_of(f=f, g=pilo.fields.Int()), {'f': int_('v', 0, 9), 'g': 2}, tags=[t])
    cover('with' if t in tags else 'without')
    check(not errors and list(form) == (['f'] if t in tags else []), 'fields with the tag')


@harness(cases=[(5,), (12,)], covers=['some', 'none'])
def many(n):
    """Many fields, of which any have the tags asked for."""
    t = ['t%d' % i for i in range(n)]
    fields = [('f%d' % i, Node('int', max_value=5, default=choice('d', (UNSET, 3)) if i == n // 2 else ABSENT, tags=(t[i], 'even' if i % 2 == 0 else 'odd', t[i // 2]))) for i in range(n)]
    cls = form_type(pairs(fields))
    m = Model(fields)
    at = choice('at', (0, n // 2, n - 1))
    x = value('x', ('absent', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)
    data = dict(('f%d' % i, x if i == at else i % 7) for i in range(n) if not (i == at and x is ABSENT))
    tags = choice('tags', (None, ['even'], [t[0], t[n - 1]], t[:n // 3], ['odd', t[0], 'other'], t, ['other']))
    form, errors = outcome(cls, data, tags=tags)
    agree(form, errors, m.state, m.map(data, tags, False))
    cover('some' if form else 'none')


@harness(cases=[(8,), (25,)], covers=['reset', 'kept'])
def long_history(n):
    """A form mapped over and over; one of the mappings is of any data."""
    fields = nodes()[:3]
    cls = form_type(pairs(fields))
    m, form = Model(fields), cls()
    at = choice('at', (0, n // 2, n - 1))
    for i in range(n):
        if i == at:
            tags, reset = choice('tags', (None, ['x'], ['y'])), flag('reset')
            data = data_of(a=value('a', ('absent', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9), b=value('b', ('absent', 'int'), lo=-9, hi=9))
        else:
            tags, reset = (None, ['x'], None, ['y'], ['x', 'y'])[i % 5], i % 4 == 3
            data = [{'a': i, 'b': i, 'c': i}, {'b': i}, {'a': i, 'b': -1}, {}, {'a': 'q', 'c': i}, {'c': None, 'a': None}][i % 6]
        errors = list(form.map(data, tags=tags, reset=reset))
        agree(form, errors, m.state, m.map(data, tags, reset))
        if i == at:
            cover('reset' if reset else 'kept')
