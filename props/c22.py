"""C22: transformations of forms."""
import pilo
from .common import *

BOUNDS = {'forms': 'nested up to three deep, also in lists and tuples; every field present or absent, every field '
          'tagged or not', 'values': 'integers -9..9, null, texts of 0..2 characters', 'entries': 'fields and '
          'one entry that is no field',
          'sizes': 'forms of 30 fields, 7 deep, and of 40 nested forms, one value any'}
OUTSIDE = ['forms held in dict fields (not transformed)']


def types():
    leaf = form_of(p=pilo.fields.Int(), q=pilo.fields.Field(default=None))
    mid = form_of(m=pilo.fields.SubForm(leaf), n=pilo.fields.Int())
    top = form_of(a=pilo.fields.Int(), f=pilo.fields.SubForm(mid), b=pilo.fields.Field(), l=pilo.fields.List(leaf), t=pilo.fields.Tuple((pilo.fields.SubForm(leaf), pilo.fields.Int())),
                  c=pilo.fields.String())
    return leaf, mid, top


def fill(which=('a', 'f', 'm', 'p', 'q', 'n', 'b', 'l', 't', 'c'), always=()):
    """A form with any fields present; and a plain copy of what it holds."""
    leaf, mid, top = types()

    def has(name, i=''):
        return name in always or (flag(name + i) if name in which else False)

    def make_leaf(i):
        x = leaf()
        if has('p', i):
            x['p'] = int_('vp' + i, -9, 9)
        if has('q', i):
            x['q'] = value('vq' + i, ('none', 'int'))
        return x
    t = top()
    if has('a'):
        t['a'] = int_('va', -9, 9)
    if has('f'):
        t['f'] = mid()
        if has('m'):
            t['f']['m'] = make_leaf('')
        if has('n'):
            t['f']['n'] = int_('vn', -9, 9)
    if has('b'):
        t['b'] = value('vb', ('none', 'int', 'str'), cap=2)
    if has('l'):
        t['l'] = [make_leaf('0'), make_leaf('1')][:pick('nl', 3)]
    if has('t'):
        t['t'] = (make_leaf('t'), int_('vt', -9, 9))
    if has('c'):
        t['c'] = str_('vc', 2, 'ab')
    return t, (leaf, mid, top)


def plain(v):
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


def listed(v):
    """As plain, tuples as lists."""
    if isinstance(v, dict):
        return dict((k, listed(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [listed(x) for x in v]
    return v


def ref_munge(form, func):
    out = {}
    for f in type(form).fields:
        v = func(f, form[f.name] if f.name in form else ABSENT)
        if v is ABSENT:
            continue
        if isinstance(v, pilo.Form):
            v = ref_munge(v, func)
        elif isinstance(v, (list, tuple)):
            v = [ref_munge(x, func) if isinstance(x, pilo.Form) else x for x in v]
        out[f.name] = v
    return out


SETS = [('a', 'f', 'm', 'p', 'n'), ('l', 'p', 'q', 'c'), ('t', 'p', 'b'), ('f', 'm', 'p', 'l', 'a')]


@harness(cases=[(s,) for s in SETS], covers=['some', 'dropped'])
def munge(which):
    """munge gives each field, present or not, to the function, in order, and holds what it gives."""
    form, _ = fill(which)
    form['extra'] = 5
    before = plain(form)
    calls, want_calls = [], []
    drop = choice('drop', ('a', 'p', 'f', 'l', None))
    add = choice('add', (None, 'b', 'n'))

    def change(field, v):
        if field.name == drop:
            return ABSENT
        if v is ABSENT:
            return 7 if field.name == add else ABSENT
        if v is not None and field.name in ('a', 'p', 'n'):
            return v + 1
        return v

    def func(new, field, v):
        check(isinstance(new, pilo.Form) and any(x is field for x in type(new).fields), 'the form being made')
        calls.append((field, v))
        return change(field, v)

    def ref_func(field, v):
        want_calls.append((field, v))
        return change(field, v)
    got = form.munge(func)
    want = ref_munge(form, ref_func)
    observe(dict(got))
    check(type(got) is type(form) and got is not form, 'a new form of the type')
    check(len(calls) == len(want_calls) and all(f is g and x is y for (f, x), (g, y) in zip(calls, want_calls)), 'calls')
    check(same(listed(got), listed(want)), 'values')
    check(same(plain(form), before), 'the form has changed')
    for n in ('f', 'l'):
        if n in got and n in form:
            x, y = (got['f'], form['f']) if n == 'f' else (got['l'], form['l'])
            check(x is not y, 'a nested form is shared')
            check(type(x) is type(y) or n == 'l', 'type of a nested form')
            for p, q in zip(x, y) if n == 'l' else ():
                check(p is not q and type(p) is type(q), 'a nested form is shared')
    cover('some' if got else 'dropped')


@harness(cases=[(False,), (True,)], covers=['some', 'none'])
def filter(inv):
    """filter keeps the fields with (or without) one of the tags, at every level."""
    form, (leaf, mid, top) = fill(('a', 'm'), ('f', 'p', 'n'))
    tags = dict((n, choice('tag ' + n, ((), ('x',), ('x', 'y')) if n in 'fa' else ((), ('y',)))) for n in ('a', 'f', 'm', 'p', 'n', 'b'))
    for cls in (leaf, mid, top):
        for f in cls.fields:
            f.tag(*tags.get(f.name, ()))
    by = choice('by', (('x',), ('y',), ('x', 'y'), ()))
    before = plain(form)
    got = form.filter(*by, inv=inv) if inv else form.filter(*by)
    observe(dict(got))

    def keep(x):
        out = {}
        for k, v in x.items():
            if bool(set(by) & set(tags.get(k, ()))) != inv:
                out[k] = keep(v) if isinstance(v, dict) else v
        return out
    check(same(plain(got), keep(before)), 'values')
    check(same(plain(form), before), 'the form has changed')
    cover('some' if got else 'none')


@harness(cases=[(s,) for s in SETS], covers=['some', 'none'])
def flatten(which):
    """flatten lists every value held by a field, with the fields leading to it, in order."""
    form, _ = fill(which)
    form['extra'] = 5
    before = plain(form)
    got = list(form.flatten())
    want = []

    def walk(x, path):
        for f in type(x).fields:
            if f.name not in x:
                continue
            v = x[f.name]
            if isinstance(v, pilo.Form):
                walk(v, path + [f])
            else:
                want.append((path + [f], v))
    walk(form, [])
    check(len(got) == len(want), 'number of values')
    for (p, v), (wp, w) in zip(got, want):
        check(len(p) == len(wp) and all(x is y for x, y in zip(p, wp)), 'fields leading to a value')
        check(v is w, 'value')
    check(same(plain(form), before), 'the form has changed')
    # two at once, and one left early
    one, two = form.flatten(), form.flatten()
    pairs = list(zip(one, two))
    check(all(len(a[0]) == len(b[0]) and a[1] is b[1] for a, b in pairs) and len(pairs) == len(want), 'two at once')
    for x in form.flatten():
        break
    check(len(list(form.flatten())) == len(want), 'again')
    cover('some' if got else 'none')


@harness(cases=[(SETS[0],), (SETS[1],)], covers=['some', 'none'])
def copy(which):
    """A copy is equal, of the same type, and independent."""
    form, _ = fill(which)
    extra = value('extra', ('absent', 'int', 'none', 'str'), cap=1)
    if extra is not ABSENT:
        form['extra'] = extra
    if flag('own'):
        form['items'] = None
    before = plain(form)
    got = form.copy()
    observe(dict(got))
    check(type(got) is type(form) and got is not form, 'a new form of the type')
    check(same(plain(got), before), 'values')
    got['a'] = 99
    got['other'] = 1
    check(same(plain(form), before), 'the form has changed')
    cover('some' if before else 'none')


@harness(covers=['held', 'default', 'not'])
def has():
    """has tells whether a field has a value, by name or by field."""
    dflt = choice('dflt', (UNSET, 4, None, ABSENT))
    x = value('x', ('absent', 'int', 'str'), cap=1, alphabet='1a')
    cls = form_type(form_node(('a', Node('int', default=1)), ('x', Node('int', default=dflt))))
    form = cls()
    held = False
    if flag('mapped'):
        form.map(data_of(x=x))
        held = 'x' in form and form['x'] is not None
        if 'x' in form and form['x'] is None:
            return
    how = choice('how', ('name', 'field'))
    got = form.has('x' if how == 'name' else cls.x)
    if held:
        cover('held')
        check(got is True, 'a field with a value')
    elif dflt == 4:
        cover('default')
        check(got is True, 'a field with a default')
    else:
        cover('not')
        check(got is False, 'a field without a value')
    check(form.has('a') is True, 'the other field')
    check(form.has('nothing') is False, 'what is no field')
    form['nothing'] = 1
    check(form.has('nothing') is True, 'an entry that is no field')
    try:
        form.has(3)
        fail('neither a name nor a field')
    except TypeError:
        pass


@harness(covers=['mapped'])
def of_mapped():
    """The transformations of a form that was mapped."""
    inner = form_of(p=pilo.fields.Int().tag('x'), q=pilo.fields.Int(default=2))
    cls = form_of(f=pilo.fields.SubForm(inner).tag('x'), a=pilo.fields.Int(default=None).tag('x'), b=pilo.fields.Int())
    data = dict(f=data_of(p=value('p', ('absent', 'int'))), b=int_('b', -9, 9), **data_of(a=value('a', ('absent', 'int'))))
    form, errors = mapped(cls, data)
    cover('mapped')
    a = form['a']
    if errors:
        check('f' not in form, 'a form in error')
        check(same(plain(form.filter('x')), {'a': a}), 'filter')
        check([[f.name for f in p] for p, v in form.flatten()] == [['a'], ['b']], 'flatten')
    else:
        check(same(plain(form.filter('x')), {'a': a, 'f': {'p': form['f']['p']}}), 'filter')
        check([[f.name for f in p] for p, v in form.flatten()] == [['f', 'p'], ['f', 'q'], ['a'], ['b']], 'flatten')
        check(same(plain(form.copy()), plain(form)), 'copy')
        check(same(plain(form.munge(lambda new, f, v: v)), plain(form)), 'munge')


def held(cls, values):
    """A form that holds the values."""
    form = cls()
    for k, v in values.items():
        form[k] = v
    return form


def bushy(n, depth):
    """Types of forms with n fields, nested, and a form of each with every field."""
    cls = type('L', (pilo.Form,), dict(('f%d' % i, pilo.fields.Int(default=i).tag('even' if i % 2 == 0 else 'odd')) for i in range(n)))
    form = held(cls, dict(('f%d' % i, i) for i in range(n)))
    leaf = form
    for d in range(depth):
        if d % 2:
            cls = type('G', (pilo.Form,), dict(g=pilo.fields.SubForm(cls).tag('even'), h=pilo.fields.Int().tag('odd')))
            form = held(cls, dict(g=form, h=d))
        else:
            cls = type('S', (pilo.Form,), dict(l=pilo.fields.List(cls).tag('even'), h=pilo.fields.Int().tag('odd')))
            form = held(cls, dict(l=[form], h=d))
    return form, leaf


@harness(cases=[(15, 1), (4, 7), (30, 2)], covers=['done'])
def large(n, depth):
    """The transformations of wide and deep forms."""
    form, leaf = bushy(n, depth)
    at = choice('at', (0, n // 2, n - 1))
    x = value('x', ('absent', 'none', 'int'))
    if x is ABSENT:
        del leaf['f%d' % at]
    else:
        leaf['f%d' % at] = x
    before = plain(form)
    drop = choice('drop', (None, 'f0', 'f%d' % (n - 1)))

    def change(field, v):
        if field.name == drop:
            return ABSENT
        return 7 if v is ABSENT else v + 1 if v is not None and field.name.startswith('f') else v
    got = form.munge(lambda new, field, v: change(field, v))
    check(same(listed(got), listed(ref_munge(form, change))), 'munge')
    check(same(plain(form), before), 'the form has changed')
    by = choice('by', ('even', 'odd'))

    def keep(f, v):
        return v if f.has_tag(by) else ABSENT
    got = form.filter(by)
    want = {}
    for f in type(form).fields:
        if f.name in form and f.has_tag(by):
            want[f.name] = plain(form[f.name].filter(by)) if isinstance(form[f.name], pilo.Form) else None
    check(sorted(got) == sorted(want) and all(same(plain(got[k]), want[k]) for k in want if want[k] is not None), 'filter')
    values = [(['.'.join(f.name for f in p)], v) for p, v in form.flatten()]
    out = []

    def walk(y, path):
        for f in type(y).fields:
            if f.name in y:
                if isinstance(y[f.name], pilo.Form):
                    walk(y[f.name], path + [f.name])
                else:
                    out.append((['.'.join(path + [f.name])], y[f.name]))
    walk(form, [])
    check(len(values) == len(out) and all(p == q and v is w for (p, v), (q, w) in zip(values, out)), 'flatten')
    check(same(plain(form.copy()), before), 'copy')
    cover('done')


@harness(cases=[(7,), (40,)], covers=['done'])
def many_nested(n):
    """Many forms in a list and in a tuple."""
    leaf = form_of(p=pilo.fields.Int(), q=pilo.fields.Int(default=None))
    cls = form_of(l=pilo.fields.List(leaf), t=pilo.fields.Tuple(tuple(pilo.fields.SubForm(leaf) for _ in range(n))))
    at = choice('at', (0, n // 2, n - 1))
    x = value('x', ('absent', 'none', 'int'))
    make = lambda i: held(leaf, data_of(p=x) if i == at else {'p': i})
    form = held(cls, dict(l=[make(i) for i in range(n)], t=tuple(make(i) for i in range(n))))
    before = plain(form)

    def change(field, v):
        return v if v is ABSENT or v is None or field.name != 'p' else v + 1
    got = form.munge(lambda new, field, v: change(field, v))
    check(same(listed(got), listed(ref_munge(form, change))), 'munge')
    check(all(p is not q and type(p) is leaf for k in 'lt' for p, q in zip(got[k], form[k])), 'a nested form is shared')
    check(same(plain(form), before), 'the form has changed')
    cover('done')
