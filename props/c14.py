"""C14: lists and tuples."""
import pilo
from .common import *

BOUNDS = {'lists': '0..3 items (0..2 when nested)', 'items': 'null, absent members, integers -20..120, texts of 0..1 '
          'characters, lists, mappings', 'limits': 'minimum and maximum absent or any integer 0..4',
          'sizes': 'lists of 12, 40 and 130 items, one any'}
OUTSIDE = ['long lists with more than one item that is any', 'texts given where a sequence is wanted']

ITEMS = ('none', 'int', 'bool', 'str')


def length_field(item, how, lo, hi):
    L = pilo.fields.List
    if how == 'keywords':
        return L(item, min_length=lo, max_length=hi)
    if how == 'length':
        return L(item, length=(lo, hi))
    if how == 'range':
        return L(item).range(lo, hi)
    f = L(field=item)
    if lo is not None:
        f = f.min(lo)
    if hi is not None:
        f = f.max(hi)
    return f


@harness(cases=[(h, a, b) for h in ('keywords', 'length', 'range', 'calls') for a in (0, 1) for b in (0, 1) if a or b],
         covers=['kept', 'rejected', 'bad item'])
def lengths(how, has_lo, has_hi):
    """Limits apply to the items that are kept."""
    lo = int_('lo', 0, 4) if has_lo else None
    hi = int_('hi', 0, 4) if has_hi else None
    bound = int_('bound', 0, 9)
    xs = [int_('x%d' % i, 0, 9) for i in range(pick('n', 4))]
    f = length_field(pilo.fields.Int(min_value=bound), how, lo, hi)
    form, errors = outcome(form_of(f=f), {'f': xs})
    kept = [x for x in xs if x >= bound]
    want = [('Invalid', 'f[%d]' % i) for i, x in enumerate(xs) if x < bound]
    if want:
        cover('bad item')
    ok = and_(lo is None or lo <= len(kept), hi is None or len(kept) <= hi)
    if 'f' in form:
        cover('kept')
        check(ok, 'a list outside the limits was accepted')
        check(same(form['f'], kept), 'not the valid items in order')
        check(errors_of(errors) == want, 'errors of the items')
    else:
        cover('rejected')
        check(not_(ok), 'a list within the limits was rejected')
        check(errors_of(errors) == want + [('Invalid', 'f')], 'errors of the items, and one of the list')


@harness(cases=[(k, t) for k in ('int', 'str', 'default', 'ignore', 'nonnull', 'any') for t in (0, 1)],
         covers=['clean', 'error'])
def items(kind, as_tuple):
    """Items are mapped one by one, in order; those without a value are left out."""
    node = {'int': lambda: Node('int', min_value=int_('lo', -3, 3)), 'str': lambda: Node('str', min_length=1),
            'default': lambda: Node('int', default=7, ignore=[int_('i', 0, 3)]),
            'ignore': lambda: Node('int', default=ABSENT, ignore=[int_('i', 0, 3)]),
            'nonnull': lambda: Node('int', nullable=False), 'any': lambda: Node('any')}[kind]()
    xs = [value('x%d' % i, ITEMS[:3] if i else ITEMS, cap=1, alphabet='1a') for i in range(pick('n', 4))]
    form, errors, want = compare(form_node(('f', Node('list', item=node)), ('g', Node('any', default=0))),
                                 {'f': tuple(xs) if as_tuple else xs})
    cover('error' if errors else 'clean')
    if 'f' in form:
        check(isinstance(form['f'], list), 'not a list')


@harness(covers=['error', 'clean'])
def nested():
    """Lists of lists, of forms, of mappings."""
    lo = int_('lo', -3, 3)
    how = choice('how', ('list', 'form', 'dict', 'tuple'))
    inner = {'list': Node('list', item=Node('int', min_value=lo), max_length=1),
             'form': Node('form', fields=[('k', Node('int', min_value=lo)), ('m', Node('int', default=ABSENT))]),
             'dict': Node('dict', key=Node('str'), item=Node('int', min_value=lo)),
             'tuple': Node('tuple', items=[Node('int', min_value=lo), Node('int')])}[how]
    xs = []
    for i in range(pick('n', 3)):
        k = choice('k%d' % i, ('list', 'dict', 'none', 'int'))
        if k == 'list':
            xs.append([int_('y%d' % i, -4, 4) for _ in range(pick('m%d' % i, 3))])
        elif k == 'dict':
            xs.append({'k': int_('y%d' % i, -4, 4)})
        else:
            xs.append(None if k == 'none' else int_('y%d' % i, -4, 4))
    form, errors, want = compare(form_node(('f', Node('list', item=inner, min_length=1))), {'f': xs})
    cover('error' if errors else 'clean')


@harness(covers=['one', 'many', 'bad'])
def single():
    """allow_field: a value that is no sequence counts as the only item."""
    hi = int_('hi', 0, 9)
    lo_n = int_('least', 0, 2)
    x = value('x', ('int', 'list', 'bool', 'dict', 'none'), lo=0, hi=9)
    f = pilo.fields.List(pilo.fields.Int(max_value=hi), allow_field=True, min_length=lo_n)
    form, errors = outcome(form_of(f=f), {'f': x})
    if isinstance(x, list):
        ok = x[0] <= hi
        kept = x if ok else []
        cover('many')
        check(errors_of(errors)[:1] == ([] if ok else [('Invalid', 'f[0]')])
              or (ok and lo_n > 1), 'errors of the items')
        if 'f' in form:
            check(same(form['f'], kept) and lo_n <= len(kept), 'items')
        else:
            check(lo_n > len(kept), 'a list within the limits was rejected')
    elif x is None:
        check(form == {'f': None} and not errors, 'null')
    elif isinstance(x, int) and not isinstance(x, bool) and x <= hi:
        if lo_n > 1:
            check(errors_of(errors) == [('Invalid', 'f')], 'too short')
        else:
            cover('one')
            check(not errors and same(form['f'], [x]), 'not the list of the single item')
    else:
        cover('bad')
        check(errors_of(errors) == [('Invalid', 'f')] and 'f' not in form, 'a bad single item is invalid')


@harness(covers=['rejected'])
def strict():
    """Without allow_field anything that is no sequence is invalid."""
    x = value('x', ('int', 'bool', 'float', 'dict'))
    f = pilo.fields.List(pilo.fields.Field()) if flag('list') else pilo.fields.Tuple(pilo.fields.Field(), pilo.fields.Int())
    form, errors = outcome(form_of(f=f), {'f': x})
    cover('rejected')
    check(errors_of(errors) == [('Invalid', 'f')] and 'f' not in form, 'Invalid expected')


@harness(cases=[(1,), (2,), (3,)], covers=['clean', 'error', 'length'])
def tuples(n):
    """Tuples have exactly the items declared, each mapped by its own field."""
    lo = int_('lo', -3, 3)
    nodes = [Node('int', min_value=lo), Node('str'), Node('any', nullable=False)][:n]
    xs = [value('x%d' % i, ('none', 'int', 'str'), cap=1, alphabet='1a') for i in range(pick('n', n + 2))]
    form, errors, want = compare(form_node(('f', Node('tuple', items=nodes))), {'f': xs if flag('list') else tuple(xs)})
    if len(xs) != n:
        cover('length')
        check(errors_of(errors) == [('Invalid', 'f')], 'one Invalid for another length')
    else:
        cover('error' if errors else 'clean')
        if not errors:
            check(isinstance(form['f'], tuple) and len(form['f']) == n, 'not a tuple of the length')


def refused(make, error):
    try:
        make()
    except error:
        return True
    return False


@harness(covers=['done', 'error'])
def declared():
    """Lists and tuples are declared by their item fields, and a key before or (lists) after them."""
    lo, x, y = int_('lo', -3, 3), int_('x', -5, 5), value('y', ('absent', 'int'), lo=-5, hi=5)
    item = lambda: pilo.fields.Int(min_value=lo)
    inner = form_of(k=item())
    key = choice('key', ('f', 'l'))
    how = choice('how', ('key first', 'key last', 'named', 'form first', 'form last', 'tuple', 'tuple list', 'tuple items', 'one'))
    f = {'key first': lambda: pilo.fields.List(key, item()), 'key last': lambda: pilo.fields.List(item(), key),
         'named': lambda: pilo.fields.List(key, field=item()), 'form first': lambda: pilo.fields.List(inner, key),
         'form last': lambda: pilo.fields.List(key, inner), 'tuple': lambda: pilo.fields.Tuple(key, (item(), pilo.fields.Int(default=9))),
         'tuple list': lambda: pilo.fields.Tuple(key, [item(), pilo.fields.Int(default=9)]),
         'tuple items': lambda: pilo.fields.Tuple(key, item(), pilo.fields.Int(default=9)),
         'one': lambda: pilo.fields.Tuple(key, [item()])}[how]()
    forms = how.startswith('form')
    row = [{'k': x} if forms else x] + ([y] if y is not ABSENT and not forms and how != 'one' else [])
    form, errors = outcome(form_of(f=f), {key: row, 'z': [99]})
    fixed = {'one': 1}.get(how, 2 if how.startswith('tuple') else None)
    if fixed is not None and len(row) != fixed:
        cover('error')
        check(errors_of(errors) == [('Invalid', key)] and not form, 'Invalid for another length')
        return
    low = [('Invalid', '%s[%d]%s' % (key, i, '.k' if forms else '')) for i, v in enumerate((x, y)[:len(row)]) if v < lo and (i == 0 or fixed is None)]
    check(errors_of(errors) == low, 'errors of the items')
    cover('error' if low else 'done')
    if not low:
        check(same([dict(v) for v in form['f']] if forms else list(form['f']), row), 'items')
        check(type(form['f']) is (list if fixed is None else tuple), 'type of the value')


@harness(covers=['refused'])
def misdeclared():
    """What is no item field is refused."""
    I = pilo.fields.Int
    bad = choice('bad', (lambda: pilo.fields.List(), lambda: pilo.fields.List('f'), lambda: pilo.fields.List(int), lambda: pilo.fields.List('f', 'g')))
    check(refused(bad, Exception), 'a list without item field')
    wrong = choice('wrong', (lambda: pilo.fields.Tuple('f', I()), lambda: pilo.fields.Tuple('f', (I(), 3)), lambda: pilo.fields.Tuple(I(), 'f')))
    check(refused(wrong, Exception), 'a tuple of what is no field')
    cover('refused')


@harness(cases=[(k,) for k in ('list', 'tuple', 'dict')], covers=['null', 'rejected', 'default'])
def nulls(kind):
    """A null container is kept if it may be null; limits are not asked of it."""
    I = pilo.fields.Int
    nullable = flag('nullable')
    f = {'list': lambda: pilo.fields.List(I(), min_length=2, max_length=3, nullable=nullable, default=None if nullable else [1]),
         'tuple': lambda: pilo.fields.Tuple((I(),), nullable=nullable, default=None if nullable else [1]),
         'dict': lambda: pilo.fields.Dict(I(), I(), required_keys=['a'], nullable=nullable, default=None if nullable else [1])}[kind]()
    x = value('x', ('absent', 'none'))
    form, errors = outcome(form_of(f=f), data_of(f=x))
    if x is ABSENT:
        cover('default')
        if nullable:
            check(not errors and form == {'f': None}, 'the default null')
    elif nullable:
        cover('null')
        check(not errors and form == {'f': None}, 'null')
    else:
        cover('rejected')
        check(errors_of(errors) == [('Invalid', 'f')] and not form, 'null was accepted')


@harness(cases=[(12,), (40,), (130,)], covers=['clean', 'error', 'length'])
def many(n):
    """Long lists and tuples, and their limits."""
    lo, k = int_('lo', -1, 1), int_('k', n - 1, n + 1)
    x, y, at = int_('x', -1, 1), int_('y', -1, 1), choice('at', (0, 9, n // 2, n - 1))
    xs = [y] * n
    xs[at] = x
    how = choice('how', ('max', 'min', 'none', 'tuple'))
    item = Node('int', min_value=lo)
    if how == 'tuple':
        m = choice('m', (n - 1, n, n + 1))
        node_ = Node('tuple', items=[item] * m)
    else:
        node_ = Node('list', item=item, **{'max': {'max_length': k}, 'min': {'min_length': k}, 'none': {}}[how])
    form, errors, want = compare(form_node(('f', node_)), {'f': xs})
    cover('length' if any(text(e.path) == 'f' for e in errors) else 'error' if errors else 'clean')


@harness(covers=['empty', 'limit'])
def falsy_items():
    """Items that are empty, zero or false are items like any other."""
    n = int_('n', 0, 3)
    v = choice('v', ('list', 'text', 'zero', 'no', 'none', 'dict', 'tuple'))
    v = {'list': [], 'text': '', 'zero': n - n, 'no': n > 3, 'none': None, 'dict': {}, 'tuple': ()}[v]
    x = choice('x', (5, 'w'))
    item = pilo.fields.Field()
    how = choice('how', ('munge', 'parse', 'given'))
    if how == 'munge':
        item.munge.attach(item)(lambda self, value: v)
    elif how == 'parse':
        item.parse.attach(item)(lambda self, path: v)
    many_ = flag('many') or how == 'given'
    least = int_('least', 0, 3)
    f = pilo.fields.List(item, allow_field=True, min_length=least)
    form, errors = outcome(form_of(f=f), {'f': [x if how != 'given' else v] * 2 if many_ else x})
    want = [v] * (2 if many_ else 1)
    if least > len(want):
        cover('limit')
        check(errors_of(errors) == [('Invalid', 'f')] and 'f' not in form, 'too short')
    else:
        cover('empty')
        check(not errors and same(form['f'], want), 'items')
