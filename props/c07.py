"""C07: collecting and raising agree."""
import pilo
from .common import *

BOUNDS = {'forms': 'two fields, the second a nested form, a list, a mapping or a scalar',
          'values': 'absent, null, integers -20..120, texts of 0..1 characters, one-element lists and mappings',
          'sizes': '40 fields and items, one in error anywhere'}
OUTSIDE = ['forms of more than two fields with more than one value that is any']

SECOND = {
    'int': lambda: Node('int', max_value=50),
    'form': lambda: Node('form', fields=[('k', Node('int', max_value=50)), ('m', Node('int'))]),
    'list': lambda: Node('list', item=Node('int', max_value=50), max_length=2),
    'tuple': lambda: Node('tuple', items=[Node('int'), Node('int')]),
    'dict': lambda: Node('dict', key=Node('str'), item=Node('int', max_value=50)),
}
FirstError = pilo.fields.FormError


def raised(fn):
    try:
        return fn(), None
    except FirstError as ex:
        return None, ex


def message(errors):
    """The documented text: one line per error."""
    return '\n* %s\n' % '\n* '.join('%s: %s' % (kind_of(e), text(e)) for e in errors)


def inputs():
    return data_of(a=value('a', ('absent', 'none', 'int', 'str'), cap=1),
                   b=value('b', ('absent', 'none', 'int', 'str', 'list', 'dict'), cap=1))


@harness(cases=[(k, o) for k in SECOND for o in (0, 1)], covers=['raised', 'returned'])
def raise_mode(second, swapped):
    """map(error='raise') raises exactly when there are errors to collect."""
    fields = [('a', Node('int', min_value=int_('lo', -5, 5))), ('b', SECOND[second]())]
    cls = form_type(form_node(*(fields[::-1] if swapped else fields)))
    data = inputs()
    form, errors = mapped(cls, data)
    target = cls()
    got, ex = raised(lambda: target.map(data, error='raise'))
    check((ex is not None) == bool(errors), 'raised without errors, or errors without raising')
    if ex is None:
        cover('returned')
        check(got is target, 'the form was not returned')
        check(same(dict(target), dict(form)), 'values differ')
        return
    cover('raised')
    mine = errors_of(ex.field_errors)
    check(0 < len(mine) <= len(errors), 'no errors in the exception')
    check(mine == errors_of(errors)[:len(mine)], 'raised errors are not the first of those collected')
    check(text(ex) == message(ex.field_errors), 'message of the exception')
    check(isinstance(ex, ValueError), 'not a ValueError')


@harness(cases=[(k,) for k in SECOND], covers=['raised', 'returned'])
def construct(second):
    """Form(data) raises FormError with all the errors, or holds the values."""
    cls = form_type(form_node(('a', Node('int', min_value=int_('lo', -5, 5))), ('b', SECOND[second]())))
    data = inputs()
    how = choice('how', ('positional', 'keywords', 'source'))
    if not data:
        how = 'positional'
    form, errors = mapped(cls, data)
    if how == 'positional':
        got, ex = raised(lambda: cls(data))
    elif how == 'keywords':
        got, ex = raised(lambda: cls(**data))
    else:
        got, ex = raised(lambda: cls(pilo.DefaultSource(data)))
    check((ex is not None) == bool(errors), 'raised without errors, or errors without raising')
    if ex is None:
        cover('returned')
        check(same(dict(got), dict(form)), 'values differ')
        check(type(got) is cls, 'not a form')
    else:
        cover('raised')
        check(errors_of(ex.field_errors) == errors_of(errors), 'not all the errors')
        check(text(ex) == message(errors), 'message of the exception')
        check([text(e) for e in ex.field_errors] == [text(e) for e in errors], 'messages of the errors')


@harness(covers=['raised', 'returned'])
def hooks():
    """Errors reported by hooks are raised and collected alike."""
    lim = int_('lim', 0, 5)

    class F(pilo.Form):
        a = pilo.fields.Int()
        b = pilo.fields.Int()

        @a.validate
        def a(self, value):
            if value > lim:
                self.ctx.errors.invalid('too large')
                return False
            return True

        @b.munge
        def b(self, value):
            if value > lim:
                self.ctx.errors.invalid('too large')
                return pilo.ERROR
            return value
    data = {'a': int_('a', 0, 9), 'b': int_('b', 0, 9)}
    form, errors = mapped(F, data)
    want = [('Invalid', k) for k in 'ab' if data[k] > lim]
    check(errors_of(errors) == want, 'errors of the hooks')
    got, ex = raised(lambda: F().map(data, error='raise'))
    check((ex is not None) == bool(want), 'raised without errors, or errors without raising')
    if ex is None:
        cover('returned')
        check(same(dict(got), data), 'values')
    else:
        cover('raised')
        check(errors_of(ex.field_errors) == want[:1], 'the first error is raised')
        check('Invalid: %s - too large' % want[0][1] in text(ex), 'message')


class Wrong(Exception):
    """An error that is no FieldError."""

    def __init__(self, field, violation=None):
        super(Wrong, self).__init__(violation)
        self.field, self.violation = field, violation


@harness(cases=[(w,) for w in ('map', 'construct', 'nested')], covers=['raised', 'returned', 'own', 'both'])
def own_errors(how):
    """Error classes given in the context: collected as they are; when raised, the field errors before them raise FormError, else
    the first of them is raised."""
    inner = form_of(a=pilo.fields.Int(max_value=5), b=pilo.fields.Int())
    cls = inner if how != 'nested' else form_of(f=pilo.fields.SubForm(inner))
    d = data_of(a=value('a', ('absent', 'int'), lo=0, hi=9), b=value('b', ('absent', 'int', 'str'), cap=1, alphabet='1a', lo=0, hi=9))
    data = d if how != 'nested' else {'f': d}
    own = {}
    if flag('Missing'):
        own['Missing'] = Wrong
    if flag('Invalid'):
        own['Invalid'] = Wrong
    form, before = mapped(cls, data)
    with pilo.ctx(**own):
        form, errors = mapped(cls, data)
        check(len(errors) == len(before), 'error classes change which errors there are')
        for e, b in zip(errors, before):
            check(type(e) is own.get(kind_of(b), type(b)), 'class of the error')
            check(e.field is b.field, 'field of the error')
        try:
            if how == 'construct':
                cls(data)
            else:
                cls().map(data, error='raise')
            ex = None
        except (Wrong, FirstError) as e:
            ex = e
    check((ex is not None) == bool(errors), 'raised without errors, or errors without raising')
    if ex is None:
        cover('returned')
        return
    cover('raised')
    seen = errors[:1] if how == 'map' else errors
    # the errors of a nested form are raised together
    plain = [e for e in seen if not isinstance(e, Wrong)]
    if plain:
        cover('both' if len(plain) < len(errors) else 'raised')
        check(isinstance(ex, FirstError), 'a FormError of the field errors')
        check(errors_of(ex.field_errors) == errors_of(plain), 'the field errors')
    else:
        cover('own')
        check(isinstance(ex, Wrong) and ex.field is seen[0].field, 'the first error is raised')


@harness(cases=[(40,)], covers=['raised', 'returned'])
def many(n):
    """All of many errors are in the exception, in order."""
    lo, x, y = int_('lo', 0, 1), int_('x', 0, 1), int_('y', 0, 1)
    fields = [('k%d' % i, Node('int', min_value=lo)) for i in range(n)]
    cls = form_type(form_node(('f', Node('form', fields=fields)), ('l', Node('list', item=Node('int', min_value=lo)))) if flag('nested') else form_node(*fields))
    data = dict(('k%d' % i, x if i % 3 else y) for i in range(n))
    if hasattr(cls, 'l'):
        data = {'f': data, 'l': [x, y] * n}
    form, errors = mapped(cls, data)
    got, ex = raised(lambda: cls(data))
    check((ex is not None) == bool(errors), 'raised without errors, or errors without raising')
    if ex is None:
        cover('returned')
        check(same(dict(got), dict(form)), 'values differ')
    else:
        cover('raised')
        check(errors_of(ex.field_errors) == errors_of(errors), 'not all the errors')
        check(text(ex) == message(errors), 'message of the exception')
    got, ex = raised(lambda: cls().map(data, error='raise'))
    check((ex is not None) == bool(errors), 'raised without errors, or errors without raising')
    if ex is not None:
        mine = errors_of(ex.field_errors)
        check(0 < len(mine) and mine == errors_of(errors)[:len(mine)], 'raised errors are not the first of those collected')


@harness(cases=[(o,) for o in ('none', 'reset', 'tags', 'unmapped', 'tags reset')], covers=['raised', 'returned', 'kept'])
def again(option):
    """A form that already holds values ends up with the same ones, whichever way errors are handled."""
    cls = form_of(a=pilo.fields.Int(optional=True, tags=['t']), b=pilo.fields.Int(optional=True, max_value=int_('hi', 0, 5)),
                  l=pilo.fields.List(pilo.fields.Int(), optional=True))
    first = data_of(a=value('a0', ('absent', 'int'), lo=0, hi=3), b=value('b0', ('absent', 'int'), lo=0, hi=0))
    second = data_of(a=value('a', ('absent', 'int', 'none'), lo=0, hi=3), b=value('b', ('absent', 'int'), lo=0, hi=9))
    if option == 'unmapped':
        second['x'] = int_('x', 0, 3)
    options = {'none': {}, 'reset': {'reset': True}, 'tags': {'tags': ['t']}, 'unmapped': {'unmapped': pilo.fields.Int()},
               'tags reset': {'tags': ['t'], 'reset': True}}[option]
    one, two = cls(), cls()
    own = flag('own')
    for form in (one, two):
        check(not form.map(first), 'errors in the first data')
        if own:
            form['own'] = 1
    errors = one.map(second, **options)
    got, ex = raised(lambda: two.map(second, error='raise', **options))
    check((ex is not None) == bool(errors), 'raised without errors, or errors without raising')
    if ex is not None:
        cover('raised')
        check(errors_of(ex.field_errors) == errors_of(errors)[:1], 'the first error is raised')
        check(set(two) <= set(one) | set(first), 'values from nowhere')
        return
    cover('returned')
    if any(k in one and k not in second for k in first):
        cover('kept')
    check(got is two, 'the form was not returned')
    check(same(dict(two), dict(one)), 'values differ')


@harness(cases=[(3,), (12,)], covers=['raised', 'returned'])
def alike(n):
    """Errors that read alike are all raised: of several fields for one key, of items of one list."""
    hi = int_('hi', 0, 5)
    x, y = value('x', ('absent', 'int', 'none'), lo=0, hi=9), int_('y', 0, 9)
    fields = dict(('f%d' % i, pilo.fields.Int('x', max_value=hi)) for i in range(n))
    cls = form_of(l=pilo.fields.List(pilo.fields.Group(('q', pilo.fields.Int(max_value=hi)))), **fields)
    data = data_of(x=x, l=[{'q': y}, {'q': y}])
    form, errors = mapped(cls, data)
    bad = (2 if y > hi else 0) + (n if x is ABSENT or x is not None and x > hi else 0)
    check(len(errors) == bad, 'errors')
    got, ex = raised(lambda: cls(data))
    check((ex is not None) == (bad > 0), 'raised without errors, or errors without raising')
    if ex is None:
        cover('returned')
        check(same(dict(got), dict(form)), 'values differ')
    else:
        cover('raised')
        check(len(ex.field_errors) == bad and errors_of(ex.field_errors) == errors_of(errors), 'not all the errors')
        check([e.field for e in ex.field_errors] == [e.field for e in errors], 'fields of the errors')
        check(text(ex) == message(errors), 'message of the exception')
