"""C29: fields are mapped in order of declaration; subclassing and cloning change nothing else."""
import itertools

import pilo
from .common import *

BOUNDS = {'programs': 'forms of 3 fields named in any order; chains of 3 classes that override, remove or add a field each; two bases in either order; '
                      'mixins; clones changed by each of 14 options or 5 hooks, on either side',
          'values': 'absent or integers 0..9; limits 0..9',
          'sizes': '40 fields and 40 bases'}
OUTSIDE = ['fields shared by a clone of a container with the original (its item fields)', 'fields changed after they were used by a mapping']

Int = pilo.fields.Int


class Spec(object):
    """A field declared, and what it makes of a value."""

    def __init__(self, how, k):
        self.how, self.k = how, k

    def field(self):
        if self.how == 'min':
            return Int(min_value=self.k)
        if self.how == 'default':
            return Int(default=self.k)
        if self.how == 'const':
            return Int().constant(self.k)
        if self.how == 'src':
            return Int('other')
        raise AssertionError(self.how)

    def outcome(self, name, data):
        if self.how == 'const':
            return self.k
        x = data.get('other' if self.how == 'src' else name, ABSENT)
        if x is ABSENT:
            return self.k if self.how == 'default' else ('Missing', 'other' if self.how == 'src' else name)
        if self.how == 'min' and x < self.k:
            return ('Invalid', name)
        return x


def verify(cls, slots, data, when=''):
    """cls has exactly the fields of the slots [(name, spec)], in this order."""
    check([f.name for f in cls.fields] == [n for n, s in slots], 'the fields of the form, or their order' + when)
    check(all(getattr(cls, n) is f for f, (n, s) in zip(cls.fields, slots)), 'a field is not the one declared' + when)
    form, errors = mapped(cls, data)
    want, wrong = {}, []
    for n, s in slots:
        y = s.outcome(n, data)
        if isinstance(y, tuple):
            wrong.append(y)
        else:
            want[n] = y
    check(errors_of(errors) == wrong, 'errors, or their order' + when)
    check(list(form) == list(want), 'values, or their order' + when)
    check(same(dict(form), want), 'values' + when)


def override(slots, added):
    """The slots of a class that declares added [(name, spec or None)]."""
    out = list(slots)
    for n, s in added:
        for i, (m, t) in enumerate(out):
            if m == n:
                out[i] = (n, s)
                break
        else:
            out.append((n, s))
    return out


def held(slots):
    return [(n, s) for n, s in slots if s is not None]


def declare(bases, added, name='F'):
    return type(name, bases, dict((n, s.field() if s else None) for n, s in added))


def values(names):
    return data_of(**dict((n, int_(n, 0, 9) if flag('has.' + n) else ABSENT) for n in names))


@harness(cases=[(n,) for n in (2, 3)], covers=['done'])
def order(n):
    """The order of creation decides, whatever the names are."""
    names = choice('names', list(itertools.permutations('zam'[:n] if n < 3 else 'zam')))
    specs = [Spec(choice('s%d' % i, ('min', 'default')), int_('k%d' % i, 0, 9)) for i in range(n)]
    fields = [s.field() for s in specs]
    # the order of the class body is another one
    body = choice('body', list(itertools.permutations(range(n))))
    cls = type('F', (pilo.Form,), dict((names[i], fields[i]) for i in body))
    verify(cls, list(zip(names, specs)), values(names))
    cover('done')


def step(label, names, new):
    """What a class declares: an override, a removal, a new field, in any combination."""
    out = []
    which = choice(label, names + ('',))
    if which:
        how = choice(label + '.how', ('min', 'default', 'const', 'gone'))
        out.append((which, None if how == 'gone' else Spec(how, int_(label + '.k', 0, 9))))
    where = choice(label + '.new', ('', 'before', 'after'))
    if where:
        out.insert(0 if where == 'before' else len(out), (new, Spec('min', 2)))
    return out


@harness(covers=['done', 'removed'], thorough=[('cab',), ('abc',)], cases=[('ba',)])
def chain(names):
    """A base, its subclass, and the subclass of that."""
    names = tuple(names)
    base = [(n, Spec('min' if i else 'default', 5)) for i, n in enumerate(names)]
    first = declare((pilo.Form,), base)
    a = step('a', names, 'aa')
    second = declare((first,), a)
    b = step('b', names + ('aa',), 'A')
    third = declare((second,), b)
    sibling = declare((first,), [(names[0], Spec('min', 1))])
    data = values(names + ('aa',))
    data['A'] = 3
    slots2, slots3 = override(base, a), override(override(base, a), b)
    verify(third, held(slots3), data, ' of the last')
    verify(second, held(slots2), data, ' of the one between')
    verify(first, base, data, ' of the base')
    verify(sibling, override(base, [(names[0], Spec('min', 1))]), data, ' of the sibling')
    cover('removed' if None in [s for n, s in slots3] else 'done')


@harness(covers=['done'])
def bases():
    """Two bases that may share a name; a field takes the place of the one it would have been."""
    shared = flag('shared')
    one = [('m', Spec('min', 5)), ('z', Spec('min', int_('k', 0, 9)))]
    two = [('a', Spec('min', 2)), ('z' if shared else 'y', Spec('default', 4)), ('b', Spec('min', 1))]
    first = declare((pilo.Form,), one)
    second = declare((pilo.Form,), two)
    swapped = flag('swapped')
    added = [(choice('over', ('m', 'z', 'b')), Spec('const', 7))] if flag('override') else []
    cls = declare((second, first) if swapped else (first, second), added)
    if shared and swapped:
        slots = one[:1] + two
    elif shared:
        slots = one + [two[0], two[2]]
    else:
        slots = one + two
    data = values(('m', 'z', 'b', 'a', 'y'))
    verify(cls, override(slots, added), data)
    verify(first, one, data, ' of the first base')
    verify(second, two, data, ' of the second base')
    cover('done')


@harness(covers=['done'])
def mixin():
    """Fields of a class that is no form."""
    f, g = Spec('min', int_('k', 0, 9)), Spec('default', 3)
    mix = type('Mixin', (object,), dict(z=f.field(), y=g.field()))
    own = [('a', Spec('min', 2))]
    one = declare((mix, pilo.Form), own)
    two = declare((pilo.Form, mix), [])
    over = declare((mix, pilo.Form), [('z', Spec('const', 6)), ('a', Spec('min', 2))])
    data = values(('z', 'y', 'a'))
    verify(one, [('z', f), ('y', g)] + own, data, ' of the first')
    verify(two, [('z', f), ('y', g)], data, ' of the second')
    verify(over, [('z', Spec('const', 6)), ('y', g)] + own, data, ' of the overriding')
    cover('done')


@harness(covers=['done'])
def borrowed():
    """A form that names a field of another form leaves that one as it is."""
    f, g = Spec('min', int_('k', 0, 9)), Spec('default', 3)
    one = declare((pilo.Form,), [('z', f), ('y', g)])
    z, y = one.z, one.y
    body = dict(z=one.z, a=Spec('min', 2).field())
    if flag('both'):
        body['y'] = one.y
    two = type('Two', (pilo.Form,), body)
    three = type('Three', (two,), dict(z=one.z) if flag('again') else {})
    check(one.z is z and one.y is y and one.fields == [z, y], 'the fields of the first')
    check(z.parent is one and y.parent is one and z.name == 'z' and two.a.parent is two, 'the form and name of a field')
    data = values(('z', 'y', 'a'))
    slots = [('z', f)] + ([('y', g)] if 'y' in body else []) + [('a', Spec('min', 2))]
    for cls, s, which in ((two, slots, ' of the second'), (three, slots, ' of the third'), (one, [('z', f), ('y', g)], ' of the first')):
        verify(cls, s, data, which)
    cover('done')


# -- clones

def table(x, k):
    """What each change makes of a value x that is valid before it; None: it rejects it."""
    bad = ('Invalid', 'f')
    return {
        'ignore': (lambda f: f.ignore(k), lambda: ABSENT if x == k else x),
        'translate': (lambda f: f.translate({k: 77}), lambda: 77 if x == k else x),
        'translate_option': (lambda f: f.options(translate={k: 77}), lambda: 77 if x == k else x),
        'ignore_option': (lambda f: f.options(ignore=k), lambda: ABSENT if x == k else x),
        'min': (lambda f: f.min(k), lambda: bad if x < k else x),
        'max': (lambda f: f.max(k), lambda: bad if x > k else x),
        'range': (lambda f: f.range(k, k), lambda: x if x == k else bad),
        'nullable': (lambda f: f.options(nullable=False), lambda: x),
        'tag': (lambda f: f.tag('t'), lambda: x),
        'tags': (lambda f: f.tag(u=1), lambda: x),
        'optional': (lambda f: f.options(optional=True), lambda: x),
        'munge': (lambda f: f.munge(lambda self, value: value + k), lambda: x + k),
        'filter': (lambda f: f.filter(lambda self, value: value != k), lambda: ABSENT if x == k else x),
        'parse': (lambda f: f.parse(lambda self, path: path.value + k), lambda: x + k),
        'compute': (lambda f: f.compute(lambda self: k), lambda: k),
        'constant': (lambda f: f.constant(k), lambda: k),
        'default': (lambda f: f.options(default=k), lambda: x),
        'default_hook': (lambda f: f.default(lambda self: k), lambda: x),
        'pattern': (lambda f: f.pattern('[01]'), lambda: x),
    }


CHANGES = tuple(table(0, 0))


def expect(change, y, x, k):
    """Value or error of a field so changed, for null and absence too."""
    if change in ('compute', 'constant'):
        return k
    if x is ABSENT:
        if change in ('default', 'default_hook'):
            return k
        return ABSENT if change == 'optional' else ('Missing', 'f')
    return ('Missing', 'f') if y is ABSENT else y


@harness(cases=[(c,) for c in CHANGES], covers=['done'])
def clones(change):
    """A change of the clone or of the original is not one of the other."""
    attached = flag('attached')
    kind = choice('x', ('absent', 'int', 'none') if change in ('nullable', 'ignore', 'min') else ('absent', 'int'))
    x = value('v', (kind,), lo=0, hi=9)
    k = int_('k', 0, 9)
    original = Int('f', min_value=0, default=pilo.NOT_SET).ignore(50).translate({51: 52})
    if attached:
        first = form_of(f=original)
    clone = original.clone()
    check(clone is not original and type(clone) is Int and not clone.is_attached, 'the clone')
    on_clone = flag('on_clone')
    apply_, result = table(x, k)[change]
    if change == 'pattern':
        x = value('t', ('str',), cap=1, alphabet='01')if kind == 'int' else x
        assume(x is ABSENT or length(x) == 1)
        result = lambda: int(x)
    changed = clone if on_clone else original
    if change == 'constant' and attached and not on_clone:
        cover('done')
        return   # gives a clone itself
    returned = apply_(changed)
    check(returned is changed or attached and not on_clone, 'a change does not give the field')
    if not attached:
        first = form_of(f=original)
    second = form_of(f=clone)
    for cls, is_changed in ((first, not on_clone), (second, on_clone)):
        form, errors = mapped(cls, data_of(f=x))
        if x is None:
            want = ('Invalid', 'f') if is_changed and change == 'nullable' else None
        elif is_changed:
            want = expect(change, result() if x is not ABSENT else ABSENT, x, k)
        elif change == 'pattern':
            want = int(x) if x is not ABSENT else ('Missing', 'f')
        else:
            want = ('Missing', 'f') if x is ABSENT else x
        who = ' of the %s, changed on the %s' % ('clone' if cls is second else 'original', 'clone' if on_clone else 'original')
        if isinstance(want, tuple):
            check(errors_of(errors) == [want] and len(form) == 0, 'errors' + who)
        elif want is ABSENT:
            check(not errors and len(form) == 0, 'a value' + who)
        else:
            check(not errors and same(dict(form), {'f': want}), 'the value' + who)
    check(changed.has_tag('t') == (change == 'tag') and changed.has_tag('u') == (change == 'tags'), 'tags')
    other = original if on_clone else clone
    check(not other.has_tag('t') and not other.has_tag('u'), 'tags of the other')
    cover('done')


@harness(covers=['done'])
def hooked():
    """A clone has the hooks of the original, and goes on to map as it did."""
    k, x = int_('k', 0, 9), int_('x', 0, 9)
    which = choice('which', ('munge', 'capture', 'constant', 'validate', 'default', 'format'))
    if which == 'munge':
        f = Int().munge(lambda self, value: value + k)
        data, want = {'f': x}, x + k
    elif which == 'capture':
        f = pilo.fields.String().capture('a(.)')
        c = str_('c', 1, 'xy', least=1)
        data, want = {'f': 'a' + c}, c
    elif which == 'constant':
        f = Int().constant(k)
        data, want = {'f': x}, k
    elif which == 'validate':
        def validate(self, value):
            if value < k:
                self.ctx.errors.invalid('low') if hasattr(self, 'ctx') else None
                return False
            return True
        f = Int().validate(validate)
        data, want = {'f': x}, ABSENT if x < k else x
    elif which == 'default':
        f = Int().default(lambda self: k)
        data, want = {}, k
    else:
        f = pilo.fields.String().format('<{a}>', a='f2')
        data, want = {'f2': x}, '<%d>' % x if not symbolic() else None
    clone = f.clone()
    again = clone.clone()
    rest = dict(f2=Int(default=0)) if which == 'format' else {}
    results = []
    for field in (f, clone, again):
        form, errors = mapped(type('F', (pilo.Form,), dict(rest, f=field)), data)
        results.append((form.get('f', ABSENT), errors_of(errors)))
        if want is not None and want is not ABSENT:
            check(not errors and same(form['f'], want), 'the hook was lost')
        if want is ABSENT:
            check(len(errors) == 1 and 'f' not in form, 'the hook was lost')
    for value_, errs in results[1:]:
        check(errs == results[0][1], 'errors of the clone')
        check(same(value_, results[0][0]), 'value of the clone')
    cover('done')


@harness(covers=['done'])
def elsewhere():
    """A clone in another form, or beside the original, is mapped where it is declared."""
    a = Int(min_value=int_('k', 0, 9))
    first = form_of(a=a)
    where = choice('where', ('beside', 'other', 'sub', 'same'))
    z = Int()
    clone = a.clone()
    clone.src = 'c'
    x = int_('x', 0, 9)
    if where == 'beside':
        y = Int()
        b = y.clone()
        b.src = 'c'
        cls = type('F', (pilo.Form,), dict(y=y, b=b))
        names = ['y', 'b']
    elif where == 'other':
        cls, names = type('G', (pilo.Form,), dict(z=z, b=clone)), ['z', 'b']
    elif where == 'sub':
        cls, names = type('G', (first,), dict(z=z, b=clone)), ['a', 'z', 'b']
    else:
        cls, names = type('G', (first,), dict(z=z, a=clone)), ['a', 'z']
    check([f.name for f in cls.fields] == names, 'order')
    form, errors = mapped(cls, {'z': x, 'y': x, 'a': 9, 'c': x, 'b': x})
    bad = x < a.min_value if where != 'beside' else False
    check(list(form) == [n for n in names if not (bad and (n == 'b' or n == 'a' and where == 'same'))], 'order of values')
    form, errors = mapped(cls, {})
    check([e.field.name for e in errors] == names, 'order of errors')
    check([f.name for f in first.fields] == ['a'] and first.a is a and a.src == 'a', 'the original')
    cover('done')


@harness(cases=[(n,) for n in (1, 2)], covers=['ignored', 'translated', 'kept'])
def configured(n):
    """A clone has the options of the original, and so has the clone of a clone."""
    k = int_('k', 0, 9)
    f = Int('f', default=k, tags={'t': 5}).ignore(50, 51).translate({52: 53, 54: 50}).options(nullable=flag('nullable'))
    if flag('attached'):
        form_of(f=f)
    g = f
    for i in range(n):
        g = g.clone()
    check(g.has_tag('t') and g.tags == {'t': 5} and g.nullable == f.nullable and g.src == 'f', 'options of the clone')
    x = value('x', ('absent', 'none', 'int'), lo=47, hi=56)
    form, errors = outcome(form_of(h=g), data_of(f=x))
    if x is None:
        check(errors_of(errors) == ([] if f.nullable else [('Invalid', 'f')]), 'null')
        return
    if x is ABSENT or x in (50, 51, 54):
        cover('ignored')
        want = k
    elif x == 52:
        cover('translated')
        want = 53
    else:
        cover('kept')
        want = x
    check(not errors and same(dict(form), {'h': want}), 'value of the clone')


@harness(covers=['context', 'constant'])
def cloned_sources():
    """What a field of the context, or a constant, becomes when it is cloned and read from elsewhere, or made constant again."""
    x, y, k = int_('x', 0, 9), int_('y', 0, 9), int_('k', 0, 9)
    if flag('constant'):
        cover('constant')
        f = Int().compute(lambda self: k)
        base = form_of(a=f)
        again = base.a.constant(x)
        check(again is not f, 'an attached field was changed')
        forms = [(base, k), (form_of(a=again), x), (form_of(a=again.constant(y)), y), (form_of(a=base.a.clone()), k), (base, k)]
        for cls, want in forms:
            form, errors = mapped(cls, {'a': 77})
            check(not errors and same(dict(form), {'a': want}), 'the constant')
        return
    cover('context')
    f = Int('one').from_context()
    if flag('attached'):
        form_of(a=f)
    g = f.clone()
    on_clone = flag('on_clone')
    (g if on_clone else f).src = 'two'
    with pilo.ctx(one=x, two=y):
        for h, changed in ((f, not on_clone), (g, on_clone)):
            form, errors = outcome(form_of(a=h), {'one': 77, 'two': 78, 'a': 79})
            check(not errors and same(dict(form), {'a': y if changed else x}), 'the variable of the context')


@harness(cases=[(40,)], covers=['done'])
def many(n):
    """Many fields, made in any order, in a long chain of classes."""
    k = int_('k', 0, 9)
    names = ['f%d' % ((i * 7) % n) for i in range(n)]
    slots = [(m, Spec('min', k) if i % 2 else Spec('default', k)) for i, m in enumerate(names)]
    depth = choice('depth', (1, 2, 10))
    cls, per = pilo.Form, n // depth
    over = choice('over', (0, 9, n - 1))
    for i in range(depth):
        cls = declare((cls,), slots[i * per:(i + 1) * per])
    data = dict((m, choice('v', (0, 5)) if i == over else 7) for i, m in enumerate(names))
    verify(cls, slots, data)
    added = [(names[over], Spec('const', 3)), ('new', Spec('default', 4))]
    verify(declare((cls,), added), override(slots, added), data)
    verify(cls, slots, data, ' of the base')
    gone = [(names[over], None)]
    verify(declare((cls,), gone), held(override(slots, gone)), data)
    cover('done')


@harness(covers=['early', 'late', 'other'])
def replaced():
    """A field takes the place of the one it overrides, whenever it was made and whatever its type."""
    make = {'int': Int, 'str': pilo.fields.String, 'list': lambda: pilo.fields.List(Int()), 'any': pilo.fields.Field}
    kind, when, which = choice('kind', sorted(make)), choice('when', ('early', 'late', 'between')), choice('which', ('a', 'm', 'z'))
    x, deep = int_('x', 0, 9), choice('deep', (0, 1, 2))
    early = make[kind]()
    fields = {}
    for n in ('m', 'z', 'a'):
        fields[n] = Int()
        if n == 'z':
            between = make[kind]()
    base = type('Base', (pilo.Form,), fields)
    cls = base
    for i in range(deep):
        cls = type('Between', (cls,), dict(n1=Int(default=i)) if i == 0 else {})
    late = make[kind]()
    cls = type('Derived', (cls,), {which: {'early': early, 'late': late, 'between': between}[when]})
    order = ['m', 'z', 'a'] + (['n1'] if deep else [])
    check([f.name for f in cls.fields] == order and [f.name for f in base.fields] == order[:3], 'the order of the fields')
    good = {'int': x, 'str': 't', 'list': [x], 'any': [None]}[kind]
    data = dict((n, good if n == which else 1) for n in ('a', 'z', 'm'))
    form, errors = mapped(cls, data)
    check(not errors and list(form) == order and same(form[which], good), 'values, or their order')
    form, errors = mapped(cls, {})
    check(errors_of(errors) == [('Missing', n) for n in order[:3]], 'errors, or their order')
    cover('other' if kind != 'int' else 'early' if when == 'early' else 'late')
