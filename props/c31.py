"""C31: attributes and entries of a form."""
import pilo
from pilo.context import ctx
from .common import *

BOUNDS = {'history': 'three operations (four in thorough) on attributes and entries of a form with nine fields',
          'fields': 'without default, with one, with a null, a callable and a hook as default, optional, computed, with a key '
          'that is the name of another, nested; fields named like context variables',
          'data': 'mappings, lists and tuples of up to one item more than there are fields; keywords; sources; nothing',
          'values': 'null, integers -9..9, texts of 0..2 characters, lists', 'sizes': 'forms of 30 fields'}
OUTSIDE = ['fields named like methods of forms or mappings', 'two fields with one key mapped from a sequence']


def make_type(base=pilo.Form):
    class Sub(pilo.Form):
        p = pilo.fields.Int(default=4)

    class F(base):
        a = pilo.fields.Int()
        b = pilo.fields.String('c', default='x')
        c = pilo.fields.Field('o', default=None)
        o = pilo.fields.Int(optional=True)
        l = pilo.fields.List(pilo.fields.Int(), default=list)
        k = pilo.fields.Int()
        h = pilo.fields.Int()
        s = pilo.fields.SubForm(Sub, default=Sub)
        n = pilo.fields.Int(min_value=0, default=-1, nullable=False)

        @k.compute
        def k(self):
            return self.a + 1

        @h.default
        def h(self):
            return 7

    return F


NAMES = ('a', 'b', 'c', 'o', 'l', 'k', 'h', 's', 'n')


class Raised(object):

    def __init__(self, kind, errors=()):
        self.kind, self.errors = kind, errors

    def __eq__(self, other):
        return isinstance(other, Raised) and (self.kind, self.errors) == (other.kind, other.errors)

    def __repr__(self):
        return 'Raised(%r, %r)' % (self.kind, self.errors)


def tried(fn):
    """What fn gives, or a note of what it raises."""
    try:
        return fn()
    except pilo.fields.FormError as ex:
        return Raised('FormError', [(kind_of(e), text(e.path)) for e in ex.field_errors])
    except AttributeError:
        return Raised('AttributeError')
    except KeyError:
        return Raised('KeyError')


class Model(dict):
    """A plain dict that gives for a field's name what the form is to give."""

    def read(self, name):
        if name in self:
            return self[name]
        if name == 'a':
            return Raised('FormError', [('Missing', 'a')])
        if name == 'o':
            return Raised('AttributeError')
        if name == 'k':
            a = self.read('a')
            v = a if isinstance(a, Raised) else a + 1
            if isinstance(v, Raised):
                return v
        else:
            v = {'b': 'x', 'c': None, 'l': [], 'h': 7, 's': {}, 'n': -1}[name]
        self[name] = v
        return v


OPS = ('setattr', 'setitem', 'delattr', 'delitem', 'read', 'get', 'update', 'pop')


def new(i, name):
    """A value for the field."""
    if name in ('a', 'k'):
        return int_('v' + i, -9, 9)
    if name == 'n':
        return value('v' + i, ('none', 'int'), lo=-9, hi=9)
    if name == 'l':
        return [int_('v' + i, -9, 9)]
    return value('v' + i, ('none', 'int', 'str'), cap=2)


def step(i, form, model, op, name):
    if op == 'setattr':
        v = new(i, name)
        setattr(form, name, v)
        model[name] = v
        check(getattr(form, name) is v and form[name] is v, 'the value set is not the one read')
    elif op == 'setitem':
        v = new(i, name)
        form[name] = v
        model[name] = v
        check(getattr(form, name) is v and form[name] is v, 'the entry set is not the one read')
    elif op == 'delattr':
        check(tried(lambda: delattr(form, name)) is None, 'deleting an attribute failed')
        model.pop(name, None)
    elif op == 'delitem':
        got = tried(lambda: form.__delitem__(name))
        check(got == (None if name in model else Raised('KeyError')), 'deleting an entry')
        model.pop(name, None)
    elif op == 'read':
        got, want = tried(lambda: getattr(form, name)), model.read(name)
        if isinstance(want, Raised) or isinstance(got, Raised):
            check(got == want, 'reading an absent field')
            cover('raised')
        else:
            check(same(got, want), 'reading a field')
            check(form[name] is got and getattr(form, name) is got, 'what was read is not what is held')
            cover('read')
    elif op == 'get':
        check(same(form.get(name, 'none such'), model.get(name, 'none such')), 'reading an entry')
        check((name in form) == (name in model), 'whether there is an entry')
    elif op == 'update':
        v = new(i, name)
        form.update({name: v, 'extra': i})
        model.update({name: v, 'extra': i})
    elif op == 'pop':
        check(same(form.pop(name, 'none such'), model.pop(name, 'none such')), 'taking an entry')
    check(same(dict(form), dict(model)), 'the entries')


def run(op, name, others, more):
    form, model = make_type()(), Model()
    step('0', form, model, op, name)
    for i in range(more):
        op = choice('op%d' % (i + 1), OPS)
        name = choice('name%d' % (i + 1), others)
        step(str(i + 1), form, model, op, name)
    observe(dict(form))
    for name in others:
        got, want = tried(lambda: getattr(form, name)), model.read(name)
        check(got == want if isinstance(got, Raised) or isinstance(want, Raised) else same(got, want), 'reading every field afterwards')
    check(same(dict(form), dict(model)), 'the entries afterwards')


PAIRS = (('a', 'k'), ('b', 'c'), ('o', 'n'), ('l', 's'), ('h',))


@harness(cases=[(op, names) for op in OPS for names in PAIRS], covers=['read', 'raised'])
def history(op, names):
    """Attributes are entries: a sequence of operations on a form."""
    run(op, choice('name0', names), names, 2)


@harness(cases=[('read', ('o', 'k', 'a'), 2)], thorough=[(op, names, 3) for op in OPS for names in (('a', 'b', 'k'), ('l', 'o', 's'))], covers=['read', 'raised'])
def long_history(op, names, more):
    """Longer histories, three fields."""
    run(op, choice('name0', names), names, more)


@harness(covers=['done'])
def declared():
    """The class gives the fields; forms share nothing; other entries and attributes are left alone."""
    cls = make_type()
    for f, name in zip(cls.fields, NAMES):
        check(getattr(cls, name) is f and f.name == name and f.parent is cls, 'the class does not give the field')
        check(f.src == {'b': 'c', 'c': 'o'}.get(name, name), 'the key of a field')
    one, two = cls(), cls()
    x = value('x', ('none', 'int', 'str'), cap=2)
    name = choice('name', NAMES)
    setattr(one, name, x)
    one['other'] = x
    one.note = x
    check(dict(two) == {} and name not in two and same(dict(one), {name: x, 'other': x}), 'forms share entries')
    check('note' not in one and one.note is x and one['other'] is x, 'an attribute that is no field')
    check(tried(lambda: one.other) == Raised('AttributeError'), 'an entry that is no field is no attribute')
    three = cls()
    three.update(one)
    check(same(dict(one), dict(three)) and isinstance(one, dict), 'the form as a dict')
    l1, l2 = one.l if name != 'l' else [], two.l
    check(l1 is not l2 and tried(lambda: two.s) is not tried(lambda: cls().s), 'defaults made anew')
    cover('done')


@harness(cases=[('plain',), ('src',), ('errors',), ('form',), ('field',), ('parent',)], covers=['held', 'absent'])
def names(name):
    """Fields named like variables of the context or attributes of fields."""
    cls = form_of(**{name: pilo.fields.Int(default=5), 'z': pilo.fields.Int(default=6), 'y': pilo.fields.Int()})
    form = cls()
    x = int_('x', -9, 9)
    if flag('held'):
        cover('held')
        if flag('item'):
            form[name] = x
        else:
            setattr(form, name, x)
        want = x
    else:
        cover('absent')
        want = 5
    first = choice('first', ('z', name, 'y'))
    got = tried(lambda: getattr(form, first))
    check(got == {'z': 6, name: want}[first] if first != 'y' else got == Raised('FormError', [('Missing', 'y')]), 'reading a field')
    check(same([getattr(form, name), form.z], [want, 6]) and same(dict(form), {name: want, 'z': 6}), 'reading the others')
    form2, errors = outcome(cls, {name: x, 'y': x})
    check(not errors and same(dict(form2), {name: x, 'z': 6, 'y': x}), 'mapping')


# -- construction

def schema():
    return form_node(('a', Node('int')), ('b', Node('str', src='bb', max_length=1)), ('c', Node('any', default=None)),
                     ('d', Node('int', default=9, nullable=False)))


def form_node(*fields):
    return Node('form', fields=list(fields))


def by_construction(fn):
    """(form, errors) of making a form."""
    try:
        return fn(), []
    except pilo.fields.FormError as ex:
        return None, list(ex.field_errors)


def judge(made, errors, want, want_errors):
    if want_errors:
        cover('errors')
        check(made is None, 'a form was made of data with errors')
        check(errors_of(errors) == want_errors, 'errors of making a form')
    else:
        cover('made')
        check(made is not None and same(dict(made), want), 'a form made of data')
    observe([kind_of(e) for e in errors])


KINDS = ('absent', 'none', 'int', 'str')


@harness(cases=[('dict',), ('keywords',), ('source',), ('union',), ('ordered',)], covers=['made', 'errors'])
def construct(how):
    """Making a form of data is mapping the data, raising what errors there are."""
    import collections
    n = schema()
    cls = form_type(n)
    d = data_of(a=value('a', KINDS, cap=1, lo=-9, hi=9), bb=value('bb', ('absent', 'str', 'int'), cap=2), c=value('c', ('absent', 'int')),
                d=value('d', ('absent', 'none', 'int')))
    if how == 'keywords' and not d:
        d['e'] = 1
    ref = Ref()
    want = ref.form(n, d)
    before = dict(d)
    fn = {'dict': lambda: cls(d), 'keywords': lambda: cls(**d), 'source': lambda: cls(pilo.DefaultSource(d)),
          'union': lambda: cls(pilo.source.union([pilo.DefaultSource(d)])), 'ordered': lambda: cls(collections.OrderedDict(d))}[how]
    made, errors = by_construction(fn)
    judge(made, errors, want, ref.errors)
    check(same(d, before), 'the data changed')
    form = cls()
    errors2 = form.map(d)
    check(errors_of(errors2) == ref.errors and same(dict(form), want), 'mapping the same')


@harness(cases=[(n, h) for n in range(6) for h in ('Form', 'map')], covers=['made', 'errors'])
def positional(size, how):
    """The items of a list or tuple are those of the fields in their order."""
    n = schema()
    cls = form_type(n)
    kinds_ = [KINDS[1:], ('str', 'int', 'none'), ('int', 'none'), ('none', 'int', 'str'), ('int',)]
    items = [value('i%d' % i, kinds_[i], cap=2 if i == 1 else 1, lo=-9, hi=9) for i in range(size)]
    d = dict(zip(('a', 'bb', 'c', 'd'), items))
    ref = Ref()
    want = ref.form(n, d)
    data = tuple(items) if flag('tuple') else list(items)
    if how == 'Form':
        made, errors = by_construction(lambda: cls(data))
        judge(made, errors, want, ref.errors)
    else:
        form, errors = outcome(cls, data)
        agree(form, errors, want, ref.errors)
        cover('errors' if errors else 'made')
    check(same(list(data), items), 'the data changed')


@harness(covers=['made', 'errors'])
def nested_positional():
    """Only the outermost sequence is taken by position; inherited fields come first."""
    inner = form_node(('p', Node('int')), ('q', Node('int', default=1)))

    class Base(pilo.Form):
        a = pilo.fields.Int()
        z = pilo.fields.Int(default=3)
    cls = type('G', (Base,), {'f': pilo.fields.SubForm(form_type(inner)), 'l': pilo.fields.List(pilo.fields.Int(), default=[0])})
    x = value('x', ('none', 'int', 'str'), cap=1)
    f = {'p': value('p', ('int', 'absent', 'str'), cap=1), 'q': int_('q', -9, 9)} if flag('map') else [int_('p', -9, 9), int_('q', -9, 9)]
    if isinstance(f, dict):
        f = data_of(**f)
    items = [x, int_('z', -9, 9), f, [int_('l', -9, 9)]][:pick('n', 5)]
    n = form_node(('a', Node('int')), ('z', Node('int', default=3)), ('f', inner), ('l', Node('list', item=Node('int'), default=[0])))
    ref = Ref()
    want = ref.form(n, dict(zip('azfl', items)))
    made, errors = by_construction(lambda: cls(items))
    judge(made, errors, want, ref.errors)


@harness(covers=['made', 'errors'])
def nothing():
    """A form made of nothing holds nothing; mapping nothing is mapping no data."""
    n = form_node(('a', Node('int', default=2)), ('b', Node('int', default=int_('x', -9, 9)))) if flag('defaults') else schema()
    cls = form_type(n)
    form = cls()
    check(dict(form) == {}, 'a form made of nothing')
    ref = Ref()
    want = ref.form(n, {})
    how = choice('how', ('none', 'empty', 'list', 'tuple'))
    errors = list(form.map({'none': None, 'empty': {}, 'list': [], 'tuple': ()}[how]))
    agree(form, errors, want, ref.errors)
    made, errors = by_construction(lambda: cls({'none': pilo.DefaultSource({}), 'empty': {}, 'list': [], 'tuple': ()}[how]))
    cover('made' if made is not None else 'errors')
    check((made is None) == bool(ref.errors) and errors_of(errors) == ref.errors, 'making a form of no data')


@harness(covers=['done'])
def from_fields():
    """A form type made of fields is one declared with them."""
    class Base(pilo.Form):
        z = pilo.fields.Int(default=1)
    base = pilo.Form if flag('base') else Base
    cls = base.from_fields(a=pilo.fields.Int(min_value=0), b=pilo.fields.String('bb', default=None))
    check(issubclass(cls, base) and [f.name for f in cls.fields] == (['a', 'b'] if base is pilo.Form else ['z', 'a', 'b']), 'the fields')
    check(Base.fields == [Base.z] and pilo.Form.fields == [], 'the base changed')
    n = form_node(*([('z', Node('int', default=1))] if base is Base else []) + [('a', Node('int', min_value=0)), ('b', Node('str', src='bb', default=None))])
    d = data_of(a=value('a', ('absent', 'int', 'none'), lo=-9, hi=9), bb=value('bb', ('absent', 'str'), cap=1), z=value('z', ('absent', 'int')))
    ref = Ref()
    want = ref.form(n, d)
    form, errors = outcome(cls, d)
    agree(form, errors, want, ref.errors)
    x = int_('x', -9, 9)
    form = cls()
    form.a = x
    check(form['a'] is x and form.b is None and same(dict(form), {'a': x, 'b': None}), 'attributes')
    cover('done')


@harness(covers=['before', 'after'])
def in_hooks():
    """Inside a hook too attributes of the form are its entries."""
    seen = []
    x, y = int_('x', -9, 9), int_('y', -9, 9)
    late = flag('late')
    how = choice('how', ('setattr', 'setitem', 'delattr', 'pop'))
    name = choice('name', ('a', 'e'))

    class F(pilo.Form):
        a = pilo.fields.Int()
        b = pilo.fields.Int()
        e = pilo.fields.Int()

        @b.munge
        def b(self, value):
            seen.append(dict(self))
            if how == 'setattr':
                setattr(self, name, y)
            elif how == 'setitem':
                self[name] = y
            elif how == 'delattr':
                delattr(self, name)
            else:
                self.pop(name, None)
            seen.append(dict(self))
            if how in ('setattr', 'setitem'):
                seen.append(getattr(self, name))
            return value

    form, errors = outcome(F, {'a': x, 'b': 1, 'e': x})
    mid = {'a': x}
    if how in ('setattr', 'setitem'):
        mid[name] = y
        check(same(seen[2], y), 'the attribute set in a hook is not the one read')
        cover('before')
    else:
        mid.pop(name, None)
        cover('after')
    check(same(seen[0], {'a': x}) and same(seen[1], mid), 'entries as a hook sees them')
    want = dict(mid, b=1, e=x)
    check(not errors and same(dict(form), want), 'the form in the end')


@harness(cases=[(6,), (30,)], thorough=[(100,)], covers=['read', 'set', 'raised'])
def many(n):
    """A form with many fields, one of them any."""
    kinds_ = ('default', 'none', 'missing')
    at = (0, n // 2, n - 1)[pick('at', 3)]
    k = choice('kind', kinds_)
    fields = {}
    for i in range(n):
        fields['f%03d' % i] = pilo.fields.Int(default=i) if i != at else pilo.fields.Int(
            **{'default': dict(default=int_('d', -9, 9)), 'none': dict(default=None), 'missing': {}}[k])
    cls = form_of(**fields)
    form = cls()
    name = 'f%03d' % at
    if flag('set'):
        cover('set')
        v = int_('v', -9, 9)
        setattr(form, name, v)
        check(getattr(form, name) is v and dict(form) == {name: v}, 'set')
        delattr(form, name)
        check(dict(form) == {}, 'deleted')
    got = tried(lambda: getattr(form, name))
    if k == 'missing':
        cover('raised')
        check(got == Raised('FormError', [('Missing', name)]) and dict(form) == {}, 'reading')
    else:
        cover('read')
        check(same(dict(form), {name: got}), 'reading')
        check(got is None if k == 'none' else same(got, cls.fields[at].default), 'the default')
    for i in range(n):
        if i != at:
            check(getattr(form, 'f%03d' % i) == i, 'another field')
    items = [int_('x', -9, 9) if i == at else i for i in range(n)]
    made, errors = by_construction(lambda: cls(items))
    check(same([made['f%03d' % i] for i in range(n)], items), 'made of items')
