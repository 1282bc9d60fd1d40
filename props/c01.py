"""C01: mapping leaves the context as it found it."""
import pilo
from pilo.context import ctx
from .common import *

BOUNDS = {'forms': '14 shapes: hooks of every stage, nested, flat and polymorphic forms, lists, tuples, dicts, groups, '
          'captured rest, fields read early, String.format, from_context, fields of forms elsewhere, sources of all kinds',
          'faults': 'any one call of a hook, default, translation source or predicate raises ValueError, an '
          'exception of its own, or one that is no Exception', 'values': 'absent, null, integers -9..9, texts of 0..1 characters',
          'sizes': '40 nested forms, list items or wide fields, one fault anywhere among them'}
OUTSIDE = ['more than one fault in a mapping', 'faults inside the interpreter (MemoryError, signals)']

NAMES = ('src', 'src_path', 'form', 'field', 'parent', 'errors', 'tags', 'ignore_default', 'ignore_missing', 'mine', 'Invalid',
         'Missing')
KINDS = ('absent', 'none', 'int', 'str')


class Fault(Exception):
    pass


class Death(BaseException):
    pass


FAULTS = ('value', 'other', 'death')


class Faults(object):
    """Call number `at` raises."""

    def __init__(self, most):
        self.at = int_('fault.at', 0, most)
        self.how = None
        self.n = 0
        self.happened = False

    def __call__(self, x=True):
        self.n += 1
        if not self.happened and self.n == self.at:
            self.happened = True
            self.how = choice('fault.how', FAULTS)
            if self.how == 'value':
                raise ValueError('fault')
            if self.how == 'other':
                raise Fault('fault')
            raise Death('fault')
        return x


def hooked(f, call, which=('munge', 'filter', 'validate')):
    def value_hook(self, value):
        return call(value)

    def predicate(self, value):
        call()
        return True

    for w in which:
        getattr(f, w)(value_hook if w == 'munge' else predicate)
    return f


def staged(call, form=None):
    """A field with hooks of every stage that resolve and parse as usual."""
    f = pilo.fields.Int()

    def resolve(self):
        call()
        c = ctx(src='a')
        return c

    def parse(self, path):
        call()
        r = path.primitive(int)
        call()
        return r

    def default(self):
        return call(7)

    f.resolve(resolve)
    f.parse(parse)
    f.default(default)
    return hooked(f, call)


class Faulty(pilo.DefaultSource):

    def __init__(self, data, call, **kw):
        super(Faulty, self).__init__(data, **kw)
        self.call = call

    def path(self):
        self.call()
        return super(Faulty, self).path()

    def mapping(self, path):
        self.call()
        return super(Faulty, self).mapping(path)

    def sequence(self, path):
        self.call()
        return super(Faulty, self).sequence(path)

    def primitive(self, path, *types):
        self.call()
        return super(Faulty, self).primitive(path, *types)


def shape_scalar(call):
    f = pilo.fields.Int(default=lambda: call(3))
    return form_of(a=staged(call), b=hooked(f, call)), dict(a=value('a', KINDS, 1, '1a'), b=value('b', ('absent', 'int'))), 10


def shape_form(call):
    inner = form_of(a=hooked(pilo.fields.Int(), call), b=hooked(pilo.fields.Int(default=lambda: call(1)), call))
    return (form_of(f=hooked(pilo.fields.SubForm(inner), call), z=pilo.fields.Int(default=0)),
            dict(f=data_of(a=value('a', KINDS, 1, '1a'))), 10)


def shape_flat(call):
    inner = form_of(a=hooked(pilo.fields.Int(), call, ('munge',)))
    inner2 = form_of(g=hooked(pilo.fields.SubForm(inner, flat=True, unmapped='capture'), call))
    return form_of(f=pilo.fields.SubForm(inner2), z=pilo.fields.Int(default=0)), dict(f=data_of(a=value('a', KINDS, 1, '1a'), w=1)), 6


def shape_list(call):
    f = hooked(pilo.fields.List(hooked(pilo.fields.Int(), call)), call)
    return form_of(l=f), dict(l=[value('l0', KINDS[1:], 1, '1a'), value('l1', ('none', 'int'))][:pick('n', 3)]), 9


def shape_tuple(call):
    f = pilo.fields.Tuple((hooked(pilo.fields.Int(), call), hooked(pilo.fields.Int(default=None), call)))
    return form_of(t=f), dict(t=[value('t0', KINDS[1:], 1, '1a'), value('t1', ('none', 'int'))][:pick('n', 3)]), 6


def shape_dict(call):
    f = pilo.fields.Dict(hooked(pilo.fields.String(), call), hooked(pilo.fields.Int(), call, ('munge', 'validate')))

    def key_filter(self, key):
        return call(key != 'q')
    f.key_filter.attach(f)(key_filter)
    return form_of(d=f), dict(d=data_of(p=value('p', KINDS, 1, '1a'), q=1)), 8


def shape_group(call):
    class Match(object):
        def match(self, key):
            call()
            return key if key == 'g2' else None
    f = pilo.fields.Group(('g1', hooked(pilo.fields.Int(), call, ('munge', 'filter'))), (Match(), hooked(pilo.fields.Int(), call, ('validate',))))
    return form_of(g=f), data_of(g1=value('g1', KINDS, 1, '1a'), g2=value('g2', ('absent', 'int')), g3=4), 10


def shape_poly(call):
    base = type('Base', (pilo.Form,), dict(type=pilo.fields.Type.abstract()))
    subtype(base, 'One', type=pilo.fields.Type.instance('one'), a=hooked(pilo.fields.Int(), call))
    subtype(base, 'Two', type=pilo.fields.Type.instance('two'), a=pilo.fields.String())
    return (form_of(p=hooked(pilo.fields.PolymorphicSubForm(base.type), call)),
            dict(p=dict(type=choice('type', ('one', 'two', 'three', 4)), a=value('a', KINDS, 1, '1a'))), 7)


def shape_rest(call):
    f = hooked(pilo.fields.Int(), call, ('munge', 'validate'))
    inner = form_of(a=pilo.fields.Int())
    g = pilo.fields.SubForm(inner)
    g.unmapped = (hooked(pilo.fields.String(), call, ('munge',)), f)
    return form_of(f=g), dict(f=data_of(a=1, b=value('b', KINDS, 1, '1a'), c=value('c', ('absent', 'int')))), 7


def shape_early(call):
    """Hooks that read fields declared later, and fields of the form around."""
    keep = {}
    cls = form_of(a=pilo.fields.Int(), f=pilo.fields.SubForm(form_of(x=pilo.fields.Int(default=1))), y=hooked(pilo.fields.Int(), call),
                  z=hooked(pilo.fields.Int(default=None), call))

    def munge(self, value):
        keep['outer'] = self
        call()
        return [value, self.y]

    def inner(self, value):
        call()
        return [value, keep['outer'].z] if 'outer' in keep else value
    cls.a.munge(munge)
    cls.f.form_type.x.munge(inner)
    return cls, dict(a=int_('a', 0, 3), f=dict(x=int_('x', 0, 3)), **data_of(y=value('y', KINDS, 1, '1a'), z=value('z', ('absent', 'int', 'str'), 1, '1a'))), 9


def shape_format(call):
    cls = form_of(s=pilo.fields.String().format('{p}-{q}', p='b', q='c.x'), b=hooked(pilo.fields.Int(default=2), call),
                  c=pilo.fields.SubForm(form_of(x=hooked(pilo.fields.Int(), call))))
    return cls, dict(c=data_of(x=value('x', KINDS, 1, '1a')), **data_of(b=value('b', ('absent', 'int', 'str'), 1, '1a'))), 7


def shape_context(call):
    cls = form_of(m=hooked(pilo.fields.Int('mine', default=5).from_context(), call), n=hooked(pilo.fields.Int('theirs', default=5).from_context(), call))
    return cls, {}, 7


def shape_away(call):
    """A hook that reads a field of a form that is not being mapped."""
    other = form_of(x=hooked(pilo.fields.Int(default=lambda: call(2)), call), y=pilo.fields.SubForm(form_of(z=hooked(pilo.fields.Int(), call))))()
    names = choice('names', (('x',), ('y', 'x')))

    def munge(self, value):
        return [value] + [getattr(other, n, None) for n in names]
    cls = form_of(f=pilo.fields.SubForm(form_of(a=pilo.fields.Int())), b=pilo.fields.Int(default=0))
    cls.f.form_type.a.munge(munge)
    return cls, dict(f=dict(a=int_('a', 0, 3)), **data_of(b=value('b', ('absent', 'int')))), 5


def shape_kinds(call):
    """Types of forms whose identities may fail."""
    class Kind(str):
        def __hash__(self):
            call()
            return str.__hash__(self)
    base = type('Base', (pilo.Form,), dict(type=pilo.fields.Type.abstract()))
    subtype(base, 'One', type=pilo.fields.Type.instance(Kind('one')), a=pilo.fields.Int())
    subtype(base, 'Two', type=pilo.fields.Type.instance('two', Kind('deux')), a=pilo.fields.String())
    return (form_of(l=pilo.fields.List(pilo.fields.PolymorphicSubForm(base.type))),
            dict(l=[dict(type=choice('type', ('one', 'two', 'deux', 'x')), a=value('a', KINDS, 1, '1a'))]), 6)


SHAPES = ('away', 'kinds', 'scalar', 'form', 'flat', 'list', 'tuple', 'dict', 'group', 'poly', 'rest', 'early', 'format', 'context')


def snapshot():
    path = ctx.src_path
    return ([(n, ctx.values_for(n)) for n in NAMES], None if path is None else [p.key for p in path])


def unchanged(before, when):
    after = snapshot()
    for (n, x), (_, y) in zip(before[0], after[0]):
        check(len(x) == len(y) and all(p is q for p, q in zip(x, y)), 'context variable %s %s' % (n, when))
    check(before[1] == after[1], 'source path ' + when)


def mapping(form_cls, data, how):
    if how == 'make':
        return form_cls(data)
    form = form_cls()
    if how == 'raise':
        return form.map(data, error='raise')
    if how == 'capture':
        return form.map(data, unmapped='capture', reset=True)
    return form.map(data)


@harness(cases=[(s,) for s in SHAPES], covers=['fault', 'normal', 'raised'])
def restored(shape):
    call = Faults(0)
    cls, data, most = globals()['shape_' + shape](lambda *a: call(*a))
    call = Faults(most)
    how = choice('how', ('map', 'source', 'make', 'raise'))
    data = data_of(**data)
    if how == 'source':
        data = Faulty(data, lambda *a: call(*a))
    closes = []
    if how in ('make', 'source'):
        closes.append(ctx(mine=int_('mine', 0, 3), src=pilo.DefaultSource({'u': {'v': 1}})))
        closes.append(ctx(src='u'))
    before = snapshot()
    raised = False
    try:
        mapping(cls, data, how)
    except (ValueError, AttributeError, pilo.SourceError, Fault, Death) as ex:
        raised = True
    unchanged(before, 'after mapping')
    cover('fault' if call.happened else 'raised' if raised else 'normal')
    # a later mapping
    call.at = 0
    x = value('later', ('absent', 'int'))
    n = form_node(('p', Node('form', fields=[('q', Node('int', min_value=1))])), ('r', Node('int', default=4)))
    compare(n, dict(p=data_of(q=x)))
    unchanged(before, 'after a later mapping')
    for c in reversed(closes):
        with c:
            pass
    check(snapshot()[1] is None and not hasattr(ctx, 'mine'), 'context after leaving')


@harness(cases=[('scalar',), ('form',), ('early',), ('list',)], covers=['fault', 'normal', 'raised'])
def read(shape):
    """Reading a field outside of any mapping."""
    call = Faults(0)
    cls, data, most = globals()['shape_' + shape](lambda *a: call(*a))
    form = cls()
    try:
        form.map(data_of(**data))
    except AttributeError:
        pass
    call = Faults(3)
    how = flag('again')
    if how:
        form = cls()
    before = snapshot()
    raised = False
    for name in [f.name for f in cls.fields]:
        try:
            getattr(form, name)
        except (ValueError, AttributeError, Fault, Death, LookupError):
            raised = True
        unchanged(before, 'after reading a field')
        try:
            check(form.has(name) in (True, False), 'has')
        except (ValueError, Fault, Death):
            raised = True
        unchanged(before, 'after asking for a field')
    cover('fault' if call.happened else 'raised' if raised else 'normal')


@harness(cases=[(s,) for s in ('json', 'union', 'mount', 'config')], covers=['fault', 'normal', 'error'])
def sources(which):
    """Mapping from the other sources."""
    call = Faults(6)
    f = form_of(a=hooked(pilo.fields.Int(), call), l=pilo.fields.List(hooked(pilo.fields.Int(), call), default=None))
    cls = form_of(f=pilo.fields.SubForm(f), g=pilo.fields.Int('f.b', default=1))
    a, l = value('a', ('absent', 'none', 'int'), 1), [value('l', ('int',))]
    data = dict(f=data_of(a=a, l=l))
    if which == 'json':
        s = pilo.source.JsonSource(json_text(data))
    elif which == 'union':
        s = pilo.UnionSource([data, dict(f=data_of(a=value('a2', ('absent', 'int')), l=[1]))], merge='combine')
    elif which == 'mount':
        s = pilo.source.MountSource(f=data['f'])
    else:
        s = pilo.source.ConfigSource('[f]\na = %s\n' % choice('text', ('1', 'x', '', '2 3')))
    before = snapshot()
    form = cls()
    try:
        errors = form.map(s)
        cover('error' if errors else 'normal')
    except (ValueError, AttributeError, Fault, Death):
        cover('fault')
    unchanged(before, 'after mapping')


@harness(cases=[(12, 'form'), (12, 'list'), (40, 'wide')], covers=['fault', 'normal', 'raised'])
def large(n, shape):
    """Forms and lists many deep, and a form of many fields."""
    call = Faults(2 * n)
    x = value('x', ('absent', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)
    if shape == 'wide':
        cls = form_of(**dict(('f%d' % i, hooked(pilo.fields.Int(default=1), call, ('munge',))) for i in range(n)))
        data = dict(('f%d' % i, i) for i in range(n))
        data['f%d' % (n - 1)] = x
        data = data_of(**data)
    else:
        f = hooked(pilo.fields.Int(), call)
        data = data_of(f=x) if shape == 'form' else {'f': [1] if x is ABSENT else [x]}
        if shape == 'list':
            f = pilo.fields.List(f)
        for i in range(n - 1):
            if shape == 'list':
                f, data = hooked(pilo.fields.List(f), call, ('validate',)), {'f': [data['f']]}
            else:
                f, data = hooked(pilo.fields.SubForm(form_of(f=f)), call, ('validate',)), {'f': data}
        cls = form_of(f=f)
    before = snapshot()
    raised = False
    try:
        mapping(cls, data, choice('how', ('map', 'make', 'raise')))
    except (ValueError, Fault, Death):
        raised = True
    unchanged(before, 'after mapping')
    cover('fault' if call.happened else 'raised' if raised else 'normal')


class Odd(ValueError, LookupError):
    """An error of several kinds."""


RAISED = (StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit, KeyError, IndexError, AttributeError, TypeError, RuntimeError, AssertionError,
          NotImplementedError, OverflowError, UnicodeError, Odd, pilo.fields.FormError, pilo.SourceError, ctx.RewindDidNotStop)


@harness(cases=[(w,) for w in ('munge', 'parse', 'default', 'compute', 'resolve', 'key_filter', 'block')], covers=['left', 'reported'])
def any_exception(where):
    """Whatever kind of exception leaves the mapping, the context is as before."""
    kind = choice('kind', RAISED)
    at = int_('at', 0, 3)
    calls = []

    def fault():
        calls.append(1)
        if len(calls) == at + 1:
            raise kind('a', 'b') if kind is pilo.SourceError else kind() if kind is ctx.RewindDidNotStop else kind('fault')
        return 4

    if where == 'resolve':
        def hook(self):
            fault()
            return self.ctx(src='a')
    elif where in ('munge', 'parse', 'key_filter'):
        def munge(self, value):
            return fault()

        def parse(self, path):
            return fault()

        def key_filter(self, key):
            return fault()
        hook = {'munge': munge, 'parse': parse, 'key_filter': key_filter}[where]
    else:
        def hook(self):
            return fault()
    f = pilo.fields.Int()
    if where == 'key_filter':
        f = pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int())
    if where != 'block':
        getattr(f, where).attach(f)(hook)
    cls = form_of(l=pilo.fields.List(pilo.fields.SubForm(form_of(a=f))), b=pilo.fields.Int(default=0))
    item = {'k': 1} if where == 'key_filter' else 1
    data = {'l': [{} if where == 'default' else {'a': item}, {'a': item}, {'b': item}]}
    before = snapshot()
    form = cls()
    try:
        if where == 'block':
            with ctx(mine=1, src=pilo.DefaultSource(data)):
                with ctx(src='l'):
                    for i in range(4):
                        with ctx(src=i):
                            fault()
        else:
            form.map(data)
        cover('reported')
    except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as ex:
        if not isinstance(ex, kind):
            raise
        cover('left')
    unchanged(before, 'after an exception')
    check(form_of(z=pilo.fields.Int())(z=3) == {'z': 3}, 'a later mapping')
