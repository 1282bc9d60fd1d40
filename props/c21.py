"""C21: fields read before they are mapped."""
import pilo
from pilo.context import ctx
from .common import *

BOUNDS = {'forms': 'three fields in any order of declaration, reading each other in a chain or fork; forms nested two deep '
          'directly, in a list, tuple, dict, group or flat whose hooks read the form around', 'hooks': 'compute, parse, munge, filter, '
          'validate and default', 'values': 'absent, null, integers -9..9, texts of 0..1 characters',
          'sizes': 'chains of 5 and 20 fields, declared there, back or mixed, one with any data'}
OUTSIDE = ['fields that read each other in a circle', 'hooks with effects other than their result']

KINDS = ('absent', 'none', 'int', 'str')


def read(form, name):
    """A field's value, or None without one."""
    try:
        return getattr(form, name)
    except AttributeError:
        return None


def plus(x, y):
    return x if y is None or x is None else x + y


class Chain(object):
    """Reference of fields whose munge adds other fields."""

    def __init__(self, data, reads, nodes):
        self.data, self.reads, self.nodes = data, reads, nodes
        self.ref = Ref()
        self.done = {}

    def get(self, name):
        if name not in self.done:
            node = self.nodes[name]
            ref = Ref()

            def munge(v):
                for r in self.reads.get(name, ()):
                    y = self.get(r)
                    v = plus(v, None if is_nothing(y) else y)
                return v
            n = Node(node.kind, default=node.default, munge=munge, **node.limits)
            self.done[name] = ref.field(n, name, self.data, ())
            self.errors = getattr(self, 'errors', []) + [(name, e) for e in ref.errors]
        return self.done[name]


def once(errors, known):
    got = errors_of(errors)
    out = []
    for e in got:
        if e not in out:
            out.append(e)
    check(len(out) == len(got), 'an error is reported more than once', known=[('read-again', known)])
    return out


READS = {'chain': {'a': ('b',), 'b': ('c',)}, 'fork': {'a': ('b', 'c')}, 'join': {'a': ('c',), 'b': ('c',)},
         'both': {'a': ('b', 'c'), 'b': ('c',)}}
ORDERS = [('a', 'b', 'c'), ('a', 'c', 'b'), ('b', 'a', 'c'), ('b', 'c', 'a'), ('c', 'a', 'b'), ('c', 'b', 'a')]


@harness(cases=[(s,) for s in sorted(READS)], covers=['clean', 'error'])
def orders(shape):
    """Munge hooks reading other fields: the outcome does not depend on where they are declared."""
    reads = READS[shape]
    order = choice('order', ORDERS)
    nodes = dict(a=Node('int', default=choice('da', (UNSET, 2))), b=Node('int', max_value=9), c=Node('int', default=choice('dc', (UNSET, ABSENT))))
    data = data_of(a=value('a', ('absent', 'int')), b=value('b', ('absent', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9),
                   c=value('c', ('absent', 'int', 'none')))
    fields = {}
    for name in order:
        n = nodes[name]
        f = build(n)
        if reads.get(name):
            def munge(self, value, _n=None):
                raise AssertionError
            names = reads[name]

            def make(names):
                def munge(self, value):
                    for r in names:
                        value = plus(value, read(self, r))
                    return value
                return munge
            f.munge(make(names))
        fields[name] = f
    cls = type('F', (pilo.Form,), fields)
    form, errors = outcome(cls, data)
    want = Chain(data, reads, nodes)
    vals = dict((n, want.get(n)) for n in order)
    wrong = [e for n, e in getattr(want, 'errors', [])]
    read_names = set(x for r in reads.values() for x in r)
    got = once(errors, any(n in read_names for n, e in getattr(want, 'errors', [])))
    check(sorted(got) == sorted(wrong), 'errors')
    check(same(dict(form), dict((n, v) for n, v in vals.items() if not is_nothing(v))), 'values')
    cover('error' if errors else 'clean')


STAGES = ('compute', 'parse', 'munge', 'filter', 'validate', 'default', 'constant')


@harness(cases=[(s,) for s in STAGES], covers=['read', 'no value'])
def stages(stage):
    """Any hook may read a field declared after it."""
    x, y = value('x', ('absent', 'int')), value('y', KINDS, cap=1, alphabet='1a', lo=0, hi=9)
    seen = []

    def look(self):
        v = read(self, 'z')
        seen.append(v)
        return v

    def zero(self):
        look(self)
        return 1 if stage == 'compute' else 2

    def one(self, value):
        look(self)
        return True if stage in ('filter', 'validate') else value

    def parse(self, path):
        look(self)
        return path.primitive(int)

    first = flag('first')
    z = None if first else pilo.fields.Int(max_value=8)
    f = pilo.fields.Int(default=5) if stage != 'default' else pilo.fields.Int()
    if stage == 'constant':
        f = pilo.fields.String().format('{y}', y='z')
    elif stage in ('compute', 'default'):
        getattr(f, stage)(zero)
    elif stage == 'parse':
        f.parse(parse)
    else:
        getattr(f, stage)(one)
    if z is None:
        z = pilo.fields.Int(max_value=8)
    fields = dict(z=z, x=f, w=pilo.fields.Int(default=0))
    form, errors = outcome(form_of(**fields), data_of(x=x, z=y))
    ref = Ref()
    want = ref.field(Node('int', max_value=8), 'z', data_of(z=y), ())
    runs = stage in ('compute', 'constant') or (stage == 'default') == (x is ABSENT) or (stage in ('munge', 'filter', 'validate') and x is not ABSENT)
    runs = True if stage in ('compute', 'constant') else (x is ABSENT) if stage == 'default' else (x is not ABSENT)
    got = once(errors, runs and is_nothing(want))
    if stage == 'constant':
        if is_nothing(want):
            check(sorted(got) == sorted(ref.errors + [('Invalid', 'x')]), 'errors')
            cover('no value')
        else:
            check(got == [] and same(form['x'], text(want)), 'text')
            cover('read')
        return
    check(len(seen) == (1 if runs else 0), 'the hook ran')
    check(got == ref.errors, 'errors')
    if seen:
        if is_nothing(want):
            check(seen == [None], 'a value although there is none')
            cover('no value')
        else:
            check(same(seen[0], want), 'value read')
            cover('read')
    check(same(dict(form), data_of(x=1 if stage == 'compute' else x if x is not ABSENT else 2 if stage == 'default' else 5,
                                   z=ABSENT if is_nothing(want) else want, w=0)), 'values')


WHERE = ('form', 'list', 'tuple', 'dict', 'group', 'flat', 'two', 'poly')


@harness(cases=[(w,) for w in WHERE], covers=['read', 'no value', 'error'])
def around(where):
    """A hook of a nested form reads a field of the form around it."""
    seen, keep = [], []

    top = pilo.fields.Int(default=0)

    def enter(self):
        keep.append(self)
        return 1

    def munge(self, value):
        seen.append(read(keep[0], 'y'))
        return plus(value, seen[-1])
    fields = dict(p=pilo.fields.Int(default=0), q=pilo.fields.Int())
    fields['p'].munge(munge)
    inner = form_of(**fields)
    p, q = int_('p', 0, 9), value('q', ('absent', 'int', 'str'), cap=1, alphabet='1a')
    leaf = data_of(p=p, q=q)
    if where == 'form':
        f, data, place_ = pilo.fields.SubForm(inner), {'f': leaf}, 'f.'
    elif where == 'list':
        f, data, place_ = pilo.fields.List(inner), {'f': [leaf]}, 'f[0].'
    elif where == 'tuple':
        f, data, place_ = pilo.fields.Tuple((pilo.fields.SubForm(inner),)), {'f': [leaf]}, 'f[0].'
    elif where == 'dict':
        f, data, place_ = pilo.fields.Dict(pilo.fields.String(), pilo.fields.SubForm(inner)), {'f': {'k': leaf}}, 'f.k.'
    elif where == 'group':
        f, data, place_ = pilo.fields.Group(('f', pilo.fields.SubForm(inner))), {'f': leaf}, 'f.'
    elif where == 'flat':
        f, data, place_ = pilo.fields.SubForm(inner, flat=True), leaf, ''
    elif where == 'poly':
        base = type('Base', (pilo.Form,), dict(type=pilo.fields.Type.abstract()))
        sub = dict(type=pilo.fields.Type.instance('one'))
        sub.update(p=pilo.fields.Int(default=0), q=pilo.fields.Int())
        sub['p'].munge(munge)
        inner = type('Sub', (base,), sub)
        leaf = dict(leaf, type='one')
        f, data, place_ = pilo.fields.PolymorphicSubForm(base.type), {'f': leaf}, 'f.'
    else:
        mid = form_of(m=pilo.fields.SubForm(inner), n=pilo.fields.Int(default=1))
        f, data, place_ = pilo.fields.SubForm(mid), {'f': {'m': leaf}}, 'f.m.'
    y = value('y', ('absent', 'int', 'str', 'none'), cap=1, alphabet='1a', lo=-9, hi=9)
    if y is not ABSENT:
        data['y'] = y
    top.compute(enter)
    z = int_('z', 0, 9)
    data['z'] = z
    dflt = choice('dflt', (UNSET, 6))
    kw = {} if dflt is UNSET else dict(default=dflt)
    cls = form_of(a=top, f=f, y=pilo.fields.Int(**kw), z=pilo.fields.Int())
    form, errors = outcome(cls, data)
    ref = Ref()
    want = ref.field(Node('int', default=dflt), 'y', data_of(y=y), ())
    y_errors = list(ref.errors)
    wq = ref.field(Node('int'), 'q', leaf, ())
    wrong = [(k, w if w == 'y' else place_ + w) for k, w in ref.errors]
    got = once(errors, is_nothing(want))
    check(sorted(got) == sorted(wrong), 'errors')
    check(len(seen) == 1, 'the hook ran once')
    yv = None if is_nothing(want) else want
    check(seen[0] is None if yv is None else same(seen[0], yv), 'value read')
    cover('no value' if is_nothing(want) else 'read')
    check(same(form['z'], z), 'the field after it')
    check('y' not in form if is_nothing(want) else same(form['y'], want), 'the field read')
    if is_nothing(wq):
        cover('error')
    elif not (where == 'form' and is_nothing(want)):
        v = form['f'] if 'f' in form else None
        if where in ('list', 'tuple'):
            v = v[0] if v else None
        elif where == 'dict':
            v = v.get('k')
        elif where == 'group':
            v = v[0][2] if v else None
        elif where == 'two':
            v = v['m'] if v is not None and 'm' in v else None
    if is_nothing(wq) or y_errors:
        return
    check(v is not None and same(v['p'], plus(p, yv)) and same(v['q'], wq), 'values of the nested form')


@harness(covers=['default', 'missing', 'optional', 'kept'])
def outside():
    """Reading an unmapped field when nothing is being mapped: it is mapped from no data, and kept."""
    dflt = choice('dflt', (UNSET, 4, None, ABSENT, 'call'))
    x = value('x', ('absent', 'int', 'str'), cap=1, alphabet='1a')
    n = Node('int', default=(lambda: 9) if dflt == 'call' else dflt)
    cls = form_type(form_node(('a', Node('int', default=1)), ('x', n)))
    form = cls()
    if flag('mapped'):
        errors = form.map(data_of(x=x))
        if 'x' in form:
            check(same(form.x, form['x']), 'reading a mapped field')
            cover('kept')
            return
    try:
        v = form.x
    except AttributeError:
        check(dflt is ABSENT, 'AttributeError')
        cover('optional')
        check('x' not in form, 'kept')
        return
    except pilo.fields.FormError as ex:
        check(dflt is UNSET, 'FormError')
        check([kind_of(e) for e in ex.field_errors] == ['Missing'], 'missing')
        check('x' not in form, 'kept')
        cover('missing')
        return
    cover('default')
    want = 9 if dflt == 'call' else dflt
    check(v is None if want is None else v == want, 'default')
    check('x' in form and form['x'] is v or form['x'] == v, 'kept')


@harness(covers=['other'])
def other_form():
    """Reading a field of some other form maps that one from no data, and does not disturb the mapping."""
    other = form_of(d=pilo.fields.Int(default=4), e=pilo.fields.SubForm(form_of(g=pilo.fields.Int(default=2)), default=None))()

    def munge(self, value):
        return [value, other.d, other.e]
    x, y = value('x', ('absent', 'int', 'none')), value('y', KINDS, cap=1, alphabet='1a')
    f = pilo.fields.Int(default=3)
    f.munge(munge)
    form, errors = outcome(form_of(x=f, y=pilo.fields.Int()), data_of(x=x, y=y, d=8))
    ref = Ref()
    want = ref.field(Node('int'), 'y', data_of(y=y), ())
    check(errors_of(errors) == ref.errors, 'errors')
    check('y' not in form if is_nothing(want) else same(form['y'], want), 'the field after it')
    if x is ABSENT:
        check(form['x'] == 3, 'default')
    else:
        cover('other')
        check(same(form['x'], [x, 4, None]), 'values read')


@harness(cases=[(w,) for w in ('compute', 'munge', 'validate', 'unrelated')], covers=['read', 'absent'])
def other_data(stage):
    """A field of some other form is not read from the data of the form being mapped, whatever these hold where the hook runs."""
    inner = form_of(g=pilo.fields.Int(default=2))
    o = form_of(d=pilo.fields.Int(default=4), e=pilo.fields.SubForm(inner, default=None), h=pilo.fields.List(pilo.fields.Int(), default=list), z=pilo.fields.Int())
    other = o()
    name = choice('name', ('d', 'e', 'h', 'z'))

    def look(self):
        try:
            return getattr(o() if stage == 'unrelated' else other, name)
        except (AttributeError, pilo.fields.FormError):
            return 'absent'
    got = []
    f = pilo.fields.Field('f')
    if stage in ('compute', 'unrelated'):
        def compute(self):
            got.append(look(self))
            return 1
        f.compute.attach(f)(compute)
    elif stage == 'munge':
        def munge(self, value):
            got.append(look(self))
            return 1
        f.munge.attach(f)(munge)
    else:
        def validate(self, value):
            got.append(look(self))
            return True
        f.validate.attach(f)(validate)
    here = {'d': value('x', ('int', 'none', 'str'), cap=1, lo=0, hi=9), 'e': {'g': 5}, 'h': [1], 'z': int_('z', 0, 9)}
    around = choice('around', ('form', 'list', 'top'))
    cls = form_of(f=f, k=pilo.fields.Int(default=0))
    data = dict(here, f=here)
    if around == 'form':
        cls, data = form_of(e=pilo.fields.SubForm(cls)), {'e': data, 'd': 1}
    elif around == 'list':
        cls, data = form_of(h=pilo.fields.List(pilo.fields.SubForm(cls))), {'h': [data], 'd': 1}
    form, errors = outcome(cls, data)
    if name == 'z':
        # missing: whoever reads it is told so
        cover('absent')
        check(got == ['absent'], 'a field that is missing was read')
    else:
        cover('read')
        check(not errors and len(got) == 1 and same(got[0], {'d': 4, 'e': None, 'h': []}[name]), 'read from the data of the form being mapped')
        if stage != 'unrelated':
            check(name in other, 'not kept in its form')


@harness(covers=['read', 'error'])
def nested_ahead():
    """A hook reads a field of a nested form declared after it."""
    def munge(self, value):
        f = read(self, 'f')
        return plus(value, None if f is None else f.q)
    x, q = int_('x', 0, 9), value('q', ('absent', 'int', 'str'), cap=1, alphabet='1a')
    f = pilo.fields.Int()
    f.munge(munge)
    cls = form_of(x=f, f=pilo.fields.SubForm(form_of(q=pilo.fields.Int())), z=pilo.fields.Int(default=1))
    form, errors = outcome(cls, dict(x=x, f=data_of(q=q), z=x))
    ref = Ref()
    want = ref.field(Node('int'), 'q', data_of(q=q), ('f',))
    got = once(errors, is_nothing(want))
    check(got == ref.errors, 'errors')
    check(same(form['z'], x), 'the field after it')
    if is_nothing(want):
        cover('error')
        check(same(form['x'], x) and 'f' not in form, 'values')
    else:
        cover('read')
        check(same(form['x'], x + want) and same(dict(form['f']), {'q': want}), 'values')


@harness(covers=['kept', 'same'])
def elsewhere():
    """The value of an unmapped field of another form is kept there: its hooks run once."""
    n = int_('n', 0, 9)
    count, keep = [], {}

    def compute(self):
        count.append(1)
        return n + len(count)
    late = pilo.fields.Field()
    late.compute(compute)
    inner = form_of(late=late, d=pilo.fields.Int(default=lambda: n + len(count)))
    where = choice('where', ('other', 'nested', 'both'))
    other = inner() if where == 'other' else form_of(f=pilo.fields.SubForm(inner))({'f': {'d': 1}})['f'] if where == 'nested' else inner({'d': 1})
    count[:] = []
    if where != 'other':
        del other['late']
    names = [choice('name%d' % i, ('late', 'd')) for i in range(2)]

    def look(self):
        return [getattr(other, m) for m in names]
    f = pilo.fields.Field()
    f.compute(look)
    hit = flag('again')
    cls = form_of(x=f, y=pilo.fields.Int(default=0))
    form, errors = outcome(form_of(g=pilo.fields.SubForm(cls)) if hit else cls, {'g': {}} if hit else {})
    check(not errors, 'errors')
    got = (form['g'] if hit else form)['x']
    check(len(count) == (1 if 'late' in names else 0), 'the hook runs once')
    cover('kept')
    for m, v in zip(names, got):
        check(m in other and same(other[m], v) and same(getattr(other, m), v), 'the value is kept in its form')
    if names[0] == names[1]:
        cover('same')
        check(same(got[0], got[1]), 'two readings differ')


@harness(cases=[(5,), (20,)], covers=['clean', 'absent'])
def chain(n):
    """Each field reads the next, wherever it is declared."""
    runs, d, last = [], choice('d', (pilo.NONE, 2)), flag('last')

    def make(i):
        f = pilo.fields.Int(default=d if i == n - 1 else 1)

        def munge(self, value):
            runs.append(i)
            y = read(self, 'f%d' % (i + 1)) if i + 1 < n else None
            return plus(value, y)
        if i < n - 1 or last:
            f.munge(munge)
        return f
    order = choice('order', ('there', 'back', 'mixed'))
    at = {'there': list(range(n)), 'back': list(range(n))[::-1], 'mixed': list(range(0, n, 2)) + list(range(1, n, 2))[::-1]}[order]
    cls = type('F', (pilo.Form,), dict(('f%d' % i, make(i)) for i in at))
    x, where = value('x', ('absent', 'none', 'int')), choice('where', (0, n // 2, n - 1))
    data = dict(('f%d' % i, 1) for i in range(n) if i != where)
    if x is not ABSENT:
        data['f%d' % where] = x
    form, errors = outcome(cls, data)
    cover('absent' if x is ABSENT else 'clean')
    y, want = None, {}
    for i in range(n - 1, -1, -1):
        v = data.get('f%d' % i, ABSENT)
        if v is ABSENT:
            # a default is not munged
            y = 1 if i < n - 1 else d
        else:
            y = plus(v, y)
        if y is pilo.NONE:
            y = None
        else:
            want['f%d' % i] = y
    check(not errors, 'errors')
    check(same(dict(form), want), 'values')
    check(len(runs) <= 2 * n, 'hooks ran over and over')

