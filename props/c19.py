"""C19: the form type is chosen by the data."""
import pilo
from .common import *

BOUNDS = {'hierarchy': 'a base, nine derived forms, up to three levels, some without identity, one with two identities, one constant',
          'identities': 'any text of 0..2 characters of "abcd", null, absent, integers',
          'values': 'integers -9..9, absent, texts',
          'sizes': '10 and 30 types, siblings or a chain of subclasses, identities of two digits'}
OUTSIDE = ['other hierarchies; subclasses declared after the first use']


KEEP = []


def hierarchy(computed=False):
    lo = int_('lo', -5, 5)

    class Base(pilo.Form):
        n = pilo.fields.Int(default=5)
        kind = pilo.fields.Type.abstract()
        y = pilo.fields.Int(default=0)

        if computed:
            @kind.compute
            def kind(self):
                return 'a' if self.n > lo else 'b'

    class A(Base):
        kind = pilo.fields.Type.instance('a')
        x = pilo.fields.Int(min_value=lo)

    class B(Base):
        kind = pilo.fields.Type.instance('b', 'bb')
        x = pilo.fields.String(min_length=1)
        # something else than in the base
        y = pilo.fields.String(default='u')

    class C(A):
        kind = pilo.fields.Type.constant('c')

    class D(B):
        kind = pilo.fields.Type.instance('d')
        z = pilo.fields.Int(default=9)

    class E(Base):
        # declares no identity
        kind = pilo.fields.Int()

    class G(Base):
        kind = None

    class H(B):
        x = pilo.fields.String()

    class I(H):
        # below a form without an identity of its own
        kind = pilo.fields.Type.instance('ad')

    class J(G):
        kind = pilo.fields.Type.instance('da')
        x = pilo.fields.Int()

    # nothing but the test refers to them
    KEEP[:] = [Base, A, B, C, D, E, G, H, I, J]
    return Base, {'a': A, 'b': B, 'bb': B, 'c': C, 'd': D, 'ad': I, 'da': J}


def chosen(types, k):
    for name, cls in types.items():
        if k == name:
            return cls
    return None


def document():
    return data_of(kind=value('kind', ('absent', 'str', 'int', 'none'), cap=2, alphabet='abcd'),
                   x=value('x', ('absent', 'int', 'str'), cap=1, alphabet='1x', lo=-9, hi=9), y=choice('y', (ABSENT, 'v')))


def target(types, d):
    k = d.get('kind')
    return chosen(types, k) if isinstance(k, str) else None


@harness(covers=['chosen', 'unknown'])
def cast():
    """cast gives the type of the data's identity, or refuses."""
    base, types = hierarchy()
    d = document()
    want = target(types, d)
    try:
        got = base.kind.cast(d)
    except ValueError:
        cover('unknown')
        check(want is None, 'a known identity was refused')
    else:
        cover('chosen')
        check(want is not None, 'an unknown identity was accepted')
        check(got is want, 'another type')


@harness(cases=[('direct',), ('list',), ('dict',)], covers=['clean', 'error', 'unknown'])
def polymorphic(how):
    """A polymorphic field is the nested form of the type chosen."""
    base, types = hierarchy()
    d = document()
    f = pilo.fields.PolymorphicSubForm(base.kind)
    data = {'f': {'direct': d, 'list': [d], 'dict': {'k': d}}[how]}
    where = {'direct': 'f', 'list': 'f[0]', 'dict': 'f.k'}[how]
    if how == 'list':
        f = pilo.fields.List(f)
    elif how == 'dict':
        f = pilo.fields.Dict(pilo.fields.String(), f)
    form, errors = outcome(form_of(f=f), data)
    got = form.get('f')
    if how == 'list':
        got = got[0] if got else None
    elif how == 'dict':
        got = got.get('k')
    want = target(types, d)
    if want is None and d.get('kind', 1) is None:
        # a null identity counts as no data
        check(errors_of(errors) == [('Missing', where)], 'null identity')
        return
    if want is None:
        cover('unknown')
        check(errors_of(errors) == [('Invalid', where)], 'an unknown identity is invalid')
        check(got is None, 'a value of an unknown type')
        return
    alone, alone_errors = mapped(want, d)
    check(errors_of(errors) == [(k, where + '.' + p) for k, p in errors_of(alone_errors)], 'errors of the form')
    if errors:
        cover('error')
        check(got is None, 'a form with errors is no value')
    else:
        cover('clean')
        check(type(got) is want, 'another type of form')
        check(same(dict(got), dict(alone)), 'values of the form')


@harness(covers=['seen'])
def computed():
    """The identity may be computed from fields before it."""
    base, types = hierarchy(True)
    n = int_('n', -9, 9)
    lo = base.__subclasses__()[0].x.min_value
    d = {'n': n, 'x': 'q'}
    got = base.kind.cast(d)
    cover('seen')
    check(got is (types['a'] if n > lo else types['b']), 'another type')


@harness(covers=['accepted', 'rejected'])
def instance():
    """A concrete form accepts its own identities only; a constant ignores the data."""
    base, types = hierarchy()
    cls = types[choice('type', ('a', 'b', 'c', 'd', 'ad'))]
    own = [k for k, c in types.items() if c is cls]
    k = value('kind', ('absent', 'str'), cap=2, alphabet='abcd')
    form, errors = outcome(cls, data_of(kind=k, x=choice('x', (9, 'q'))))
    mine = [e for e in errors_of(errors) if e[1] == 'kind']
    if own == ['c']:
        check(form['kind'] == 'c' and not mine, 'the constant')
    elif k is ABSENT:
        # the only identity is the default
        check(not mine and (form.get('kind') == own[0] if len(own) == 1 else 'kind' not in form), 'default identity')
    elif or_(*[k == o for o in own]):
        cover('accepted')
        check(not mine and same(form['kind'], k), 'an own identity')
    else:
        cover('rejected')
        check(mine == [('Invalid', 'kind')] and 'kind' not in form, 'a foreign identity')


@harness(covers=['seen'])
def twice():
    """The choice depends on the data alone, not on what was chosen before."""
    base, types = hierarchy()
    ks = [choice('k%d' % i, ('a', 'b', 'bb', 'c', 'd', 'zz')) for i in range(3)]
    f = pilo.fields.PolymorphicSubForm(base.kind)
    cls = form_of(f=pilo.fields.List(f))
    form, errors = mapped(cls, {'f': [{'kind': k, 'x': 9 if k in ('a', 'c') else 'q', 'n': int_('n', 0, 3)} for k in ks]})
    cover('seen')
    check([type(x) for x in form['f']] == [types[k] for k in ks if k in types], 'types in order')
    check(errors_of(errors) == [('Invalid', 'f[%d]' % i) for i, k in enumerate(ks) if k not in types], 'errors')


@harness(covers=['identity', 'default', 'raised'])
def probing():
    """The identity found in the data, or the default given instead of an error."""
    base, types = hierarchy()
    d = document()
    base.kind.probe({'kind': 'a'})
    table = base.kind.types
    check(dict((k, table[k]) for k in table) == types, 'the identities known')
    has = flag('default')
    dflt = int_('dflt', -9, 9)
    k = d.get('kind', ABSENT)
    try:
        got = table.probe(d, dflt) if has else table.probe(d)
    except pilo.FieldError as ex:
        cover('raised')
        check(not has and not isinstance(k, str), 'raised')
        check(kind_of(ex) == ('Missing' if k is ABSENT else 'Invalid') and text(ex.path) == 'kind', 'the error of the identity')
        return
    if isinstance(k, str) or k is None:
        cover('identity')
        check(same(got, k), 'the identity')
    else:
        cover('default')
        check(has and same(got, dflt), 'the default')


@harness(covers=['refused'])
def misused():
    """Types are those of a field declared in a form."""
    from pilo import Types
    for x in (choice('x', (3, 'a', None, pilo.Form)),):
        try:
            Types.map(x)
            fail('types of what is no field')
        except TypeError:
            pass
    try:
        Types.map(pilo.fields.Type.abstract())
        fail('types of a field in no form')
    except ValueError:
        cover('refused')


@harness(cases=[(n, how) for n in (10, 30) for how in ('flat', 'deep')], covers=['chosen', 'unknown'])
def many(n, how):
    """Any of many types, siblings or each derived from the one before."""
    base = type('Base', (pilo.Form,), dict(kind=pilo.fields.Type.abstract(), x=pilo.fields.Int(default=0)))
    last, types = base, {}
    for i in range(n):
        # two identities for every third
        names = ['k%d' % i] + (['j%d' % i] if i % 3 == 0 else [])
        last = type('T%d' % i, (last if how == 'deep' else base,), dict([('kind', pilo.fields.Type.instance(*names)), ('v%d' % (i % 3), pilo.fields.Int(default=i))]))
        for k in names:
            types[k] = last
    k = choice('first', 'kjl') + str_('k', 2, '0123456789', least=1)
    want = chosen(types, k)
    form, errors = mapped(form_of(f=pilo.fields.PolymorphicSubForm(base.kind), l=pilo.fields.List(pilo.fields.PolymorphicSubForm(base.kind))),
                          {'f': {'kind': k}, 'l': [{'kind': 'k%d' % i} for i in range(n)]})
    check([type(x) for x in form['l']] == [types['k%d' % i] for i in range(n)], 'types in order')
    for i, x in enumerate(form['l']):
        check(x['kind'] == 'k%d' % i and x['v%d' % (i % 3)] == i, 'values')
    if want is None:
        cover('unknown')
        check(errors_of(errors) == [('Invalid', 'f')] and 'f' not in form, 'an unknown identity is invalid')
    else:
        cover('chosen')
        check(not errors and type(form['f']) is want and same(form['f']['kind'], k), 'another type')
