"""C13: what JSON text becomes as a requested type."""
import pilo
from .common import *

BOUNDS = {'documents': 'an object of one or two members; leaves null, booleans, integers -50..150, floats n/4, nan, '
                       'infinities, texts of 0..3 characters of the alphabets of the harness, arrays, objects',
          'sizes': 'arrays and objects of up to 40 items, one any; documents 25 deep'}
OUTSIDE = ['the text of the document itself (json.loads is trusted)', 'long texts']

FIELDS = {'any': pilo.fields.Field, 'str': pilo.fields.String, 'int': pilo.fields.Integer,
          'float': pilo.fields.Float, 'bool': pilo.fields.Boolean}


def judge(kind, x, strict):
    cls = form_of(f=FIELDS[kind]())
    encoded = flag('encoded')
    src = pilo.source.JsonSource(json_text({'f': x}, encoded), strict=strict, **({'encoding': 'utf-8'} if encoded else {}))
    form, errors = outcome(cls, src)
    if x is None:
        check(not errors and form == {'f': None}, 'null is null of any type')
        return
    ok, y = coerce_json(kind, x, strict)
    if ok:
        cover('accepted')
        check(not errors, 'a value of the type was rejected')
        check('f' in form and same(form['f'], y), 'not the value, as the type')
    else:
        cover('rejected')
        check(kinds(errors) == [('Invalid', 'f')], 'exactly one Invalid expected')
        check('f' not in form, 'a rejected value was stored')


CASES = [(k, s) for k in FIELDS for s in (False, True)]


@harness(cases=CASES, covers=['accepted'])
def values(kind, strict):
    kinds_ = ('none', 'bool', 'int', 'float', 'list', 'dict')
    if kind == 'str' and not strict:
        kinds_ = ('none', 'bool', 'int')
    judge(kind, value('x', kinds_, lo=-50, hi=150), strict)


@harness(cases=[(k, a, s) for k, a in (('int', '019-+_ .a'), ('float', '01-+.e'), ('float', 'infa'), ('str', 'a1 '),
                                       ('bool', 'true')) for s in (False, True)], covers=['rejected'])
def texts(kind, alphabet, strict):
    judge(kind, str_('x', 3, alphabet), strict)


@harness(covers=['error', 'clean'])
def nested():
    """Documents map like the data they are the text of."""
    inner = Node('form', fields=[('x', Node('int', min_value=int_('lo', -5, 5))), ('y', Node('any', default=None))])
    n = form_node(('f', Node('list', item=inner)), ('g', Node('dict', key=Node('str'), item=Node('bool'))),
                  ('h', Node('float', default=1.5)))
    item = lambda i: data_of(x=value('x%d' % i, ('absent', 'none', 'int', 'list')), y=value('y%d' % i, ('absent', 'int')))
    data = data_of(f=[item(i) for i in range(pick('n', 3))], g={'a.b': value('g', ('int', 'str'), cap=1)},
                   h=value('h', ('absent', 'float')))
    cls = form_type(n)
    ref = Ref(coerce=coerce_json)
    want = ref.form(n, data)
    form, errors = outcome(cls, pilo.source.JsonSource(json_text(data)))
    cover('error' if errors else 'clean')
    agree(form, errors, want, ref.errors)


@harness(covers=['seen'])
def names():
    """A member whose name has a dot is found; a dotted name leads into objects."""
    x, y = int_('x', 0, 9), int_('y', 0, 9)
    how = choice('how', ('flat', 'nested', 'both', 'neither'))
    data = {'flat': {'a.b': x}, 'nested': {'a': {'b': y}}, 'both': {'a.b': x, 'a': {'b': y}}, 'neither': {'a': x}}[how]
    form, errors = outcome(form_of(f=pilo.fields.Int('a.b')), pilo.source.JsonSource(json_text(data)))
    cover('seen')
    if how == 'neither':
        check(errors_of(errors) == [('Missing', 'a.b')], 'Missing expected')
    else:
        check(not errors and same(form['f'], y if how == 'nested' else x), 'the wrong member')


@harness(cases=[(4, 1), (5, 5)], covers=['found', 'absent'])
def dotted(cap, least):
    """Any name in a document is what it is in the native data."""
    n = [int_('n%d' % i, -9, 9) for i in range(6)]
    data = {'a': {'a': {'a': n[0], 'b': n[1]}, 'b.a': n[2], 'b': {'a': {'a': n[0]}}}, 'a.b': {'a': n[3]}, 'b': [n[4]], 'b.b': n[5], '': {'a': n[1]}, 'ab': {'': n[2]}}
    key = str_('key', cap, 'ab.', least)
    where = choice('where', ('top', 'inside'))
    cls = form_of(f=pilo.fields.Field(key), z=pilo.fields.Int('z', default=3))
    if where == 'inside':
        data, cls = {'x': data}, form_of(x=pilo.fields.SubForm(cls))
    form, errors = mapped(cls, data)
    got, got_errors = mapped(cls, pilo.source.JsonSource(json_text(data)))
    cover('absent' if errors else 'found')
    check(errors_of(got_errors) == errors_of(errors), 'errors')
    check(same(dict(got), dict(form)), 'values')


@harness(cases=[(n, s) for n in (15, 40) for s in (False, True)], covers=['error', 'clean'])
def many(n, strict):
    """Long arrays and wide objects."""
    at = choice('at', (0, n // 2, n - 1))
    x = value('x', ('absent', 'none', 'bool', 'int', 'str'), cap=1, alphabet='1t', lo=-9, hi=9)
    kind = choice('kind', ('int', 'str', 'bool'))
    node = form_node(('l', Node('list', item=Node('form', fields=[('x', Node(kind, default=choice('d', (UNSET, None))))]))),
                     ('w', Node('form', fields=[('f%d' % i, Node(kind, default=None)) for i in range(n)])))
    good = {'int': 4, 'str': 's', 'bool': True}[kind]
    data = dict(l=[data_of(x=x) if i == at else {'x': good} for i in range(n)],
                w=dict(('f%d' % i, x if i == at else good) for i in range(n) if not (i == at and x is ABSENT)))
    ref = Ref(coerce=lambda k, v: coerce_json(k, v, strict))
    want = ref.form(node, data)
    form, errors = outcome(form_type(node), pilo.source.JsonSource(json_text(data), strict=strict))
    cover('error' if errors else 'clean')
    agree(form, errors, want, ref.errors)


@harness(cases=[(6,), (25,)], covers=['error', 'clean'])
def deep(n):
    """Objects and arrays in objects and arrays."""
    x = value('x', ('absent', 'none', 'int', 'str', 'list'), cap=1, alphabet='1a', lo=-9, hi=9)
    node, d = Node('form', fields=[('x', Node('int'))]), data_of(x=x)
    for i in range(n):
        if i % 3 == 1:
            node, d = Node('list', item=node), [d]
        else:
            node, d = Node('form', fields=[('g', node), ('h', Node('int', default=i))]), {'g': d}
    node, d = form_node(('g', node)), {'g': d}
    ref = Ref(coerce=coerce_json)
    want = ref.form(node, d)
    form, errors = outcome(form_type(node), pilo.source.JsonSource(json_text(d)))
    cover('error' if errors else 'clean')
    agree(form, errors, want, ref.errors)


@harness(covers=['named', 'plain'])
def encodings():
    """Encoded documents are read by the encoding named, if any; text as it is."""
    x = choice('x', (u'a', u'\xe9', u'\xff1', u'\xa31\xfc'))
    n = int_('n', 0, 3)
    doc = u'{"f": "%s", "g": [1, "%s"], "n": 2}' % (x, x)
    how = choice('encoding', ('utf-8', 'latin-1', 'utf-16', 'cp1252', None, 'text', 'text as latin-1'))
    strict = flag('strict')
    if how is None:
        cover('plain')
        src = pilo.source.JsonSource(doc.encode('utf-8'), strict=strict)
    elif how == 'text':
        src = pilo.source.JsonSource(doc, strict=strict)
    elif how == 'text as latin-1':
        src = pilo.source.JsonSource(doc, encoding='latin-1', strict=strict)
    else:
        cover('named')
        src = pilo.source.JsonSource(doc.encode(how), encoding=how, strict=strict)
    form, errors = outcome(form_of(f=pilo.fields.String(), g=pilo.fields.List(pilo.fields.Field()), n=pilo.fields.Integer(min_value=n)), src)
    check(errors_of(errors) == ([('Invalid', 'n')] if n > 2 else []), 'errors')
    check(form['f'] == x and form['g'] == [1, x], 'text of the document')


@harness(cases=[(s,) for s in (False, True)], covers=['accepted', 'rejected'])
def other_types(strict):
    """Types derived from those there are."""
    asked(lambda d: pilo.source.JsonSource(json_text(d), strict=strict), lambda kind, x: coerce_json(kind, x, strict), ('none', 'bool', 'int', 'str'))


@harness(covers=['accepted', 'rejected', 'kept'])
def literals():
    """Numbers and names as they are written in documents."""
    text_, x = choice('text', (('NaN', float('nan')), ('Infinity', float('inf')), ('-Infinity', float('-inf')), ('1.5', 1.5), ('-0.25', -0.25),
                               ('1e2', 100.0), ('1E400', float('inf')), ('2.0', 2.0), ('12345678901234567890', 12345678901234567890), ('-7', -7),
                               ('true', True), ('false', False), ('null', None), ('"\\u00e9\\n"', u'\xe9\n'), ('"1.5"', '1.5'), ('"NaN"', 'NaN'),
                               ('[1.5, 2]', [1.5, 2]), ('{"a": 1, "a": 1.5}', {'a': 1.5}), ('{}', {}), ('[]', [])))
    kind, strict, n = choice('kind', ('any', 'str', 'int', 'float', 'bool')), flag('strict'), int_('n', 0, 3)
    f = {'any': pilo.fields.Field, 'str': pilo.fields.String, 'int': pilo.fields.Integer, 'float': pilo.fields.Float, 'bool': pilo.fields.Boolean}[kind]
    src = pilo.source.JsonSource('{"f" : %s,\n"g": [%s], "n": 2}' % (text_, text_), strict=strict)
    form, errors = outcome(form_of(f=f(), g=pilo.fields.List(pilo.fields.Field()), n=pilo.fields.Integer(min_value=n)), src)
    check([(k, p) for k, p in errors_of(errors) if p != 'f'] == ([('Invalid', 'n')] if n > 2 else []), 'errors of the others')
    check(same(form['g'], [x]), 'a value of any type is not that of the document')
    ok, y = (True, x) if kind == 'any' or x is None else coerce_json(kind, x, strict)
    cover('kept' if kind == 'any' else 'accepted' if ok else 'rejected')
    check(('Invalid', 'f') not in errors_of(errors) if ok else ('Invalid', 'f') in errors_of(errors) and 'f' not in form, 'whether the value is accepted')
    if ok:
        check('f' in form and same(form['f'], y), 'not the value, as the type')
