"""C15: mappings with keys and values of declared kinds."""
import pilo
from .common import *

BOUNDS = {'mappings': '0..2 members (3 with fixed keys)', 'keys': 'texts of 1..2 characters of "ab", or integers 0..9',
          'values': 'null, integers, texts of 0..1 characters, lists, mappings',
          'limits': 'required keys of up to two names; at most 0..3 keys (0: no limit)',
          'sizes': 'mappings of 12, 40 and 130 keys, one any'}
OUTSIDE = ['large mappings with more than one value that is any', 'keys of other types']


def key(label):
    return str_(label, 2, 'ab', least=1)


def data(n, kinds_=('none', 'int', 'str', 'list')):
    out = {}
    for i in range(n):
        out[key('k%d' % i)] = value('v%d' % i, kinds_ if i == 0 else ('int', 'none'), cap=1, alphabet='1a', lo=-5, hi=5)
    return out


@harness(cases=[(k, v) for k in ('any', 'str', 'choices', 'translate', 'munge', 'filter') for v in ('int', 'nonnull', 'skip')],
         covers=['seen'])
def members(kk, vk):
    """Every member whose key and value both map is kept, under the mapped key."""
    knode = {'any': lambda: Node('any'), 'str': lambda: Node('str', max_length=1),
             'choices': lambda: Node('str', choices=['a', 'ab']),
             'translate': lambda: Node('str', translate={'a': 'b', 'ab': 'x'}),
             'munge': lambda: Node('str', munge=lambda v: v + '!'),
             'filter': lambda: Node('str', default=ABSENT, filter=lambda v: v != 'a')}[kk]()
    vnode = {'int': lambda: Node('int', min_value=int_('lo', -3, 3)), 'nonnull': lambda: Node('any', nullable=False),
             'skip': lambda: Node('int', default=ABSENT, ignore=[int_('lo', -3, 3)])}[vk]()
    d = data(pick('n', 3), ('none', 'int'))
    form, errors, want = compare(form_node(('f', Node('dict', key=knode, item=vnode))), {'f': d})
    cover('seen')


@harness(cases=[('list',), ('tuple',), ('set',), ('keys',)], covers=['kept', 'missing'])
def required(how):
    """All required keys have to be there after mapping."""
    need = {'list': ['a'], 'tuple': ('a', 'bb'), 'set': set(['a']), 'keys': {'a': 1, 'bb': 2}.keys()}[how]
    n = Node('dict', key=Node('str'), item=Node('int', min_value=int_('lo', -3, 3)), required_keys=need)
    form, errors, want = compare(form_node(('f', n)), {'f': data(pick('n', 3), ('none', 'int'))})
    cover('kept' if 'f' in form else 'missing')
    if 'f' in form:
        for k in need:
            check(k in form['f'], 'a required key is missing')


@harness(covers=['kept', 'rejected'])
def most():
    """No more than max_keys members; they are counted after mapping."""
    hi = int_('hi', 0, 3)
    lo = int_('lo', -3, 3)
    n = pick('n', 4)
    d = dict(('kmn'[i], int_('v%d' % i, -5, 5)) for i in range(n))
    f = pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int(min_value=lo), max_keys=hi)
    form, errors = outcome(form_of(f=f), {'f': d})
    kept = dict((k, v) for k, v in d.items() if v >= lo)
    bad = [('Invalid', 'f.%s' % k) for k, v in d.items() if v < lo]
    if 'f' in form:
        cover('kept')
        check(len(kept) <= hi, 'too many keys were accepted')
        check(same(form['f'], kept) and errors_of(errors) == bad, 'members and errors')
    else:
        cover('rejected')
        check(len(kept) > hi, 'a mapping within the limit was rejected')
        check(errors_of(errors) == bad + [('Invalid', 'f')], 'errors')


@harness(covers=['dropped', 'kept'])
def key_filter():
    """Members whose key the filter refuses are not looked at."""
    lim = key('lim')
    seen = []

    def refuse(self, key):
        seen.append(key)
        return key != lim
    f = pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int(min_value=0))
    f.key_filter.attach(f)(refuse)
    d = data(pick('n', 3), ('int', 'none'))
    form, errors = outcome(form_of(f=f), {'f': d})
    left = dict((k, v) for k, v in d.items() if k != lim)
    cover('kept' if len(left) == len(d) else 'dropped')
    check(len(seen) == len(d), 'the filter is asked once for each key')
    bad = [('Invalid', 'f.%s' % k) for k, v in left.items() if v is not None and v < 0]
    check(errors_of(errors) == bad, 'errors of the members that are left')
    check(same(form['f'], dict((k, v) for k, v in left.items() if v is None or v >= 0)), 'members that are left')


@harness(covers=['rejected', 'null'])
def others():
    """What is no mapping is invalid; null is null."""
    x = value('x', ('none', 'bool', 'int', 'float', 'str', 'list'), cap=1)
    form, errors = outcome(form_of(f=pilo.fields.Dict(pilo.fields.Field(), pilo.fields.Field())), {'f': x})
    if x is None:
        cover('null')
        check(form == {'f': None} and not errors, 'null')
    else:
        cover('rejected')
        check(errors_of(errors) == [('Invalid', 'f')] and 'f' not in form, 'Invalid expected')


@harness(covers=['error', 'clean'])
def nested():
    """Mappings of forms, lists and mappings; keys that are integers."""
    lo = int_('lo', -3, 3)
    how = choice('how', ('list', 'form', 'dict'))
    inner = {'list': Node('list', item=Node('int', min_value=lo)),
             'form': Node('form', fields=[('k', Node('int', min_value=lo))]),
             'dict': Node('dict', key=Node('any'), item=Node('int', min_value=lo), max_keys=1)}[how]
    x = value('x', ('list', 'dict', 'int', 'none'), lo=-5, hi=5)
    y = value('y', ('list', 'dict'), lo=-5, hi=5)
    k = int_('k', 0, 9) if flag('integer') else key('k')
    form, errors, want = compare(form_node(('f', Node('dict', key=Node('any'), item=inner))), {'f': {k: x, 'z': y}})
    cover('error' if errors else 'clean')


@harness(covers=['both', 'few', 'many', 'kept'])
def limits_together():
    """Required keys and the most keys are both asked for."""
    lo = int_('lo', -3, 3)
    hi = int_('hi', 0, 3)
    n = pick('n', 4)
    names = ('k', 'm', 'n') if flag('needed') else ('m', 'n', 'o')
    d = dict((names[i], int_('v%d' % i, -5, 5)) for i in range(n))
    need = choice('need', (['k'], ['m', 'k'], [], None))
    given = pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int(min_value=lo), required_keys=need, max_keys=hi, default=dict)
    absent = n == 0 and flag('absent')
    form, errors = outcome(form_of(f=given), {} if absent else {'f': d})
    if absent:
        check(not errors and form == {'f': {}}, 'the default')
        return
    kept = dict((k, v) for k, v in d.items() if v >= lo)
    bad = [('Invalid', 'f.%s' % k) for k, v in d.items() if v < lo]
    lacking = any(k not in kept for k in need or ())
    over = len(kept) > hi
    cover('both' if lacking and over else 'few' if lacking else 'many' if over else 'kept')
    if lacking or over:
        check('f' not in form, 'a mapping beyond its limits was accepted')
        got = errors_of(errors)
        check(got[:len(bad)] == bad and len(got) > len(bad) and all(e == ('Invalid', 'f') for e in got[len(bad):]), 'errors')
    else:
        check('f' in form and same(form['f'], kept) and errors_of(errors) == bad, 'a mapping within its limits')


@harness(cases=[(12,), (40,), (130,)], covers=['error', 'clean', 'limits'])
def many(n):
    """Large mappings, and their limits."""
    lo, x, y, at = int_('lo', -1, 1), int_('x', -1, 1), int_('y', -1, 1), choice('at', (0, 9, n - 1))
    d = dict(('k%d' % i if i % 2 else i, x if i == at else y) for i in range(n))
    how = choice('how', ('max', 'required', 'none'))
    kw = {'max': lambda: {'max_keys': int_('hi', n - 1, n + 1)}, 'required': lambda: {'required_keys': [k for k in d][:choice('need', (1, n))] + ['k1']},
          'none': dict}[how]()
    form, errors, want = compare(form_node(('f', Node('dict', key=Node('any'), item=Node('int', min_value=lo), **kw))), {'f': d})
    cover('limits' if any(text(e.path) == 'f' for e in errors) else 'error' if errors else 'clean')


@harness(covers=['seen'])
def odd_keys():
    """Keys with any characters."""
    k = str_('k', 2, '\xe9\u65e5\U0001f600 .[', least=1)
    x = int_('x', -1, 1)
    form, errors, want = compare(form_node(('f', Node('dict', key=Node('str', max_length=1), item=Node('int', min_value=0)))), {'f': {k: x, 'z': 1}})
    cover('seen')
