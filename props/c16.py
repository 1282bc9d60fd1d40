"""C16: groups collect the members whose key matches."""
import re

import pilo
from .common import *

BOUNDS = {'mappings': '0..3 members', 'keys': 'texts of 1..3 characters of "ab1"', 'values': 'integers -9..9, null, texts',
          'selectors': 'names and the patterns of the harness, up to three',
          'sizes': 'mappings of 12 and 60 keys, one any'}
OUTSIDE = ['other patterns, large mappings with more than one value that is any']

SETS = {
    'name': [('a', None), ('b1', None)],
    'pattern': [(r'a(?P<n>\d)', None), (r'(b+)1', None)],
    'overlap': [(r'a.', None), ('ab', None), (r'b', None)],
    'empty': [(r'1?', None), ('a', None)],
    'late': [(r'b?(1)?$', None), (r'(?=a)', None)],
    'bare': [('a', None), (r'b', None)],
}
PATTERNS = frozenset([r'1?', r'b?(1)?$', r'(?=a)', r'a(?P<n>\d)', r'(b+)1', r'a.', r'b'])


def select(selectors, key):
    for i, (s, _) in enumerate(selectors):
        if s in PATTERNS:
            m = re.compile(s).match(key)
            if m is not None:
                return i, m
        elif s == key:
            return i, None
    return None, None


@harness(cases=[(s, how) for s in SETS for how in ('flat', 'nested', 'mixed', 'deep')], covers=['matched', 'unmatched', 'bad'])
def group(which, how):
    sel = SETS[which]
    lo = [int_('lo%d' % i, -3, 3) for i in range(len(sel))]
    args = []
    for i, (s, _) in enumerate(sel):
        f = pilo.fields.Int(min_value=lo[i])
        if which == 'bare' and s not in PATTERNS:
            args.append(pilo.fields.Int(s, min_value=lo[i]))
        elif s in PATTERNS:
            args.append((re.compile(s), f))
        else:
            args.append((s, f))
    f = pilo.fields.Group(*{'flat': args, 'nested': [args], 'mixed': args[:1] + [args[1:]], 'deep': [[args[:1]], [[], [args[1:]]]]}[how])
    d = {}
    for i in range(pick('n', 3)):
        d[str_('k%d' % i, 2 if i else 3, 'ab1' if not i else 'ab', least=1)] = int_('v%d' % i, -9, 9)
    d['zz'] = 1
    form, errors = outcome(form_of(f=f), d)
    want, bad, any_ = [], [], False
    for k, v in d.items():
        i, m = select(sel, k)
        if i is None:
            cover('unmatched')
            continue
        cover('matched')
        if v < lo[i]:
            cover('bad')
            bad.append(('Invalid', k))
        else:
            want.append((k, m, v))
    check(errors_of(errors) == bad, 'errors of the members that match')
    got = form['f']
    check(len(got) == len(want), 'the members that match and are valid')
    for (k, m, v), (k2, m2, v2) in zip(got, want):
        check(same(k, k2), 'key')
        check(same(v, v2), 'value')
        check((m is None) == (m2 is None), 'captures')
        if m2 is not None:
            check(same(m.group(0), m2.group(0)) and same(m.groups(), m2.groups()), 'captures')


@harness(covers=['empty', 'error'])
def nested():
    """A group of a nested form; what it does without a match."""
    f = pilo.fields.Group((re.compile('x(.)'), pilo.fields.Int()), ('y', pilo.fields.String(min_length=1)))
    inner = form_of(g=f)
    x = value('x', ('absent', 'int', 'str', 'none'), cap=1, alphabet='a1')
    y = value('y', ('absent', 'int', 'str'), cap=1, alphabet='a1')
    d = dict(('x1' if k == 'x' else k, v) for k, v in data_of(x=x, y=y).items())
    form, errors = outcome(form_of(f=pilo.fields.List(pilo.fields.SubForm(inner))), {'f': [d]})
    ok_x, vx = (True, None) if x is None else coerce('int', x) if x is not ABSENT else (False, None)
    bad = []
    want = []
    if x is not ABSENT:
        if ok_x:
            want.append(('x1', vx))
        else:
            bad.append(('Invalid', 'f[0].x1'))
    if y is not ABSENT:
        if isinstance(y, str) and len(y) > 0:
            want.append(('y', y))
        else:
            bad.append(('Invalid', 'f[0].y'))
    check(errors_of(errors) == bad, 'errors')
    if bad:
        cover('error')
        check(form['f'] == [], 'a form with errors is no item')
    else:
        if not want:
            cover('empty')
        check(same([(k, v) for k, _, v in form['f'][0]['g']], want), 'members')


@harness(covers=['default'])
def default():
    """Without any match the default is used."""
    k = str_('k', 2, 'ab', least=1)
    f = pilo.fields.Group(('a', pilo.fields.Int()), default=7)
    form, errors = outcome(form_of(f=f), {k: int_('v', 0, 3)})
    check(not errors, 'errors')
    if k == 'a':
        check([x[2] for x in form['f']] != [], 'a match')
    else:
        cover('default')
        check(form == {'f': 7}, 'default')


@harness(covers=['all bad', 'some', 'none'])
def only_invalid():
    """The default stands in only where nothing matched, not where everything that did was invalid."""
    n = pick('n', 4)
    default = choice('default', ('none', 'value', 'absent'))
    kw = {'none': {}, 'value': {'default': 7}, 'absent': {'default': pilo.NONE}}[default]
    how = choice('how', ('bad', 'skipped'))
    lo = int_('lo', -3, 3)
    if how == 'bad':
        item = pilo.fields.Int(min_value=lo)
    else:
        item = pilo.fields.Int(optional=True).filter(lambda_filter(lo))
    f = pilo.fields.Group((re.compile('a.'), item), **kw)
    d = dict(('a%d' % i, int_('v%d' % i, -5, 5)) for i in range(n))
    d['b'] = 1
    form, errors = outcome(form_of(f=f), d)
    kept = [(k, v) for k, v in d.items() if k != 'b' and v >= lo]
    bad = [('Invalid', k) for k, v in d.items() if k != 'b' and v < lo]
    check(errors_of(errors) == (bad if how == 'bad' else []), 'errors')
    if n == 0:
        cover('none')
        check(dict(form) == {'none': {'f': []}, 'value': {'f': 7}, 'absent': {}}[default], 'default')
    else:
        cover('some' if kept else 'all bad')
        check('f' in form and same([(k, v) for k, _, v in form['f']], kept), 'members')


def lambda_filter(lo):
    def filter(self, value):
        return value >= lo
    return filter


@harness(cases=[(12,), (60,)], covers=['error', 'clean'])
def many(n):
    """All of many members that match, in order, by any of many selectors."""
    lo, x, y, at = int_('lo', -1, 1), int_('x', -1, 1), int_('y', -1, 1), choice('at', (0, 9, n - 1))
    how = choice('how', ('pattern', 'names', 'patterns'))
    item = lambda: pilo.fields.Int(min_value=lo)
    keys = ['a%d' % i for i in range(n)]
    d = {}
    for i, k in enumerate(keys):
        d['b%d' % i] = -9
        d[k] = x if i == at else y
    if how == 'pattern':
        f = pilo.fields.Group((re.compile(r'a(\d+)'), item()))
    elif how == 'names':
        f = pilo.fields.Group(*[(k, item()) for k in reversed(keys)])
    else:
        f = pilo.fields.Group(*[(re.compile(r'a(\d*)%d\Z' % i), item()) for i in range(10)])
    form, errors = outcome(form_of(f=f), d)
    want = [(k, d[k]) for k in keys if d[k] >= lo]
    check(errors_of(errors) == [('Invalid', k) for k in keys if d[k] < lo], 'errors of the members that match')
    check(same([(k, v) for k, _, v in form['f']], want), 'the members that match and are valid')
    for k, m, v in form['f']:
        check((m is None) if how == 'names' else m.group(0) == k, 'captures')
    cover('error' if errors else 'clean')


class Answers(object):
    """Matches the key, with this answer."""

    def __init__(self, key, answer):
        self.key, self.answer = key, answer

    def match(self, key):
        return self.answer if key == self.key else None


@harness(covers=['falsy', 'truth', 'none'])
def answers():
    """A key matches whenever the answer is not None, and the member holds the answer."""
    x, n = int_('x', -9, 9), int_('n', 0, 3)
    answer = choice('answer', ('', 'text', (), {}, [], 0, False, True, 'number'))
    answer = n if answer == 'number' else answer
    key = choice('key', ('q', 'a', 'b'))
    f = pilo.fields.Group((Answers('q', answer), pilo.fields.Int(min_value=0)), ('a', pilo.fields.Field()), default=None)
    form, errors = outcome(form_of(f=f), {key: x, 'other': 1})
    if key == 'q' and x < 0:
        check(errors_of(errors) == [('Invalid', 'q')], 'the error of a member')
    elif key == 'b':
        cover('none')
        check(not errors and form == {'f': None}, 'the default')
    else:
        cover('truth' if answer else 'falsy')
        check(not errors and len(form['f']) == 1, 'a member')
        k, captures, v = form['f'][0]
        check(k == key and same(v, x), 'the member')
        check(captures is None if key == 'a' else captures is answer, 'the answer')
