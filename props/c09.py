"""C09: String constraints."""
import re

import pilo
from .common import *

BOUNDS = {'text': 'every string of 0..5 characters over printable ASCII (length) or over the alphabets given below '
                  '(pattern, choices, capture)',
          'limits': 'min/max length each None or any integer 0..6; exact length any integer 1..6',
          'patterns': 'the patterns listed in the harness', 'choices': 'the choice lists listed in the harness',
          'sizes': 'texts of up to 300 characters with any one character and length; three characters of other planes; 30 choices'}
OUTSIDE = ['long texts with more than one character that is any', 'patterns not listed']


def judge(form, errors, x, ok):
    """The field `f` of the form: x if ok, else exactly one Invalid."""
    if not errors:
        cover('accepted')
        check(ok, 'accepted a value outside the constraints')
        check('f' in form, 'no value and no error')
        check(same(form['f'], x), 'the value was changed')
    else:
        cover('rejected')
        check(not_(ok), 'rejected a value within the constraints')
        check(kinds(errors) == [('Invalid', 'f')], 'expected exactly one Invalid for f')
        check('f' not in form, 'a rejected value was stored')


BOTH = ['accepted', 'rejected']


@harness(cases=[(a, b, c) for a in (0, 1) for b in (0, 1) for c in ('pair', 'list', 'kw') if a or b], covers=BOTH)
def length(has_min, has_max, how):
    lo = int_('min', 0, 6) if has_min else None
    hi = int_('max', 0, 6) if has_max else None
    x = str_('x', 5)
    if how == 'pair':
        f = pilo.fields.String(length=(lo, hi))
    elif how == 'list':
        f = pilo.fields.String('f', length=[lo, hi])
    else:
        f = pilo.fields.String(min_length=lo, max_length=hi)
    form, errors = outcome(form_of(f=f), {'f': x})
    judge(form, errors, x, and_(lo is None or lo <= len(x), hi is None or len(x) <= hi))


@harness(covers=BOTH)
def exact_length():
    n = int_('n', 0, 6)
    x = str_('x', 5)
    form, errors = outcome(form_of(f=pilo.fields.String(length=n)), {'f': x})
    judge(form, errors, x, len(x) == n)


@harness(cases=[('abc01', 'list'), ('abc01', 'str'), ('x', 'str')], covers=BOTH)
def alphabet(letters, how):
    x = str_('x', 4, 'abcABC012xy ')
    f = pilo.fields.String(alphabet=list(letters) if how == 'list' else letters)
    form, errors = outcome(form_of(f=f), {'f': x})
    ok = and_(*[or_(*[c == a for a in letters]) for c in x])
    judge(form, errors, x, ok)


PATTERNS = [r'[ab]+$', r'\d{2}', r'a|b1', r'(?i)x.y$', r'a*b?c', r'^(?P<g>b)(a\1)?', r'a b  # or b', r'x1|Ya']
FLAGS = {6: re.X, 7: re.I}


@harness(cases=[(i, c) for i in range(len(PATTERNS)) for c in (0, 1) if c or i != 6], covers=BOTH)
def pattern(i, compiled):
    rx = re.compile(PATTERNS[i], FLAGS[i] if compiled and i in FLAGS else 0)
    x = str_('x', 3, 'abcxyXY019-')
    f = pilo.fields.String(pattern=rx if compiled else PATTERNS[i])
    form, errors = outcome(form_of(f=f), {'f': x})
    judge(form, errors, x, rx.match(x) is not None)


CHOICES = [('red',), ('red', 'blue'), ('r', 'g', 'b', ''), ('b', 'blue', 'red')]


@harness(cases=[(i, how, tr) for i in range(len(CHOICES)) for how in ('list', 'tuple') for tr in (0, 1)], covers=BOTH)
def choices(i, how, translated):
    x = str_('x', 4, 'rgbedluz')
    f = pilo.fields.String(choices=list(CHOICES[i]) if how == 'list' else CHOICES[i])
    table = {'r': 'red', 'zz': 'zebra', 'e': 'z'} if translated else {}
    if table:
        f.translate(table)
    form, errors = outcome(form_of(f=f), {'f': x})
    y = x
    for k, v in table.items():
        if x == k:
            y = v
    judge(form, errors, y, or_(*[y == c for c in list(CHOICES[i]) + list(table.values())]))


@harness(cases=[(a, b, p, c) for a in (0, 1) for b in (0, 1) for p in (0, 1) for c in (0, 1)], covers=BOTH)
def together(has_len, has_alpha, has_pattern, has_choices):
    """All constraints have to hold; whatever fails, there is one error."""
    x = str_('x', 3, 'abc1')
    kw, ok = {}, []
    if has_len:
        lo, hi = int_('min', 0, 3), int_('max', 0, 4)
        kw.update(min_length=lo, max_length=hi)
        ok += [lo <= len(x), len(x) <= hi]
    if has_alpha:
        kw.update(alphabet='ab1')
        ok += [c != 'c' for c in x]
    if has_pattern:
        kw.update(pattern='a|.1')
        ok += [re.compile('a|.1').match(x) is not None]
    if has_choices:
        kw.update(choices=['a', 'ab', 'c1', 'b'])
        ok += [or_(*[x == c for c in ('a', 'ab', 'c1', 'b')])]
    if not ok:
        cover('rejected')
    form, errors = outcome(form_of(f=pilo.fields.String(**kw)), {'f': x})
    judge(form, errors, x, and_(*ok))


@harness(covers=['captured', 'not captured'])
def capture():
    """A captured group replaces the text; no match leaves the field missing."""
    x = str_('x', 4, 'ab1-')
    how = pick('how', 6)
    rx = [r'(\d)', r'a(?P<f>[b1]+)', r'(?P<other>b)-(?P<g>.)', r'([ab])(1)?(-)?', r'(.)(?P<f>a|b)(1)', re.compile(r'(A)(B)', re.I)][how]
    f = pilo.fields.String().capture(rx, *([[], [], ['g'], [], [], []][how]))
    form, errors = outcome(form_of(f=f), {'f': x})
    m = re.compile(rx).match(x)
    if m is None:
        cover('not captured')
        check(kinds(errors) == [('Missing', 'f')], 'expected the field to be missing')
        check('f' not in form, 'a value that does not match was stored')
    else:
        cover('captured')
        check(not errors, 'errors for a match')
        check(same(form['f'], m.group([1, 'f', 'g', 1, 'f', 1][how])), 'not the captured text')


@harness(covers=['null'])
def null():
    """Constraints do not apply to null."""
    nullable = flag('nullable')
    f = pilo.fields.String(min_length=int_('min', 0, 3), max_length=int_('max', 0, 3), pattern='a', alphabet='a',
                           choices=['a'], nullable=nullable)
    form, errors = outcome(form_of(f=f), {'f': None})
    cover('null')
    if nullable:
        check(not errors and form == {'f': None}, 'null was not kept')
    else:
        check(kinds(errors) == [('Invalid', 'f')] and 'f' not in form, 'null was accepted')


WIDE = 'az\xe9\xdf\u0130\u65e5\U0001f600\x00'


@harness(cases=[(a, b) for a in (0, 1) for b in (0, 1) if a or b], covers=BOTH)
def wide(has_min, has_max):
    """Characters of all kinds count as one."""
    lo = int_('min', 0, 4) if has_min else None
    hi = int_('max', 0, 4) if has_max else None
    x = str_('x', 3, WIDE)
    form, errors = outcome(form_of(f=pilo.fields.String(min_length=lo, max_length=hi, alphabet=WIDE if flag('alphabet') else None)), {'f': x})
    judge(form, errors, x, and_(lo is None or lo <= len(x), hi is None or len(x) <= hi))


@harness(cases=[(n, w) for n in (10, 40, 300) for w in ('length', 'alphabet', 'pattern', 'choices')], covers=BOTH)
def long(n, what):
    """Long texts, with one character, or their length, that is any."""
    c = str_('c', 1, 'ab0', least=1)
    x = 'a' * choice('before', (0, n // 2, n)) + c
    x = x + 'a' * (n + 1 - len(x))
    more = choice('more', ('', 'a', 'aa'))
    x = x + more
    size = n + 1 + len(more)
    if what == 'length':
        lo, hi = int_('lo', n - 2, n + 3), int_('hi', n - 2, n + 3)
        f, ok = pilo.fields.String(length=(lo, hi)), and_(lo <= size, size <= hi)
    elif what == 'alphabet':
        f, ok = pilo.fields.String(alphabet='ab'), c != '0'
    elif what == 'pattern':
        f, ok = pilo.fields.String(pattern='[ab]{%d,%d}\\Z' % (n, n + 2)), and_(c != '0', size <= n + 2)
    else:
        some = ['a' * i for i in range(n, n + 20)]
        f, ok = pilo.fields.String(choices=some), c == 'a'
    form, errors = outcome(form_of(f=f), {'f': x})
    judge(form, errors, x, ok)


@harness(cases=[(30,)], covers=BOTH)
def many_choices(n):
    """Any of many choices, and what they are translated to."""
    some = ['c%d' % i for i in range(n)]
    x = 'c' + str_('x', 2, '0123456789', least=1)
    translated = flag('translated')
    f = pilo.fields.String(choices=some)
    if translated:
        f.translate(dict((c, c + '!') for c in some[n // 2:]))
    form, errors = outcome(form_of(f=f), {'f': x})
    ok = or_(*[x == c for c in some])
    if translated and not errors:
        cover('accepted')
        check(ok, 'accepted a value outside the constraints')
        check(same(form['f'], x + '!' if or_(*[x == c for c in some[n // 2:]]) else x), 'the translation of the value')
    else:
        judge(form, errors, x, ok)
