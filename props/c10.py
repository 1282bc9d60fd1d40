"""C10: numbers stay within their range."""
import decimal
import re

import pilo
from .common import *

BOUNDS = {'integers': '-100..100', 'floats': 'n/8 between -50 and 50, nan, infinities; texts of them',
          'decimals': 'n/100 between -20 and 20, nan, infinities; texts of 0..3 characters of 0-9-.',
          'limits': 'absent, or any number of the same domain (no nan)',
          'sizes': 'limits around 10**6, 2**31, 2**63 and 10**20; thousandths to 10**-20; limits of another type of number'}
OUTSIDE = ['numbers outside the bounds; signed zero; exponent notation']

KINDS = {'int': pilo.fields.Integer, 'float': pilo.fields.Float, 'decimal': pilo.fields.Decimal}
WAYS = ('keywords', 'range', 'calls', 'call')


def number(kind, label, special=True):
    if kind == 'int':
        return int_(label, -100, 100)
    if kind == 'float':
        return float_(label, -50, 50, special=special)
    return decimal_(label, -20, 20, special=special)


def field(kind, how, lo, hi):
    cls = KINDS[kind]
    if how == 'keywords':
        return cls(min_value=lo, max_value=hi)
    if how == 'range':
        return cls(range=(lo, hi))
    if how == 'call':
        return cls().range(lo, hi)
    f = cls()
    if lo is not None:
        f = f.min(lo)
    if hi is not None:
        f = f.max(hi)
    return f


def judge(form, errors, x, ok):
    if errors:
        cover('outside')
        check(not_(ok), 'a number within the range was rejected')
        check(kinds(errors) == [('Invalid', 'f')], 'one Invalid expected')
        check('f' not in form, 'a rejected number was stored')
    else:
        cover('inside')
        check(ok, 'a number outside the range was accepted')
        check('f' in form and same(form['f'], x), 'the number was changed')


def nan(x):
    return x.is_nan() if isinstance(x, decimal.Decimal) else x != x


BOTH = ['inside', 'outside']


@harness(cases=[(k, w, a, b) for k in KINDS for w in WAYS for a in (0, 1) for b in (0, 1) if a or b], covers=BOTH)
def limits(kind, how, has_lo, has_hi):
    lo = number(kind, 'lo', False) if has_lo else None
    hi = number(kind, 'hi', False) if has_hi else None
    x = number(kind, 'x')
    form, errors = outcome(form_of(f=field(kind, how, lo, hi)), {'f': x})
    if nan(x):
        ok = False
    else:
        ok = and_(lo is None or lo <= x, hi is None or x <= hi)
    judge(form, errors, x, ok)


@harness(cases=[(k,) for k in KINDS], covers=['inside'])
def unlimited(kind):
    """Without limits every number will do."""
    x = number(kind, 'x')
    form, errors = outcome(form_of(f=KINDS[kind]()), {'f': x})
    judge(form, errors, x, True)


@harness(cases=[(k,) for k in KINDS], covers=['null'])
def null(kind):
    """Limits do not apply to null."""
    nullable = flag('nullable')
    f = field(kind, 'keywords', int_('lo', -5, 5), int_('hi', -5, 5)).options(nullable=nullable)
    form, errors = outcome(form_of(f=f), {'f': None})
    cover('null')
    if nullable:
        check(not errors and form == {'f': None}, 'null was not kept')
    else:
        check(kinds(errors) == [('Invalid', 'f')] and 'f' not in form, 'null was accepted')


@harness(cases=[('int', '0123456789-'), ('decimal', '0123456789-.a')], covers=BOTH + ['malformed'])
def texts(kind, alphabet):
    """Texts of numbers are numbers; others are invalid."""
    lo, hi = int_('lo', -20, 20), int_('hi', -20, 20)
    x = str_('x', 2 if kind == 'decimal' else 3, alphabet)
    form, errors = outcome(form_of(f=field(kind, 'calls', lo, hi)), {'f': x})
    try:
        y = int(x) if kind == 'int' else decimal.Decimal(x)
    except (ValueError, decimal.InvalidOperation):
        cover('malformed')
        check(kinds(errors) == [('Invalid', 'f')] and 'f' not in form, 'malformed text was accepted')
        return
    judge(form, errors, y, and_(lo <= y, y <= hi))


@harness(cases=[('int',), ('float',)], covers=BOTH + ['unmatched'])
def pattern(kind):
    """A pattern selects the part of a text that is the number."""
    x = str_('x', 3, '019a-')
    rx = re.compile(r'-?\d+')
    lo = int_('lo', -5, 20)
    f = KINDS[kind]().min(lo)
    # returns the field itself: it has no parent yet
    f = f.pattern(rx if flag('compiled') else rx.pattern)
    form, errors = outcome(form_of(f=f), {'f': x})
    m = rx.match(x)
    if m is None:
        cover('unmatched')
        check(kinds(errors) == [('Invalid', 'f')] and 'f' not in form, 'an unmatched text was accepted')
        return
    y = int(m.group(0)) if kind == 'int' else float(m.group(0))
    judge(form, errors, y, lo <= y)


@harness(cases=[(k, i) for k in ('int', 'float') for i in range(4)], covers=BOTH + ['unmatched'])
def groups_of_pattern(kind, i):
    """Groups in the pattern, alternatives and what follows the number play no part."""
    pattern, least = ((r'(-?)(\d)\d*', None), (r'(?P<n>\d+)(?P<rest>-)?', None), (r'(\d\d)|-?\d', 2), (r'\d+(?=(a))', None))[i]
    x = str_('x', 3, '019a-')
    lo = int_('lo', -5, 20)
    form, errors = outcome(form_of(f=KINDS[kind]().min(lo).pattern(pattern)), {'f': x})
    m = re.match(pattern, x)
    if m is None:
        cover('unmatched')
        check(kinds(errors) == [('Invalid', 'f')] and 'f' not in form, 'an unmatched text was accepted')
        return
    t = m.group(0)
    ok, y = coerce(kind, t)
    if not ok:
        check(kinds(errors) == [('Invalid', 'f')] and 'f' not in form, 'what matched is no number')
        return
    judge(form, errors, y, lo <= y)


@harness(covers=BOTH)
def decimals_from_numbers():
    """Integers and floats become the decimal of the same value."""
    lo = decimal_('lo', -5, 5, special=False)
    x = int_('x', -50, 50) if flag('int') else float_('y', -10, 10)
    form, errors = outcome(form_of(f=pilo.fields.Decimal().min(lo)), {'f': x})
    d = decimal.Decimal(x)
    judge(form, errors, d, False if nan(d) else lo <= d)


@harness(cases=[(10 ** 6, h) for h in WAYS] + [(10 ** 20, 'keywords'), (2 ** 31 + 5, 'range'), (2 ** 63 + 5, 'call')], covers=['inside', 'outside'])
def huge(n, how):
    """Integers of any size."""
    lo, hi, x = int_('lo', -n, n), int_('hi', -n, n), int_('x', -2 * n, 2 * n)
    form, errors = outcome(form_of(f=field('int', how, lo, hi)), {'f': x})
    judge(form, errors, x, and_(lo <= x, x <= hi))


@harness(cases=[(d,) for d in (1000, 10 ** 6, 10 ** 20)], covers=['inside', 'outside'])
def fine(den):
    """Decimals of many digits: the limits are compared exactly."""
    lo, hi, x = [decimal_(k, -2, 2, special=False, den=den) for k in ('lo', 'hi', 'x')]
    form, errors = outcome(form_of(f=pilo.fields.Decimal(min_value=lo, max_value=hi)), {'f': x})
    judge(form, errors, x, and_(lo <= x, x <= hi))


@harness(cases=[(k,) for k in ('int', 'decimal', 'float')], covers=['inside', 'outside'])
def across(kind):
    """Limits of another type of number than the value."""
    lo = int_('lo', -5, 5)
    hi = {'int': lambda: decimal_('hi', -5, 5, special=False), 'decimal': lambda: int_('hi', -5, 5), 'float': lambda: int_('hi', -5, 5)}[kind]()
    x = {'int': lambda: int_('x', -9, 9), 'decimal': lambda: decimal_('x', -9, 9, special=False), 'float': lambda: float_('x', -9, 9, special=False)}[kind]()
    form, errors = outcome(form_of(f=KINDS[kind](min_value=lo, max_value=hi)), {'f': x})
    judge(form, errors, x, and_(lo <= x, x <= hi))


@harness(cases=[(10,), (1000,)], covers=BOTH)
def nearby(den):
    """A float next to a decimal limit is compared as what it is, not as it reads."""
    n = int_('n', -40, 40)
    limit = decimal.Decimal(n) / den
    least = flag('least')
    x = float(limit)
    f = pilo.fields.Decimal()
    form, errors = outcome(form_of(f=f.min(limit) if least else f.max(limit)), {'f': x})
    d = decimal.Decimal(x)
    judge(form, errors, d, limit <= d if least else d <= limit)
