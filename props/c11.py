"""C11: dates, times and datetimes."""
import datetime
import time

import iso8601
import pilo
from .common import *

BOUNDS = {'dates': 'every date of 1999..2001 (2019..2021 in texts), every second of the day',
          'texts': 'texts of the shape of the format with any digits and separators (4 digits year, 1..2 digits '
                   'otherwise), and every text of 0..3 characters of "0123/-:"',
          'limits': 'absent, or any date/time of the same domain', 'formats': 'those listed in the harness',
          'sizes': 'years 1..9999 at four centuries; 6 and 20 formats'}
OUTSIDE = ['formats not listed, years other than those of the bounds']

D, T, DT = pilo.fields.Date, pilo.fields.Time, pilo.fields.Datetime


def limited(cls, how, lo, hi, **kw):
    if how == 'keywords':
        return cls(after=lo, before=hi, **kw)
    f = cls(**kw)
    if how == 'between':
        return f.between(lo, hi)
    if lo is not None:
        f = f.after(lo)
    if hi is not None:
        f = f.before(hi)
    return f


def invalid(form, errors):
    check(kinds(errors) == [('Invalid', 'f')], 'exactly one Invalid expected')
    check('f' not in form, 'a rejected value was stored')


def judge(form, errors, x, ok):
    if errors:
        cover('outside')
        check(not_(ok), 'a value within the range was rejected')
        invalid(form, errors)
    else:
        cover('inside')
        check(ok, 'a value outside the range was accepted')
        check('f' in form and same(form['f'], x), 'not the expected value')


BOTH = ['inside', 'outside']
MAKE = {'date': (D, date_), 'time': (T, time_), 'datetime': (DT, datetime_)}


@harness(cases=[(k, w, a, b) for k in MAKE for w in ('keywords', 'between', 'calls') for a in (0, 1) for b in (0, 1)
                if a or b], covers=BOTH)
def limits(kind, how, has_lo, has_hi):
    """Limits are inclusive; either may be absent."""
    cls, make = MAKE[kind]
    lo = make('lo') if has_lo else None
    hi = make('hi') if has_hi else None
    x = make('x')
    form, errors = outcome(form_of(f=limited(cls, how, lo, hi)), {'f': x})
    judge(form, errors, x, and_(lo is None or lo <= x, hi is None or x <= hi))


@harness(covers=BOTH)
def date_of_datetime():
    """A Date field takes the date of a datetime."""
    x, lo = datetime_('x'), date_('lo')
    form, errors = outcome(form_of(f=D(after=lo)), {'f': x})
    judge(form, errors, x.date(), lo <= x.date())


@harness(cases=[(k,) for k in MAKE], covers=['null'])
def null(kind):
    cls, make = MAKE[kind]
    nullable = flag('nullable')
    form, errors = outcome(form_of(f=cls(after=make('lo'), nullable=nullable)), {'f': None})
    cover('null')
    if nullable:
        check(not errors and form == {'f': None}, 'null was not kept')
    else:
        invalid(form, errors)


@harness(cases=[(k,) for k in MAKE], covers=['rejected'])
def others(kind):
    """Without a format texts are invalid, and so is any other type."""
    cls, make = MAKE[kind]
    k = choice('kind', ('plain', 'date', 'datetime', 'time', 'struct'))
    if k == 'plain':
        x = value('x', ('bool', 'int', 'float', 'str', 'list', 'dict'), cap=2)
        fmt = None if isinstance(x, str) else '%Y'
    else:
        # a datetime is a date too, a clock time may be given to a time field in either type
        if k in {'date': ('date', 'datetime'), 'time': ('time', 'struct'), 'datetime': ('datetime',)}[kind]:
            assume(False)
        x = {'date': lambda: date_('d', 2000, 2001), 'datetime': lambda: datetime_('d', 2000, 2001), 'time': lambda: time_('d'),
             'struct': lambda: time.gmtime(0)}[k]()
        fmt = choice('fmt', (None, '%Y', 'iso8601') if kind != 'time' else (None, '%H'))
    form, errors = outcome(form_of(f=cls(format=fmt)), {'f': x})
    cover('rejected')
    invalid(form, errors)


def pieces(shape):
    """A text of the given shape: Y four digits, 9 one or two digits, O an offset, others themselves or another separator."""
    out = []
    for i, c in enumerate(shape):
        if c == 'Y':
            out.append('20' + str_('y%d' % i, 2, '0129', least=2))
        elif c == '9':
            out.append(str_('n%d' % i, 2, '0123456789', least=1))
        elif c == 'O':
            out.append(choice('offset', ('+02:00', '-03', '+0530', 'Z')))
        else:
            out.append(str_('s%d' % i, 1, c + '+', least=1))
    t = out[0]
    for x in out[1:]:
        t = t + x
    return t


def oracle(x, formats):
    """The value of the first format that fits; None if none does."""
    for f in formats:
        try:
            if f == 'iso8601':
                return iso8601.parse_date(x)
            return datetime.datetime.strptime(x, f)
        except ValueError:
            pass
    return None


DATES = [(['%Y-%m-%d'], 'Y-9-9'), (['%d/%m/%Y', '%Y-%m-%d'], 'Y-9-9'), (['%Y-%m-%d', '%d/%m/%Y', '%m/%d/%Y'], '9/9/Y'),
         (['iso8601'], 'Y-9-9'), (['iso8601'], 'Y-9-9T9:00Z'), (['iso8601'], '2020-9-9T9:30O'),
         (['%d/%m/%Y', 'iso8601'], 'Y-9-9'), (['iso8601', '%Y/%m'], 'Y/9'),
         (['%m-%d-%Y', '%d-%m-%Y'], '9-9-Y'), (['%Y-%m-%d', '%Y-%d-%m'], 'Y-9-9'), (['%Y-%d-%m', '%Y-%m-%d'], 'Y-9-9')]


@harness(cases=[(i, how) for i in range(len(DATES)) for how in (0, 1)], covers=BOTH + ['malformed'])
def date_texts(i, how):
    """Texts are read by the first format that fits."""
    formats, shape = DATES[i]
    x = pieces(shape)
    given = formats[0] if len(formats) == 1 else (list, tuple)[how](formats)
    lo = datetime.date(2020, 2, int_('day', 1, 28))
    f = D(format=given, after=lo) if how else D(after=lo).format(given)
    form, errors = outcome(form_of(f=f), {'f': x})
    y = oracle(x, formats)
    if y is None:
        cover('malformed')
        invalid(form, errors)
    else:
        judge(form, errors, y.date(), lo <= y.date())


TIMES = [('%H:%M', '9:9'), ('%H:%M:%S', '9:9:9'), ('%M%H', '9')]


@harness(cases=[(i,) for i in range(len(TIMES))], covers=['inside', 'malformed'])
def time_texts(i):
    fmt, shape = TIMES[i]
    x = pieces(shape)
    form, errors = outcome(form_of(f=T(format=fmt) if flag('how') else T().format(fmt)), {'f': x})
    try:
        y = time.strptime(x, fmt)
    except ValueError:
        cover('malformed')
        invalid(form, errors)
    else:
        judge(form, errors, y, True)


@harness(cases=[('%Y-%m-%d %H', 'Y-9-9 9'), ('%Y%m%d', 'Y9'), ('iso8601', 'Y-9-9'), ('iso8601', 'Y-9-9T9:9Z'),
                ('iso8601', '2020-06-9T9:30O')],
         covers=BOTH + ['malformed'])
def datetime_texts(fmt, shape):
    x = pieces(shape)
    tz = datetime.timezone.utc if fmt == 'iso8601' else None
    lo = datetime_('lo', 2019, 2021, tz=tz) if 'T' not in shape else \
        datetime.datetime(2020, 6, 1, tzinfo=tz)
    form, errors = outcome(form_of(f=DT(format=fmt, after=lo)), {'f': x})
    y = oracle(x, [fmt])
    if y is None:
        cover('malformed')
        invalid(form, errors)
    else:
        judge(form, errors, y, lo <= y)


@harness(cases=[('date', '%d/%m'), ('date', 'iso8601'), ('time', '%H:%M'), ('datetime', '%d/%m'), ('datetime', 'iso8601')],
         covers=['malformed'])
def any_text(kind, fmt):
    """Any text at all is either read or one Invalid."""
    cls = MAKE[kind][0]
    x = str_('x', 3, '012/-:')
    form, errors = outcome(form_of(f=cls(format=fmt)), {'f': x})
    if kind == 'time':
        try:
            y = time.strptime(x, fmt)
        except ValueError:
            y = None
    else:
        y = oracle(x, [fmt])
        if y is not None and kind == 'date':
            y = y.date()
    if y is None:
        cover('malformed')
        invalid(form, errors)
    else:
        judge(form, errors, y, True)


WRITTEN = [('date', '%Y-%m-%d'), ('date', ['%d/%m/%Y', '%Y']), ('date', ('%m.%d.%Y', 'iso8601')), ('date', '%Y%m%d'),
           ('datetime', '%Y-%m-%d %H:%M:%S'), ('datetime', '%d/%m/%Y'), ('time', '%H:%M:%S'), ('time', '%Y-%m-%d %H:%M:%S')]


@harness(cases=[(i,) for i in range(len(WRITTEN))], covers=['done'])
def written(i):
    """A field writes values of its type in its (first) format."""
    kind, fmt = WRITTEN[i]
    first = fmt if isinstance(fmt, str) else fmt[0]
    cls = MAKE[kind][0]
    if kind == 'time':
        x = struct_('x')
        want = time.strftime(first, x)
    else:
        x = datetime_('x') if kind == 'datetime' or flag('datetime') else date_('x')
        want = x.strftime(first)
    f = cls(format=fmt) if flag('how') else cls().format(fmt)
    got = f.format(x)
    check(same(got, want), 'text of the value')
    cover('done')
    check(f.format(first) is f, 'a format given later')
    check(same(f.format(x), want), 'text of the value after a change of the format')


@harness(cases=[(a, b) for a in (0, 1) for b in (0, 1)], covers=BOTH)
def structs(has_lo, has_hi):
    """Times given as time.struct_time are taken as they are; limits are inclusive."""
    lo, hi, x = struct_('lo') if has_lo else None, struct_('hi') if has_hi else None, struct_('x')
    form, errors = outcome(form_of(f=limited(T, choice('how', ('keywords', 'calls')), lo, hi)), {'f': x})
    judge(form, errors, x, and_(lo is None or lo <= x, hi is None or x <= hi))
    if not (has_lo or has_hi):
        cover('outside')


@harness(cases=[(k,) for k in ('time', 'datetime')], covers=['rejected', 'missing'])
def mixed(kind):
    """A value that cannot be compared to the limits is invalid."""
    if kind == 'time':
        x, lim = (struct_('x'), time_('lim')) if flag('struct') else (time_('x'), struct_('lim'))
    else:
        aware = flag('aware')
        x, lim = datetime_('x', tz=datetime.timezone.utc if aware else None), datetime_('lim', tz=None if aware else datetime.timezone.utc)
    f = limited(MAKE[kind][0], 'keywords', lim if flag('lower') else None, lim if flag('upper') else None)
    limits = [v for v in (f.after_value, f.before_value) if v is not None]
    form, errors = outcome(form_of(f=f), {'f': x})
    if limits:
        cover('rejected')
        invalid(form, errors)
    else:
        cover('missing')
        check(not errors and same(form['f'], x), 'a value without limits')


@harness(cases=[(k,) for k in MAKE], covers=BOTH)
def renamed(kind):
    """The key in the data may be given with the limits and the format."""
    cls, make = MAKE[kind]
    lo, x = make('lo'), make('x')
    form, errors = outcome(form_of(f=cls('eff', after=lo, format='%Y')), {'eff': x, 'f': 3})
    ok = lo <= x
    if errors:
        cover('outside')
        check(not_(ok), 'a value within the range was rejected')
        check(errors_of(errors) == [('Invalid', 'eff')] and not form, 'exactly one Invalid expected')
    else:
        cover('inside')
        check(ok and same(dict(form), {'f': x}), 'not the expected value')


@harness(cases=[(k,) for k in ('date', 'datetime')], covers=BOTH)
def ages(kind):
    """Other centuries, and microseconds."""
    cls, make = MAKE[kind]
    lo_y, hi_y = choice('years', ((1, 60), (1580, 1610), (1899, 1905), (9990, 9999)))
    if kind == 'date':
        x, lo = date_('x', lo_y, hi_y), date_('lo', lo_y, hi_y)
    else:
        x, lo = datetime_('x', lo_y, hi_y), datetime_('lo', lo_y, hi_y)
    form, errors = outcome(form_of(f=cls(after=lo) if flag('keyword') else cls().after(lo)), {'f': x})
    judge(form, errors, x, lo <= x)


@harness(cases=[(6,), (20,)], covers=['inside', 'malformed'])
def many_formats(n):
    """The first of many formats that fits."""
    formats = ['%%Y/%%m/%%d %dx' % i for i in range(n)]
    # two formats that read the same text in their own way
    formats[n // 2], formats[n - 1] = '%d-%m-%Y', '%m-%d-%Y'
    if flag('swapped'):
        formats[n // 2], formats[n - 1] = formats[n - 1], formats[n // 2]
    x = pieces('9-9-Y')
    form, errors = outcome(form_of(f=D(format=formats)), {'f': x})
    y = oracle(x, formats)
    if y is None:
        cover('malformed')
        invalid(form, errors)
    else:
        judge(form, errors, y.date(), True)


class ADate(datetime.date):
    pass


class ATime(datetime.time):
    pass


class ADatetime(datetime.datetime):
    pass


@harness(cases=[(k, f) for k in MAKE for f in (None, '%Y', 'iso8601') if (k, f) != ('time', 'iso8601')], covers=BOTH)
def derived(kind, fmt):
    """Values of classes derived from the type are values of the type."""
    n = 1 + pick('n', 5)
    lo = 1 + pick('lo', 5)
    make = {'date': lambda cls, n: cls(2001, 1, n), 'time': lambda cls, n: cls(n), 'datetime': lambda cls, n: cls(2001, 1, n, 5)}[kind]
    plain = {'date': datetime.date, 'time': datetime.time, 'datetime': datetime.datetime}[kind]
    x = make({'date': ADate, 'time': ATime, 'datetime': ADatetime}[kind], n)
    form, errors = mapped(form_of(f=MAKE[kind][0](after=make(plain, lo), format=fmt)), {'f': x})
    if n < lo:
        cover('outside')
        check(kinds(errors) == [('Invalid', 'f')] and 'f' not in form, 'a value outside the range was accepted')
    else:
        cover('inside')
        check(not errors and form['f'] is x, 'the value was not kept')
    if kind == 'date':
        form, errors = mapped(form_of(f=D(after=datetime.date(2001, 1, lo), format=fmt)), {'f': ADatetime(2001, 1, n, 5)})
        check(not errors and form['f'] == datetime.date(2001, 1, n) if n >= lo else errors and not form, 'the date of a datetime')
