"""C04: the stages of mapping a field."""
import pilo
from pilo.context import ctx
from .common import *

BOUNDS = {'hooks': 'every subset of the hooks of a field; each returns a value, null, NONE, ERROR, or (parse) raises',
          'data': 'absent, null, integers, texts of 0..1 characters', 'fields': 'integers with range, translation '
          'and ignored value; fields of lists, dicts and nested forms; constants; format; capture; from_context',
          'sizes': '6 and 20 fields, one with any data'}
OUTSIDE = ['hooks that map other forms (C21)', 'hooks that raise errors of their own (C01)']

STAGES = ('resolve', 'compute', 'parse', 'munge', 'filter', 'validate', 'default')


class Script(object):
    """Hooks that record their calls and give chosen results."""

    def __init__(self):
        self.trace = []
        self.chosen = {}

    def result(self, stage, options):
        check(stage not in [t[0] for t in self.trace], 'stage %s ran twice' % stage)
        k = choice(stage, options)
        if k == 'value':
            v = int_(stage + '.value', -9, 9)
        elif k in ('true', 'false'):
            v = k == 'true'
        else:
            v = {'null': None, 'none': ABSENT, 'error': pilo.ERROR, 'unset': pilo.NOT_SET, 'source': None, 'invalid': None}[k]
        self.chosen[stage] = (k, v)
        return k, v


def script_hooks(f, s, hooks, keep):
    def resolve(self):
        keep.append(self)
        k, v = s.result('resolve', ('source', 'none'))
        s.trace.append(('resolve',))
        return ctx(src='b') if k == 'source' else None

    def compute(self):
        keep.append(self)
        k, v = s.result('compute', ('value', 'null', 'none', 'error', 'unset'))
        s.trace.append(('compute',))
        return v

    def parse(self, path):
        keep.append(self)
        k, v = s.result('parse', ('value', 'null', 'none', 'error', 'invalid', 'source'))
        s.trace.append(('parse', path.value))
        if k == 'invalid':
            raise ValueError('parse')
        if k == 'source':
            raise pilo.SourceError(path, 'parse')
        return v

    def munge(self, value):
        keep.append(self)
        k, v = s.result('munge', ('value', 'null', 'none', 'error'))
        s.trace.append(('munge', value))
        return v

    def filter(self, value):
        keep.append(self)
        k, v = s.result('filter', ('true', 'false'))
        s.trace.append(('filter', value))
        return v

    def validate(self, value):
        keep.append(self)
        k, v = s.result('validate', ('true', 'false'))
        s.trace.append(('validate', value))
        return v

    def default(self):
        keep.append(self)
        k, v = s.result('default', ('value', 'null', 'none'))
        s.trace.append(('default',))
        return v
    for h in hooks:
        check(getattr(f, h)(locals()[h]) is f, 'a hook declaration gives the field')
    return f


def script_field(s, hooks, keep):
    opts = dict(default=UNSET if 'default' in hooks else choice('dflt', (UNSET, 8)), nullable=choice('nullable', (True, False)))
    opts['from'], opts['to'], opts['ignore'] = 1, 2, 3
    kw = {} if opts['default'] is UNSET else dict(default=opts['default'])
    f = pilo.fields.Int(min_value=-5, max_value=5, nullable=opts['nullable'], translate={1: 2}, ignore=3, **kw)
    script_hooks(f, s, hooks, keep)
    return f, opts


def judge(s, hooks, x, opts, form, errors, name, keep):
    want_errors = []
    want, trace = expected_trace(s, hooks, x, opts, want_errors)
    check(len(trace) == len(s.trace) and all(a[0] == b[0] and len(a) == len(b) for a, b in zip(trace, s.trace)), 'stages run')
    for a, b in zip(trace, s.trace):
        if len(a) > 1 and not isinstance(b[1], dict):
            check(same(a[1], b[1]), 'value given to stage ' + a[0])
    check([kind_of(e) for e in errors] == want_errors, 'errors')
    check(all(k is form for k in keep), 'hooks are called on the form')
    if is_nothing(want):
        check(name not in form, 'a value although there is none')
    else:
        check(name in form and same(form[name], want), 'value')


def expected_trace(s, hooks, x, opts, errors):
    """(value, stages run) the documentation asks for, given the results the hooks chose."""
    trace = []
    out = expected_(s, hooks, x, opts, errors, trace)
    return out, trace


def expected_(s, hooks, x, opts, errors, trace):
    got = s.chosen

    def ran(stage, *args):
        trace.append((stage,) + args)
        return got.get(stage, ('not run', None))

    def finish():
        if 'default' in hooks:
            return ran('default')[1]
        if opts['default'] is UNSET:
            errors.append('Missing')
            return ABSENT
        return opts['default']

    v = x
    if 'resolve' in hooks:
        k, _ = ran('resolve')
        v = 5 if k == 'source' else {}
    if 'compute' in hooks:
        _, v = ran('compute')
        if v is pilo.ERROR or v is pilo.NOT_SET:
            return REJECTED
    elif v is not ABSENT and v is not None:
        if 'parse' in hooks:
            k, v = ran('parse', v)
            if k in ('invalid', 'source'):
                errors.append('Invalid')
                return REJECTED
            if v is pilo.ERROR:
                return REJECTED
        else:
            ok, v = (False, None) if isinstance(v, dict) else coerce('int', v)
            if not ok:
                errors.append('Invalid')
                return REJECTED
    if v is ABSENT:
        return finish()
    if v is not None and v == 1:
        v = 2
    if 'munge' in hooks:
        _, v = ran('munge', v)
        if v is ABSENT:
            return finish()
        if v is pilo.ERROR:
            return REJECTED
    if v is not None and v == 3:
        return finish()
    if 'filter' in hooks:
        if ran('filter', v)[0] == 'false':
            return finish()
    if v is None:
        if not opts['nullable']:
            errors.append('Invalid')
            return REJECTED
    elif v < -5 or v > 5:
        errors.append('Invalid')
        return REJECTED
    if 'validate' in hooks:
        if ran('validate', v)[0] == 'false':
            return REJECTED
    return v


SUBSETS = [('parse', 'munge', 'filter', 'validate', 'default'), ('resolve', 'compute', 'munge', 'default'),
           ('resolve', 'parse', 'filter', 'validate'), ('compute', 'filter', 'validate', 'munge')]


@harness(cases=[(h,) for h in SUBSETS], thorough=[(STAGES,)] + [(h,) for h in SUBSETS],
         covers=['value', 'default', 'error', 'rejected'])
def pipeline(which):
    """Any subset of the hooks, with any results."""
    hooks = [h for h in which if flag('has ' + h)]
    s, keep = Script(), []
    f, opts = script_field(s, hooks, keep)
    x = value('a', ('absent', 'none', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)
    form, errors = outcome(form_of(a=f), data_of(a=x, b=5))
    judge(s, hooks, x, opts, form, errors, 'a', keep)
    cover('error' if errors else 'default' if 'default' in s.chosen else 'value' if 'a' in form else 'rejected')


@harness(cases=[('list',), ('dict',), ('form',), ('tuple',)], covers=['value', 'error'])
def inside(where):
    """The same for the fields of containers; hooks of items run on the form that declares them."""
    hooks = [h for h in ('parse', 'munge', 'validate') if flag('has ' + h)]
    s, keep = Script(), []
    f, opts = script_field(s, hooks, keep)
    x = value('a', ('none', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)
    if where == 'list':
        form, errors = mapped(form_of(l=pilo.fields.List(f)), dict(l=[x]))
        got = form['l']
    elif where == 'tuple':
        form, errors = mapped(form_of(l=pilo.fields.Tuple((f,))), dict(l=[x]))
        got = form['l']
    elif where == 'dict':
        form, errors = mapped(form_of(l=pilo.fields.Dict(pilo.fields.String(), f)), dict(l=dict(k=x)))
        got = form['l'].values()
    else:
        inner = form_of(a=f)
        form, errors = mapped(form_of(l=pilo.fields.SubForm(inner)), dict(l=dict(a=x)))
        got = [form['l']['a']] if 'l' in form and 'a' in form['l'] else []
    want_errors = []
    want, trace = expected_trace(s, hooks, x, opts, want_errors)
    check([kind_of(e) for e in errors] == want_errors, 'errors')
    check([t[0] for t in trace] == [t[0] for t in s.trace], 'stages run')
    got = list(got)
    if is_nothing(want):
        check(got == [], 'a value although there is none')
        cover('error')
    else:
        check(len(got) == 1 and same(got[0], want), 'value')
        cover('value')
    if where == 'form':
        check(all(type(k) is inner for k in keep), 'hooks are called on the form that declares them')
    else:
        check(all(k is form for k in keep), 'hooks are called on the form')


@harness(covers=['value', 'error', 'default'])
def computed_value():
    """A value given to a field is not computed but goes through the later stages."""
    hooks = [h for h in ('resolve', 'compute', 'parse', 'munge', 'filter', 'validate', 'default') if flag('has ' + h)]
    s, keep = Script(), []
    f, opts = script_field(s, hooks, keep)
    v = value('v', ('none', 'int'), lo=-9, hi=9)
    out, errs = [], []

    def compute(self):
        out.append(f.map(v))
        return 0
    cls = form_of(z=pilo.fields.Field())
    cls.z.compute(compute)
    form = cls()
    f.attach(cls, 'a')
    errors = list(form.map({'a': 5}))
    later = [h for h in hooks if h not in ('resolve', 'parse')]
    want_errors = []
    s2 = Script()
    s2.chosen = dict(s.chosen)
    s2.chosen['compute'] = ('value', v)
    want, trace = expected_trace(s2, later + ['compute'], v, opts, want_errors)
    check([t[0] for t in trace if t[0] != 'compute'] == [t[0] for t in s.trace], 'stages run')
    check([kind_of(e) for e in errors] == want_errors, 'errors')
    if is_nothing(want):
        check(out[0] in pilo.IGNORE, 'a value although there is none')
        cover('error' if want is REJECTED else 'default')
    else:
        check(same(out[0], want), 'value')
        cover('value')


@harness(covers=['value', 'invalid'])
def constants():
    """A constant field holds its value whatever the data say, subject to the later stages; on an attached field,
    constant makes another field."""
    c = value('c', ('int', 'none'), lo=-9, hi=9)
    x = value('a', ('absent', 'none', 'int', 'str'), cap=1)
    f = pilo.fields.Int(max_value=5, nullable=False).constant(c)
    form, errors = outcome(form_of(a=f), data_of(a=x))
    if c is None:
        check(errors_of(errors) == [('Invalid', 'a')], 'a null constant of a field that is not nullable')
        cover('invalid')
    elif c > 5:
        check(errors_of(errors) == [('Invalid', 'a')], 'a constant out of range')
        cover('invalid')
    else:
        cover('value')
        check(not errors and same(form['a'], c), 'the constant')
    base = form_of(a=pilo.fields.Int(max_value=5), b=pilo.fields.Int(default=0))
    sub = type('Sub', (base,), dict(a=base.a.constant(3)))
    form, errors = mapped(sub, data_of(a=x))
    check(not errors and form == {'a': 3, 'b': 0}, 'a constant in a derived form')
    y = int_('y', -9, 9)
    form, errors = mapped(base, {'a': y})
    if y > 5:
        check(len(errors) == 1, 'the base form checks')
    else:
        check(same(form['a'], y), 'the base form reads its data')


@harness(covers=['own', 'outer', 'none'])
def context_values():
    """from_context reads a variable of the context, not the data."""
    v = value('v', ('absent', 'none', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)
    w = int_('w', -9, 9)
    dflt = choice('dflt', (UNSET, 4))
    kw = {} if dflt is UNSET else dict(default=dflt)
    cls = form_of(m=pilo.fields.Int('mine', **kw).from_context(), n=pilo.fields.Int(default=1))
    data = {'m': w, 'mine': w, 'n': w}
    with ctx(mine=6):
        if v is ABSENT:
            form, errors = mapped(cls, data)
            want = 6
            cover('outer')
        else:
            with ctx(mine=v):
                form, errors = mapped(cls, data)
            want = v
            cover('own')
    check(same(form['n'], w), 'the field after it reads the data')
    if want is None:
        check(not errors and form['m'] is None, 'null')
    elif isinstance(want, str) and not coerce('int', want)[0]:
        check([kind_of(e) for e in errors] == ['Invalid'] and 'm' not in form, 'invalid')
    else:
        check(not errors and same(form['m'], coerce('int', want)[1]), 'value of the context')
    form, errors = mapped(cls, data)
    cover('none')
    if dflt is UNSET:
        check([kind_of(e) for e in errors] == ['Missing'] and 'm' not in form, 'no such variable')
    else:
        check(not errors and form['m'] == 4, 'default without a variable')
    check(same(form['n'], w), 'the field after it reads the data')


@harness(covers=['value', 'error'])
def formatted():
    """String.format gives the text of the fields it names, wherever declared."""
    p = value('p', ('absent', 'none', 'int', 'str'), cap=1, alphabet='1a', lo=0, hi=9)
    q = str_('q', 2, 'ab')
    # fields are declared in the order they are made
    make = dict(s=lambda: pilo.fields.String(max_length=5).format('<{x}|{y}>', x='p', y='f.q'), p=lambda: pilo.fields.Int(),
                f=lambda: pilo.fields.SubForm(form_of(q=pilo.fields.String())))
    order = choice('order', (('s', 'p', 'f'), ('p', 'f', 's'), ('f', 's', 'p')))
    d = {}
    for n in order:
        d[n] = make[n]()
    cls = type('F', (pilo.Form,), d)
    form, errors = outcome(cls, dict(f=dict(q=q), s='other', **data_of(p=p)))
    ok, n = (p is None, p) if p is ABSENT or p is None else coerce('int', p)
    if not ok:
        cover('error')
        check('s' not in form, 'a text of a field without a value')
        check(('Invalid', 's') in errors_of(errors), 'error of the text')
        check(('Missing' if p is ABSENT else 'Invalid', 'p') in errors_of(errors), 'error of the field')
        return
    want = '<' + text(n) + '|' + q + '>'
    if length(want) > 5:
        cover('error')
        check(errors_of([e for e in errors if e.field.name == 's']) == [('Invalid', 's')], 'a text too long')
    else:
        cover('value')
        check(same(form['s'], want), 'text')


@harness(cases=[(h,) for h in ('munge', 'filter', 'validate', 'parse')], covers=['refused', 'called'])
def callables(which):
    """Hooks are functions of the documented arguments; values that can be called are given to them like others."""
    f = pilo.fields.Field(default=0)
    arg = 'path' if which == 'parse' else 'value'
    wrong = choice('wrong', (lambda self: 1, lambda v: 1, lambda self, x: 1, lambda self, value, path: 1, lambda: 1))
    try:
        getattr(f, which)(wrong)
        check(False, 'a hook of other arguments was accepted')
    except TypeError:
        cover('refused')
    n = int_('n', 0, 9)
    x = choice('x', (lambda self, value: 1, int, len, lambda self: 2))
    got = []

    def hook(self, value):
        got.append(value)
        return value if which == 'munge' else True

    def parse(self, path):
        got.append(path.value)
        return path.value
    check(getattr(f, which)(parse if which == 'parse' else hook) is f, 'a hook declaration gives the field')
    cls = form_of(f=f)
    for v in (x, n, x):
        form, errors = mapped(cls, {'f': v})
        cover('called')
        check(not errors and (form['f'] is v or same(form['f'], v)), 'value')
    check(len(got) == 3 and got[0] is x and got[2] is x and same(got[1], n), 'values given to the hook')


@harness(cases=[(6,), (20,)], covers=['value', 'default', 'error'])
def many(n):
    """The stages of one field are over before those of the next begin."""
    trace = []

    def make(i):
        f = pilo.fields.Int(max_value=5, nullable=False)

        def munge(self, value):
            trace.append((i, 'munge'))
            return value

        def filter(self, value):
            trace.append((i, 'filter'))
            return value is None or value != 3

        def validate(self, value):
            trace.append((i, 'validate'))
            return value is None or value != 4

        def default(self):
            trace.append((i, 'default'))
            return 7 if i % 2 else pilo.NONE
        for h in (munge, filter, validate, default):
            getattr(f, h.__name__)(h)
        return f
    names = ['f%d' % i for i in range(n)]
    cls = type('F', (pilo.Form,), dict((k, make(i)) for i, k in enumerate(names)))
    at = choice('at', (0, n // 2, n - 1))
    x = value('x', ('absent', 'none', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)
    data, want, values, wrong = {}, [], {}, []
    for i, k in enumerate(names):
        v = x if i == at else (ABSENT, 1, 3, 6)[i % 4]
        if v is not ABSENT:
            data[k] = v
        ok, y = (True, v) if v is ABSENT or v is None else coerce('int', v)
        if not ok:
            wrong.append(('Invalid', k))
            continue
        if y is not ABSENT:
            want.append((i, 'munge'))
            want.append((i, 'filter'))
        if y is ABSENT or (y is not None and y == 3):
            want.append((i, 'default'))
            if i % 2:
                values[k] = 7
        elif y is None or y > 5:
            wrong.append(('Invalid', k))
        else:
            want.append((i, 'validate'))
            if y != 4:
                values[k] = y
    form, errors = outcome(cls, data)
    check(errors_of(errors) == wrong, 'errors')
    check(trace == want, 'stages run')
    check(list(form) == list(values) and same(dict(form), values), 'values')
    cover('error' if ('Invalid', names[at]) in wrong else 'default' if (at, 'default') in want else 'value')


@harness(cases=[(k,) for k in ('int', 'str', 'any')], covers=['translated', 'as it is', 'ignored'])
def translations(kind):
    """A value is translated once, before hooks, filters and limits see it."""
    if kind == 'str':
        keys = ['a', 'b']
        to = [str_('to%d' % i, 1, 'abc', least=1) for i in range(2)]
        x, no = str_('x', 1, 'abc', least=1), choice('ignored', ('a', 'b', 'c'))
        f = pilo.fields.String
    else:
        keys = [0, 1]
        to = [int_('to%d' % i, -1, 3) for i in range(2)]
        x, no = int_('x', -1, 3), int_('ignored', -1, 3)
        f = pilo.fields.Int if kind == 'int' else pilo.fields.Field
    seen = []

    def munge(self, value):
        seen.append(value)
        return value
    table = dict(zip(keys, to))
    f = f(translate=table, ignore=no, default='default')
    f.munge.attach(f)(munge)
    form, errors = outcome(form_of(f=f), {'f': x})
    want = to[0] if x == keys[0] else to[1] if x == keys[1] else x
    cover('translated' if x == keys[0] or x == keys[1] else 'as it is')
    check(not errors and len(seen) == 1 and same(seen[0], want), 'the value a hook is given')
    if want == no:
        cover('ignored')
        check(form['f'] == 'default', 'an ignored value was kept')
    else:
        check(same(form['f'], want), 'the value')
