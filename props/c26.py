"""C26: configuration text."""
import os
import shutil
import tempfile
from six.moves import configparser
import pilo
from .common import *

BOUNDS = {'values': 'all option texts of 0..3 characters of "0 1 - . a t", items of lists of 0..3 characters of "a", space, quote and '
          'line break, several sections and options', 'layout': 'whole file or one section, options, indexed options, defaults, '
          'case kept or not, whitespace kept or not',
          'sizes': '20 sections of 20 options, one any; options of 30 items, one any'}
OUTSIDE = ['parsing and interpolation of the text itself, done by the standard library (option values are symbolic below the parser)']


def parser(sections):
    p = configparser.RawConfigParser()
    for s, options in sections.items():
        if s != 'DEFAULT':
            p.add_section(s)
        for k, v in options.items():
            p.set(s, k, v)
    return p


class ConfigRef(Ref):
    """As the reference, with option texts split to lists."""

    def parse(self, n, v, path):
        if n.kind == 'list':
            if not isinstance(v, str):
                return self.invalid(path)
            v = split(v)
            if v is None:
                return self.invalid(path)
        elif n.kind in ('form', 'dict') and not isinstance(v, dict):
            return self.invalid(path)
        elif n.kind not in ('form', 'dict') and isinstance(v, dict):
            return self.invalid(path)
        return Ref.parse(self, n, v, path)


def split(v):
    if '\n' in v:
        return [x.strip() for x in v.split('\n') if x.strip()]
    out, cur, quoted = [], None, False
    for c in v:
        if c == '"':
            quoted = not quoted
            cur = cur or ''
        elif c == ' ' and not quoted:
            if cur is not None:
                out.append(cur)
            cur = None
        else:
            cur = (cur or '') + c
    if quoted:
        return None
    return out + ([cur] if cur is not None else [])


def where(errors, prefix):
    return [(k, prefix + p) for k, p in errors]


def judge(n, src, data, prefix=''):
    cls = form_type(n)
    form = cls()
    errors = list(form.map(src))
    ref = ConfigRef()
    want = ref.form(n, data)
    observe([kind_of(e) for e in errors])
    observe(dict(form))
    agree(form, errors, want, where(ref.errors, prefix))
    cover('error' if errors else 'clean')
    return form, want


def scalar(label):
    return str_(label, 3, '01-. at')


@harness(cases=[('section',), ('whole',)], covers=['error', 'clean'])
def scalars(how):
    """Options as numbers, booleans and texts, with defaults."""
    given = data_of(i=scalar('i') if flag('i') else ABSENT, b=scalar('b') if flag('b') else ABSENT, s=scalar('s') if flag('s') else ABSENT)
    more = {'other': {'i': '77', 'x': 'y'}}
    p = parser(dict(more, sec=given))
    dflts = {'i': '5', 's': 'dflt'} if flag('defaults') else None
    fields = [('i', Node('int')), ('b', Node('bool', default=None)), ('s', Node('str', max_length=2)), ('x', Node('str', default='none'))]
    data = dict(dflts or {}, **given)
    loc = choice('location', (None, 'file.cfg'))
    if how == 'section':
        src = pilo.source.ConfigSource(p, section='sec', defaults=dflts, location=loc)
        judge(form_node(*fields), src, data, (loc + ':' if loc else '') + '[sec]:')
    else:
        src = pilo.source.ConfigSource(p, defaults={'sec': dflts} if dflts else None, location=loc)
        n = form_node(('sec', Node('form', fields=fields)), ('nosec', Node('form', default=3, fields=fields)))
        judge(n, src, {'sec': data}, loc + ':' if loc else '')


@harness(covers=['error', 'clean'])
def floats():
    """Options as floats and decimals; errors at their place."""
    v = str_('v', 3, '01-.e')
    src = pilo.source.ConfigSource(parser({'s': {'v': v}}), section='s')
    judge(form_node(('v', Node('float', min_value=-5)), ('w', Node('float', default=1.5))), src, {'v': v}, '[s]:')


@harness(cases=[('a" ', 3), ('a\n ', 3), ('1a ', 2), ('a# ', 3), (';\n#', 3)], thorough=[('a" ', 4), ('a\n ', 4), ('1a \n"', 3)], covers=['error', 'clean'])
def lists(alphabet, cap):
    """List options: by lines, or by words with quotes."""
    v = str_('v', cap, alphabet)
    kind = 'int' if '1' in alphabet else 'str'
    src = pilo.source.ConfigSource(parser({'s': {'v': v}}), section='s')
    judge(form_node(('v', Node('list', item=Node(kind, max_length=2) if kind == 'str' else Node('int'))), ('x', Node('str', src='v'))), src, {'v': v}, '[s]:')
    if kind == 'str':
        src = pilo.source.ConfigSource(parser({'s': {'k': 'no', 'v[k]': v, 'v[m.n]': v}}), section='s')
        judge(form_node(('v', Node('dict', key=Node('str'), item=Node('list', item=Node('str')))), ('w', Node('list', item=Node('str'), default=4))),
              src, {'v': {'k': v, 'm.n': v}, 'k': 'no'}, '[s]:')


@harness(covers=['error', 'clean'])
def indexed():
    """Options with an index make up a mapping, which hides an option of its name."""
    x, y, z = [scalar(c) if flag(c) else ABSENT for c in 'xyz']
    options = data_of(**{'m[x]': x, 'm[y-1]': y})
    if z is not ABSENT:
        options['m'] = z
    src = pilo.source.ConfigSource(parser({'s': options}), section='s', defaults={'m': {'x': '4'}} if flag('defaults') else None)
    sub = data_of(**{'x': x, 'y-1': y})
    data = {}
    if sub:
        data['m'] = sub
    elif z is not ABSENT:
        data['m'] = z
    elif src.defaults:
        data['m'] = {'x': '4'}
    n = Node('form', fields=[('x', Node('int', default=1)), ('y', Node('str', src='y-1', default='q'))])
    judge(form_node(('m', n)), src, data, '[s]:')
    judge(form_node(('m', Node('dict', key=Node('str'), item=Node('str'), default={}))), src, data, '[s]:')


@harness(covers=['sections', 'options', 'case'])
def listing():
    """All options of a section, all sections; inherited options; case."""
    v, w, d = scalar('v'), scalar('w'), scalar('d')
    p = parser({'DEFAULT': {'d': d}, 's': {'v': v, 'Cap': w}, 't': {'d': w}})
    form, errors = mapped(form_of(x=pilo.fields.Dict(pilo.fields.String(), pilo.fields.String(), 's')), pilo.source.ConfigSource(p))
    check(not errors and same(form['x'], {'v': v, 'cap': w, 'd': d}), 'options of a section')
    cover('options')
    form = pilo.Form()
    errors = form.map(pilo.source.ConfigSource(p, section='t'), unmapped=pilo.fields.String())
    check(not errors and same(dict(form), {'d': w}), 'captured options')
    form, errors = mapped(form_of(x=pilo.fields.Dict(pilo.fields.String(), pilo.fields.SubForm(form_of(d=pilo.fields.String(), v=pilo.fields.String(default='-'))), None)),
                          pilo.source.ConfigSource(p))
    check(not errors and same(dict((k, dict(f)) for k, f in form['x'].items()), {'s': {'d': d, 'v': v}, 't': {'d': w, 'v': '-'}}), 'sections')
    cover('sections')
    form, errors = mapped(form_of(a=pilo.fields.String('CAP'), b=pilo.fields.String('cap')), pilo.source.ConfigSource(p, section='s'))
    check(not errors and same(dict(form), {'a': w, 'b': w}), 'case of options')
    cover('case')


TEXTS = ('plain', '12', '1.5', 'true', 'two words', '"q w" e', 'a%%b', '')


@harness(covers=['text', 'case'])
def text_read():
    """Configuration text itself."""
    v = choice('v', TEXTS)
    t = '# comment\n[Sec]\nAbc = %s\nabc[k.1] = 3\nm[x]=1\nm[y]: 2\nlines =\n  one\n  two 2\n\n[other]\nz = 1\n' % v
    cls = form_of(a=pilo.fields.String('Abc', default=None), m=pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int()), l=pilo.fields.List('lines', pilo.fields.String()),
                  z=pilo.fields.Int(default=0))
    case = flag('case')
    form, errors = mapped(cls, pilo.source.ConfigSource(t, section='Sec', preserve_case=case))
    want = v.replace('%%', '%')
    cover('case' if case else 'text')
    check(form['m'] == {'x': 1, 'y': 2} and form['l'] == ['one', 'two 2'] and form['z'] == 0, 'values')
    check(not errors and form['a'] == want, 'an option as written')
    form, errors = mapped(form_of(a=pilo.fields.String('abc', default=None), b=pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int(), 'abc')), pilo.source.ConfigSource(t, section='Sec', preserve_case=case))
    check(form['b'] == {'k.1': 3} and [kind_of(e) for e in errors] == ['Invalid'], 'an indexed option')


@harness(covers=['kept', 'plain'])
def whitespace():
    """preserve_whitespace keeps the lines of a text as they are in the file, less their common indent."""
    indent, more = choice('indent', ('  ', '    ', '\t')), choice('more', ('', '  ', ' '))
    one, two = choice('one', ('a b', 'a = b', 'x')), choice('two', ('c', 'code:  d'))
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, 'f.cfg')
        with open(path, 'w') as fo:
            fo.write('[n]\ncode =\n  other\n[s]\nk = 1\ncode =\n%s%s\n%s%s%s\nlast = 2\n' % (indent, one, indent, more, two))
        cls = form_of(code=pilo.fields.String(), k=pilo.fields.Int(), last=pilo.fields.String())
        form, errors = mapped(cls, pilo.source.ConfigSource.from_file(path, section='s', preserve_whitespace=True))
        check(not errors and form == {'code': '%s\n%s%s\n' % (one, more, two), 'k': 1, 'last': '2'}, 'whitespace kept')
        cover('kept')
        form, errors = mapped(cls, pilo.source.ConfigSource.from_file(path, section='s'))
        check(not errors and form == {'code': '\n%s\n%s' % (one, two), 'k': 1, 'last': '2'}, 'text of the parser')
        cover('plain')
    finally:
        shutil.rmtree(d)


@harness(cases=[(w,) for w in ('section', 'whole')], covers=['kept', 'indexed', 'inherited', 'default'])
def whitespace_of(how):
    """preserve_whitespace gives the text of that option: not of one that begins alike, nor of another section; what is not in the
    section of the file is as without."""
    name = choice('name', ('co', 'm[k]', 'Cap'))
    delimiter = choice('delimiter', (' =', '=', ' :'))
    first = choice('first', ('', ' a', ' a = b'))
    before, after = choice('before', ('', 'x = 1\n', 'x = 1\n  co = 5\n', 'cod = 1\n  z\n')), choice('after', ('', '# no\n  last\n', '  last\n'))
    other = flag('other')
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, 'f.cfg')
        with open(path, 'w') as fo:
            fo.write('[DEFAULT]\ninh =\n  1\n  2\n' + ('[n]\nco =\n  other\nm[k] =\n  other\nCap =\n  other\n' if other else '')
                     + '[s]\n' + before + name + delimiter + first + '\n  b\n    c\n' + after + '[t]\nco = \n  no\ndf =\n  no\n')
        fields = {'inh': pilo.fields.String(), 'df': pilo.fields.String()}
        if name == 'm[k]':
            fields['v'] = pilo.fields.Dict(pilo.fields.String(), pilo.fields.String(), 'm')
        else:
            fields['v'] = pilo.fields.String(name)
        cls = form_of(**fields)
        defaults = {'df': 'p\n  q'}
        if how == 'section':
            src = pilo.source.ConfigSource.from_file(path, section='s', preserve_whitespace=True, defaults=defaults)
            form, errors = mapped(cls, src)
        else:
            src = pilo.source.ConfigSource.from_file(path, preserve_whitespace=True, defaults={'s': defaults})
            form, errors = mapped(form_of(s=pilo.fields.SubForm(cls)), src)
            form = form.get('s', {})
        check(not errors, 'errors')
        want = (first.strip() + '\n' if first else '') + 'b\n  c\n' + ('last\n' if after else '')
        if name == 'm[k]':
            cover('indexed')
            want = {'k': want}
        cover('kept')
        check(form['v'] == want, 'text of the option')
        cover('inherited')
        check(form['inh'] == '\n1\n2', 'an inherited option')
        cover('default')
        check(form['df'] == 'p\n  q', 'a default')
    finally:
        shutil.rmtree(d)


@harness(cases=[(5,), (20,)], covers=['error', 'clean'])
def many(n):
    """Many sections with many options, one of which has any value."""
    at, opt = choice('at', (0, n // 2, n - 1)), choice('option', (0, n - 1))
    t = str_('t', 2, '01-a')
    sections = dict(('s%d' % i, dict(('o%d' % j, t if (i, j) == (at, opt) else str(i * j)) for j in range(n))) for i in range(n))
    src = pilo.source.ConfigSource(parser(sections))
    fields = [('o%d' % j, Node('int')) for j in range(0, n, n - 1)] + [('o%d' % (n // 2), Node('int', default=None)), ('o%d' % n, Node('int', default=-1))]
    judge(form_node(*[('s%d' % i, Node('form', fields=fields)) for i in range(n)]), src, sections)


@harness(cases=[(8, 'a" '), (30, 'a" '), (8, 'a\n '), (30, 'a\n ')], covers=['error', 'clean'])
def long_lists(n, alphabet):
    """Options with many items, some of which are any text."""
    sep = choice('separator', (' ', '\n', '" "'))
    items = ['%d' % i for i in range(n)]
    v = str_('v', 2, alphabet)
    items[choice('at', (1, n // 2, n - 1))] = v
    t = items[0]
    for i in items[1:]:
        t = t + sep + i
    src = pilo.source.ConfigSource(parser({'s': {'v': t, 'w': 'x'}}), section='s')
    judge(form_node(('v', Node('list', item=Node('str'))), ('w', Node('str', min_length=choice('least', (1, 2))))), src, {'v': t, 'w': 'x'}, '[s]:')


@harness(covers=['exact', 'any case'])
def case_kept():
    """preserve_case: options are told apart by their case; otherwise names in any case are the option."""
    written, asked = choice('written', ('abc', 'Abc', 'ABC')), choice('asked', ('abc', 'Abc', 'ABC', 'abd'))
    key = choice('key', ('k', 'K'))
    v = choice('v', TEXTS)
    t = '[Sec]\n%s = %s\nm[%s] = 4\n' % (written, v, key)
    case = flag('case')
    if case:
        t += 'aBc = 9\nm[%s] = 5\n' % key.swapcase()
    src = pilo.source.ConfigSource(t, section='Sec', preserve_case=case)
    form, errors = mapped(form_of(a=pilo.fields.String(asked, default='none'), m=pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int(), default=None)), src)
    want = v.replace('%%', '%')
    if case:
        cover('exact')
        check(not errors and form == {'a': want if written == asked else 'none', 'm': {key: 4, key.swapcase(): 5}}, 'case of options kept')
    else:
        cover('any case')
        check(not errors and form['a'] == (want if written.lower() == asked.lower() else 'none') and form['m'] == {'k': 4}, 'options in any case')
