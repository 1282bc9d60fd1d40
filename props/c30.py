"""C30: code fields load what the text names."""
import sys
import types

import pilo
from .common import *

BOUNDS = {'white space': 'texts of 0..2 characters (thorough: 3) of tab, space, CR, form feed, backslash, e acute and # within code', 'names': 'texts of 0..6 characters (thorough: 8) of "qa.: !" (all modules and attributes of those letters are stand-ins)',
          'code': 'texts of 0..4 characters (thorough: 5) of "q=10/" and line breaks, beside another line', 'other values': 'null, booleans, integers -9..9, floats, lists, mappings',
          'sizes': 'modules and attributes up to 20 deep'}
OUTSIDE = ['long texts with more than one character that is any', 'code that ends the process or imports', 'the import machinery (modules are found in sys.modules)']

Code = pilo.fields.Code


class Thing(object):
    pass


class Modules(object):
    """Modules `q` and, in it, `q.q`; `q` has an attribute of the name too, which is no module."""

    def __enter__(self):
        q, qq = types.ModuleType('q'), types.ModuleType('q.q')
        q.a, q.q, q.qa = Thing(), Thing(), pilo.Form
        q.q.a, q.q.q = Thing(), Thing()
        q.q.a.q = 5
        qq.a, qq.qq = Thing(), None
        qq.a.a = Thing()
        sys.modules['q'], sys.modules['q.q'] = q, qq
        # what a text without a module must not be taken for
        self.others = [sys.modules[m] for m in ('__main__', 'builtins', 'pilo', 'pilo.fields')]
        for m in self.others:
            m.q, m.a, m.qa = Thing(), Thing(), Thing()
            m.q.q = m.q.a = m.a.q = Thing()
        return {'q:a': q.a, 'q:q': q.q, 'q:qa': pilo.Form, 'q:q.a': q.q.a, 'q:q.q': q.q.q, 'q:q.a.q': 5, 'q.q:a': qq.a, 'q.q:a.a': qq.a.a, 'q.q:qq': None}

    def __exit__(self, *a):
        del sys.modules['q'], sys.modules['q.q']
        for m in self.others:
            del m.q, m.a, m.qa


def named(cap, alphabet='qa.: !'):
    t = str_('t', cap, alphabet)
    cls = form_of(f=Code(), g=pilo.fields.Int(default=1))
    with Modules() as table:
        form, errors = mapped(cls, {'f': t})
        for name, obj in table.items():
            if t == name:
                cover('found')
                check(not errors, 'a name was not found')
                check('f' in form and form['f'] is obj, 'not what the text names')
                return
        cover('wrong')
        check(errors_of(errors) == [('Invalid', 'f')], 'a text that names nothing was accepted')
        check('f' not in form and form['g'] == 1, 'values')


@harness(cases=[(6,)], thorough=[(8,)], covers=['found', 'wrong'])
def names(cap):
    """Any text without a line break."""
    named(cap)


@harness(covers=['found', 'wrong'])
def longer():
    """Texts that are nearly a name."""
    head = choice('head', ('q:', 'q.q:', 'q:q.', 'q.q:a.', 'q.', ''))
    t = head + str_('t', 3, 'qa.:')
    cls = form_of(f=Code())
    with Modules() as table:
        form, errors = mapped(cls, {'f': t})
        for name, obj in table.items():
            if t == name:
                cover('found')
                check(not errors and 'f' in form and form['f'] is obj, 'not what the text names')
                return
        cover('wrong')
        check(errors_of(errors) == [('Invalid', 'f')] and 'f' not in form, 'a text that names nothing was accepted')


def run(code):
    """What the code defines, or None if it fails."""
    names = {}
    try:
        exec(compile(code, 'x', 'exec'), names)
    except Exception:
        return None
    del names['__builtins__']
    return names


def public(module):
    return dict((k, v) for k, v in vars(module).items() if not k.startswith('__'))


def plain(t):
    """The text, one path for each."""
    return t if not symbolic() else t.native()


@harness(cases=[(4,)], thorough=[(5,)], covers=['module', 'wrong'])
def inline(cap):
    """Any text with a line break."""
    t = str_('t', cap, 'q=10/\n')
    at = choice('at', ('end', 'start', 'line'))
    t = {'end': t + '\n', 'start': '\n' + t, 'line': 'qq = 7\n' + t}[at]
    cls = form_of(f=Code(), g=pilo.fields.Int(default=1))
    form, errors = mapped(cls, {'f': t})
    want = run(plain(t))
    if want is None:
        cover('wrong')
        check(errors_of(errors) == [('Invalid', 'f')], 'code that fails was accepted')
        check('f' not in form and form['g'] == 1, 'values')
    else:
        cover('module')
        check(not errors and 'f' in form, 'code was rejected')
        m = form['f']
        check(isinstance(m, types.ModuleType) and m.__name__ == '<f>', 'not a module')
        check(public(m) == want, 'the module has not what the code defines')


@harness(covers=['done'])
def separate():
    """Modules do not see each other."""
    n = choice('n', ('1', '2'))
    cls = form_of(f=Code(), g=Code(default=None), h=pilo.fields.List(Code(), default=list))
    second = choice('second', ('x = 5\n', 'y = x\n', 'x\n', 'del x\n'))
    form, errors = mapped(cls, {'f': 'x = %s\nimport sys\n' % n, 'g': second, 'h': ['z = 1\n', 'z\n', 'w = 2\n']})
    check(public(form['f'])['x'] == int(n), 'the first')
    bad = [('Invalid', 'h[1]')]
    if second == 'x = 5\n':
        check(public(form['g']) == {'x': 5} and form['f'] is not form['g'], 'the second')
    else:
        bad.insert(0, ('Invalid', 'g'))
        check('g' not in form, 'the second sees the first')
    check(errors_of(errors) == bad, 'errors')
    check([public(m) for m in form['h']] == [{'z': 1}, {'w': 2}], 'those of the list')
    again, errors = mapped(cls, {'f': 'x = %s\n' % n})
    check(again['f'] is not form['f'] and public(again['f']) == {'x': int(n)}, 'mapped again')
    check('x' not in vars(pilo.fields) and 'z' not in vars(pilo.fields), 'names leaked')
    cover('done')


@harness(covers=['done'])
def given():
    """Globals given to compile are those of the module."""
    x = int_('x', -9, 9)
    m = Code.compile('n', 'y = x\n', x=x, z=3)
    check(m.y is x and m.x is x and m.z == 3 and m.__name__ == '<n>', 'globals')
    cover('done')


@harness(covers=['done'])
def others():
    """Values that are not text."""
    x = value('x', ('none', 'bool', 'int', 'float', 'list', 'dict'), lo=-9, hi=9)
    form, errors = mapped(form_of(f=Code()), {'f': x})
    check(not errors and form['f'] is x, 'a value was changed')
    form, errors = mapped(form_of(f=Code(nullable=False)), {'f': x})
    check(errors_of(errors) == ([('Invalid', 'f')] if x is None else []), 'null')
    form, errors = mapped(form_of(f=Code()), {})
    check(errors_of(errors) == [('Missing', 'f')], 'missing')
    cover('done')


@harness(covers=['done'])
def sources():
    """From JSON text, and below a key."""
    with Modules() as table:
        t = choice('t', tuple(table) + ('q:b', 'b:q', 'q'))
        where = choice('where', ('json', 'nested', 'list', 'renamed'))
        field = Code('k') if where == 'renamed' else Code()
        inner = form_of(f=field)
        if where == 'json':
            form, errors = mapped(inner, pilo.source.JsonSource('{"f": "%s"}' % t))
            at = 'f'
        elif where == 'renamed':
            form, errors = mapped(inner, {'k': t})
            at = 'k'
        elif where == 'nested':
            outer, errors = mapped(form_of(n=pilo.fields.SubForm(inner)), {'n': {'f': t}})
            form, at = outer.get('n', {}), 'n.f'
        else:
            outer, errors = mapped(form_of(n=pilo.fields.List(Code())), {'n': [t]})
            form, at = {'f': outer['n'][0]} if outer['n'] else {}, 'n[0]'
        if t in table:
            check(not errors and 'f' in form and form['f'] is table[t], 'not what the text names')
        else:
            check(errors_of(errors) == [('Invalid', at)] and 'f' not in form, 'a text that names nothing was accepted')
    cover('done')


@harness(cases=[(3,), (8,), (20,)], covers=['found', 'wrong'])
def far(n):
    """Modules in modules in modules, and attributes of attributes."""
    names = ['q' + '.q' * i for i in range(n)]
    at, deep = choice('module', (0, n // 2, n - 1)), choice('attributes', (1, n // 2 + 1, n))
    target = Thing()
    saved = dict((k, sys.modules.get(k)) for k in names)
    try:
        for k in names:
            sys.modules[k] = types.ModuleType(k)
        for k, m in zip(names, names[1:]):
            sys.modules[k].q = sys.modules[m]
        holder = sys.modules[names[at]]
        for _ in range(deep - 1):
            holder.a = Thing()
            holder = holder.a
        holder.a = target
        c = str_('c', 1, 'a.:!', least=1)
        t = names[at] + ':' + 'a.' * (deep - 1) + c
        form, errors = mapped(form_of(f=Code()), {'f': t})
        if c == 'a':
            cover('found')
            check(not errors and form['f'] is target, 'not what the text names')
        else:
            cover('wrong')
            check(errors_of(errors) == [('Invalid', 'f')] and not form, 'a text that names nothing was accepted')
    finally:
        for k, m in saved.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m


PIECES = ('x = "%s"\n', "x = \'\'\'%s\n\'\'\'", 'x = 1  # %s\ny = 2', 'x = 1 %s\n\ny = 2\n', 'if 1:\n %s x = 1\n', 'x = """\n  %s\n"""\n', '%sx = 5\n', 'def f():\n\t"""a\n%s\tb"""\n\nx = f.__doc__\n')


@harness(cases=[(2,)], thorough=[(3,)], covers=['module', 'wrong'])
def as_written(cap):
    """White space, quotes and other letters in code are kept."""
    t = choice('code', PIECES) % plain(str_('t', cap, '\t \r\x0c\\\u00e9#'))
    where = choice('where', ('alone', 'default name', 'list'))
    f = Code() if where != 'list' else pilo.fields.List(Code())
    form, errors = mapped(form_of(f=f if where != 'default name' else Code('code')), {'code': t} if where == 'default name' else {'f': [t] if where == 'list' else t})
    want = run(t)
    if want is None:
        cover('wrong')
        check([kind_of(e) for e in errors] == ['Invalid'] and not form.get('f'), 'code that fails was accepted')
        return
    cover('module')
    check(not errors, 'code was rejected')
    got = public(form['f'][0] if where == 'list' else form['f'])
    check(all(got.get(k) == v or k == 'f' for k, v in want.items()) and set(got) == set(want), 'the module has not what the code defines')
