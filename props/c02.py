"""C02: the context is a stack."""
import pilo
from pilo.context import ctx
from .common import *

BOUNDS = {'history': 'up to 4 context operations (5 in thorough), nested and in sequence, left normally or by an '
          'exception', 'operations': 'variables, keys, sources, keys with variables, reset, rewind to any frame',
          'values': 'integers, keys are texts of 1 character or indexes',
          'sizes': '40 blocks inside each other'}
OUTSIDE = ['longer histories', 'overlapping blocks that are not left in reverse order']


class Stop(Exception):
    pass


DATA = {'a': {'a': {'a': 1, 'b': None}, 'b': [4, {'a': 2}]}, 'b': 7}


def lookup(keys):
    v = DATA
    for k in keys:
        if isinstance(v, dict) and k in v:
            v = v[k]
        elif isinstance(v, list) and isinstance(k, int) and k < len(v):
            v = v[k]
        else:
            return ABSENT
    return v


class Model(object):

    def __init__(self):
        self.view = []
        self.n = 0
        self.last = None

    def values(self, name):
        return [f[name] for f in self.view if name in f]

    def keys(self):
        out = None
        for f in self.view:
            if 'source' in f:
                out = []
            elif 'reset' in f:
                out = None
            elif 'key' in f:
                out.append(f['key'])
        return out

    def src(self):
        for f in reversed(self.view):
            for n in ('source', 'key', 'reset'):
                if n in f:
                    return f[n]

    def verify(self, when):
        for name in ('x', 'y', 'form', 'tags', 'errors', 'mark'):
            want = self.values(name)
            got = ctx.values_for(name)
            check(len(got) == len(want) and and_(*[same(g, w) for g, w in zip(got, want)]), 'values of a variable ' + when)
            check(hasattr(ctx, name) == bool(want), 'whether a variable is set ' + when)
            if want:
                check(same(getattr(ctx, name), want[-1]), 'innermost value of a variable ' + when)
        keys = self.keys()
        path = ctx.src_path
        check((path is None) == (keys is None), 'whether there is a source path ' + when)
        if keys is not None:
            got = [p.key for p in path]
            check(len(got) == len(keys) and and_(*[same(g, k) for g, k in zip(got, keys)]), 'keys of the path ' + when)
            check(text(path) == place(keys), 'text of the path ' + when)
            want = lookup(keys)
            check(path.exists == (want is not ABSENT), 'whether the place exists ' + when)
            check(path.value is want or same(path.value, want), 'value at the place ' + when)
            check(path.is_null == (want is None), 'whether the place is null ' + when)
            if keys:
                check(same(path.name, keys[-1]), 'name of the place ' + when)
        src = ctx.src
        check(src is self.src() or same(src, self.src()), 'innermost source or key ' + when)


def operations(m, ops):
    """The operations possible now."""
    out = [o for o in ops if m.keys() is not None or o not in ('key', 'index', 'both')]
    if m.n == 0 and 'rewind' in out:
        out.remove('rewind')
    return out


def enter(m, op):
    m.n += 1
    mark = m.n
    if op == 'var':
        x = int_('x', -9, 9)
        return ctx(x=x, mark=mark), m.view + [dict(x=x, mark=mark)]
    if op == 'vars':
        x, y = int_('x', -9, 9), int_('y', -9, 9)
        own = dict(x=x, y=y, form=y, tags=x, errors=[x], mark=mark)
        return ctx.push(**own), m.view + [own]
    if op == 'key':
        k = choice('k', ('a', 'b'))
        return ctx(src=k), m.view + [dict(key=k)]
    if op == 'index':
        k = int_('i', 0, 1)
        return ctx(src=k), m.view + [dict(key=k)]
    if op == 'both':
        k, y = choice('k', ('a', 'b')), int_('y', -9, 9)
        return ctx(src=k, y=y, mark=mark), m.view + [dict(key=k, y=y, mark=mark)]
    if op in ('source', 'same'):
        s = pilo.DefaultSource(DATA) if op == 'source' or m.last is None else m.last
        m.last = s
        return ctx(src=s, mark=mark), m.view + [dict(source=s, mark=mark)]
    if op == 'reset':
        return ctx.reset(), m.view + [dict(reset=None)]
    assert op == 'rewind'
    marks = m.values('mark')
    to = choice('to', marks + [None]) if marks else None
    if to is None:
        try:
            ctx.rewind(lambda frame: False)
            fail('rewinding to nowhere')
        except ctx.RewindDidNotStop:
            pass
        m.verify('after rewinding to nowhere')
        return None, None
    at = [i for i, f in enumerate(m.view) if f.get('mark') == to][0]
    return ctx.rewind(lambda frame: getattr(frame, 'mark', None) == to), m.view[:at + 1]


def run(m, ops, left):
    while left[0] > 0:
        op = choice('op', ['end'] + operations(m, ops))
        if op == 'end':
            break
        left[0] -= 1
        before = m.view
        close, view = enter(m, op)
        if close is None:
            continue
        with close:
            m.view = view
            m.verify('after ' + op)
            cover(op)
            run(m, ops, left)
        m.view = before
        m.verify('after leaving ' + op)


ALL = ('var', 'key', 'source', 'reset', 'rewind', 'index', 'both', 'vars', 'same')


@harness(cases=[(('key', 'both', 'var', 'rewind'), 4), (('source', 'key', 'rewind'), 4), (('source', 'reset', 'rewind', 'both'), 4),
                (('var', 'vars', 'reset'), 4), (('same', 'key', 'rewind'), 4), (ALL, 3)],
         thorough=[(('key', 'both', 'var', 'rewind'), 5), (('source', 'key', 'rewind'), 6), (('source', 'reset', 'rewind', 'both'), 5),
                   (('var', 'vars', 'reset'), 5), (('same', 'key', 'rewind', 'reset'), 5), (ALL, 4)],
         covers=['var', 'key', 'source', 'reset', 'rewind', 'index', 'both', 'vars', 'same'])
def history(ops, n):
    """Any history inside a source."""
    m = Model()
    m.verify('at first')
    s = pilo.DefaultSource(DATA)
    with ctx(src=s, mark=0):
        m.view = [dict(source=s, mark=0)]
        run(m, ops, [n])
        m.verify('at the end')
    m.view = []
    m.verify('at last')


@harness(cases=[(2,)], thorough=[(3,)], covers=['source', 'reset', 'rewind', 'var'])
def bare(n):
    """Histories that begin without a source; rewinding to the first frame of all."""
    m = Model()
    run(m, ('var', 'source', 'key', 'reset', 'rewind'), [n])
    m.verify('at the end')


@harness(cases=[(3,)], thorough=[(4,)], covers=['raised'])
def exception(n):
    """Any nest of blocks left by an exception."""
    m = Model()
    s = pilo.DefaultSource(DATA)

    def nest(left):
        op = choice('op', (['raise'] if left < n else []) + (operations(m, ('var', 'key', 'source', 'reset', 'rewind')) if left else []))
        if op == 'raise':
            cover('raised')
            raise Stop()
        before = m.view
        close, view = enter(m, op)
        if close is None:
            return nest(left - 1)
        try:
            with close:
                m.view = view
                nest(left - 1)
        finally:
            m.view = before
        fail('exception swallowed')

    with ctx(src=s, mark=0):
        m.view = [dict(source=s, mark=0)]
        x = int_('x', 0, 9)
        with ctx(x=x, src='a'):
            m.view = [dict(source=s, mark=0), dict(x=x, key='a')]
            try:
                nest(n)
                fail('exception swallowed')
            except Stop:
                pass
            m.verify('after the exception')
    m.view = []
    m.verify('at last')


@harness(covers=['same'])
def whole():
    """Rewinding past every frame and back: nothing changes."""
    m = Model()
    k = choice('k', ('a', 'b'))
    s = pilo.DefaultSource(DATA)
    with ctx(src=s, mark=0):
        with ctx(src=k):
            m.view = [dict(source=s, mark=0), dict(key=k)]
            with ctx.rewind(lambda frame: 'ignore_default' in frame):
                check(ctx.src is None and ctx.src_path is None, 'a source outside of all')
                check(not hasattr(ctx, 'mark'), 'a variable outside of all')
                x = int_('x', 0, 3)
                with ctx(x=x):
                    check(ctx.x == x, 'a variable after rewinding')
            cover('same')
            m.verify('after rewinding past all')
            with ctx.rewind(lambda frame: True):
                m.verify('after rewinding to the top frame')
            m.verify('after rewinding to the top frame and back')


@harness(covers=['disabled', 'closed'])
def closing():
    """A block can be entered as a name; disabled, it leaves what was pushed until closed by hand."""
    x, y, z = int_('x', -9, 9), int_('y', -9, 9), int_('z', -9, 9)
    how = choice('how', ('block', 'disabled', 'function'))
    src = pilo.DefaultSource(DATA)
    with ctx(x=z, src=src) as outer:
        check(outer is not None and ctx.x is z, 'inside')
        with ctx(src='a', x=x) as close:
            check(ctx.values_for('x')[-2:] == [z, x] and [p.key for p in ctx.src_path] == ['a'], 'inside')
            if how == 'disabled':
                close.disable = True
        if how == 'disabled':
            cover('disabled')
            check(ctx.values_for('x') == [z, x] and [p.key for p in ctx.src_path] == ['a'], 'a disabled block was left')
            with ctx(x=y):
                check(ctx.x is y, 'within a disabled block')
            close.func()
        elif how == 'function':
            again = ctx(x=y, src='b')
            check(ctx.x is y and [p.key for p in ctx.src_path] == ['b'], 'before the block')
            again.func()
        cover('closed')
        check(ctx.values_for('x') == [z] and len(ctx.src_path) == 0, 'after the block')
    check(not hasattr(ctx, 'x') and ctx.src_path is None, 'at last')


@harness(cases=[(40,)], covers=['done', 'raised'])
def high(n):
    """Many blocks within each other."""
    v = [int_('v%d' % i, 0, 9) for i in range(2)]
    data = {'k': int_('leaf', 0, 9)}
    for i in range(n - 1):
        data = {'k': data} if i % 3 else [data]
    keys, d = [], data
    for i in range(n):
        keys.append('k' if isinstance(d, dict) else 0)
        d = d[keys[-1]]
    left = choice('left', ('normally', 'error'))
    blocks, depth = [], choice('depth', (n, n // 2, 12))
    before = snapshot_(('x', 'y'))
    blocks.append(ctx(src=pilo.DefaultSource(data), x=v[0]))
    for i in range(depth):
        blocks.append(ctx(src=keys[i], y=v[1] + i) if i % 2 else ctx(src=keys[i]))
    try:
        d = data
        for i, k in enumerate(keys[:depth]):
            d = d[k]
        check(ctx.src_path.exists and same(ctx.src_path.value, d), 'value of the path')
        check([p.key for p in ctx.src_path][-depth:] == keys[:depth], 'keys of the path')
        check(text(ctx.src_path) == place(keys[:depth]), 'text of the path')
        check(same(ctx.x, v[0]) and len(ctx.values_for('y')) == len(before['y']) + depth // 2, 'variables')
        check(same(ctx.y, v[1] + (depth - 1 if depth % 2 == 0 else depth - 2)), 'the innermost variable')
        if left == 'error':
            raise Stop()
    except Stop:
        cover('raised')
        for b in reversed(blocks):
            b.__exit__(Stop, Stop(), None)
    else:
        cover('done')
        for i, b in enumerate(reversed(blocks)):
            b.__exit__(None, None, None)
            left_ = depth - i - 1
            if left_ >= 0:
                check(len([p for p in ctx.src_path if p.key is not None]) >= left_ and text(ctx.src_path) == place(keys[:left_]), 'path after leaving a block')
    check(snapshot_(('x', 'y')) == before and ctx.src_path is None, 'context after leaving')


def snapshot_(names):
    return dict((n, ctx.values_for(n)) for n in names)
