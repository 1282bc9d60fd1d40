"""C03: mappings in different threads do not affect each other."""
import threading

import pilo
from .common import *

BOUNDS = {'threads': '2 (3 in harness `three`), of the same or different forms, sharing the source or not',
          'schedules': 'any order in which the threads take turns, switching at hooks, defaults, context operations and accesses of the source '
                       '(up to 6 such points in each thread)',
          'values': 'absent or integers 0..9 in each thread',
          'sizes': 'four threads which switch once each'}
OUTSIDE = ['switches between other instructions', 'forms or data changed by another thread while they are mapped', 'five threads and more']


def depth():
    return len(getattr(pilo.ctx, 'stack', 'x'))


class Abort(BaseException):
    pass


class Turns(object):
    """Runs functions in threads of their own, one at a time; at `switch` it is chosen who goes on."""

    def __init__(self, *functions):
        self.functions = functions
        self.events = [threading.Event() for _ in functions]
        self.live = list(range(len(functions)))
        self.results = [None] * len(functions)
        self.failure = None
        self.turn = None
        self.done = threading.Event()
        self.points = 0

    def body(self, i):
        self.events[i].wait()
        try:
            if self.failure is None:
                self.results[i] = self.functions[i]()
                check(depth() == 1, 'the context of the thread')
        except Abort:
            pass
        except BaseException as ex:
            if self.failure is None:
                self.failure = ex
        finally:
            self.live.remove(i)
            try:
                self.next(None)
            except BaseException as ex:
                self.failure = self.failure or ex
                self.release()

    def release(self):
        if self.live:
            self.events[self.live[0]].set()
        else:
            self.done.set()

    def next(self, me):
        if not self.live:
            self.done.set()
            return
        if self.failure is not None:
            self.release()
            return
        self.points += 1
        i = self.live[pick('turn%d' % self.points, len(self.live))] if len(self.live) > 1 else self.live[0]
        if i == me:
            return
        self.turn = i
        if me is not None:
            self.events[me].clear()
        self.events[i].set()
        if me is not None:
            self.events[me].wait()
            if self.failure is not None:
                raise Abort()
            self.turn = me

    def switch(self):
        if self.turn is not None:
            self.next(self.turn)

    def run(self):
        # threads are told apart by what they are, not by what they are called
        threads = [threading.Thread(target=self.body, args=(i,), name='mapping') for i in self.live]
        for t in threads:
            t.daemon = True
            t.start()
        self.next(None)
        self.done.wait()
        for t in threads:
            t.join()
        if self.failure is not None:
            raise self.failure
        return self.results


class Switching(pilo.DefaultSource):
    """A source whose accesses are points of a switch."""
    turns = None

    def primitive(self, path, *types):
        if self.turns:
            self.turns.switch()
        return super(Switching, self).primitive(path, *types)

    def sequence(self, path):
        if self.turns:
            self.turns.switch()
        return super(Switching, self).sequence(path)


class Now(object):
    """Where hooks find the turns, if there are any."""
    turns = None
    #: whether a hook is one point instead of two
    single = False


def switch():
    if Now.turns is not None:
        Now.turns.switch()


def together(*functions):
    """The results of the functions alone, and of all in threads."""
    alone = [f() for f in functions]
    Now.turns = Turns(*functions)
    try:
        got = Now.turns.run()
    finally:
        Now.turns = None
    return alone, got


def hook(fn):
    def munge(self, value):
        switch()
        value = fn(self, value)
        if not Now.single:
            switch()
        return value
    return munge


def result(form, errors, path=True):
    return [list(form), plain(dict(form)), errors_of(errors), [text(e) for e in errors]]


def plain(x):
    if isinstance(x, dict):
        return dict((k, plain(y)) for k, y in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if hasattr(x, 'groups'):
        return x.group(0)
    return x


def f_scalars():
    def default():
        switch()
        return 3
    return form_of(a=pilo.fields.Int(min_value=5).munge(hook(lambda self, v: v)), b=pilo.fields.Int(default=default), c=pilo.fields.Int('b'))


def f_nested():
    leaf = form_of(x=pilo.fields.Int(max_value=5).munge(hook(lambda self, v: v)))
    return form_of(a=pilo.fields.Int(), n=pilo.fields.SubForm(leaf, default=None), b=pilo.fields.Int('n.x', default=1))


def f_list():
    return form_of(l=pilo.fields.List(pilo.fields.Int(max_value=5).munge(hook(lambda self, v: v)), max_length=1), a=pilo.fields.Int())


def f_ondemand():
    return form_of(a=pilo.fields.Int().munge(hook(lambda self, v: [v, self.b])), b=pilo.fields.Int(default=2).munge(hook(lambda self, v: v)))


def f_context():
    def munge(self, value):
        with self.ctx(mine=value, ignore_default=False):
            switch()
            return [value, pilo.ctx.mine, text(pilo.ctx.src_path), pilo.ctx.form is self]
    return form_of(a=pilo.fields.Int().munge(munge), b=pilo.fields.Int().munge(munge))


def f_dict():
    return form_of(d=pilo.fields.Dict(pilo.fields.String(), pilo.fields.Int(max_value=5).munge(hook(lambda self, v: v)), default=dict), a=pilo.fields.Int())


def f_poly():
    base = type('Base', (pilo.Form,), dict(type=pilo.fields.Type.abstract()))
    subtype(base, 'One', type=pilo.fields.Type.instance('one'), a=pilo.fields.Int(max_value=5).munge(hook(lambda self, v: v)))
    subtype(base, 'Two', type=pilo.fields.Type.instance('two'), b=pilo.fields.Int('a'))
    return form_of(p=pilo.fields.PolymorphicSubForm(base.type), a=pilo.fields.Int())


def f_rest():
    leaf = form_of(x=pilo.fields.Int(default=1))
    f = pilo.fields.SubForm(leaf, 'd', unmapped=pilo.fields.Int(max_value=5).munge(hook(lambda self, v: v)))
    return form_of(f=f, g=pilo.fields.String().format('{a}', a='a'), a=pilo.fields.Int())


def f_group():
    return form_of(g=pilo.fields.Group(('a', pilo.fields.Int(max_value=5).munge(hook(lambda self, v: v)))), a=pilo.fields.Int())


def f_format():
    return form_of(g=pilo.fields.String().format('{b}.{a}.{b}', b='b', a='a'), b=pilo.fields.Int(default=1),
                   a=pilo.fields.Int(max_value=6).munge(hook(lambda self, v: v)))


FORMS = ('format', 'scalars', 'nested', 'list', 'ondemand', 'context', 'dict', 'poly', 'rest', 'group')


def data(label, which, fixed=False):
    """Data of a thread."""
    a = 6 if fixed else int_('a' + label, 0, 9)
    out = {'a': a}
    if which in ('format', 'scalars', 'ondemand', 'context') and (fixed or flag('b' + label)):
        out['b'] = 8 if fixed else int_('vb' + label, 0, 9)
    elif which == 'nested' and (fixed or flag('n' + label)):
        out['n'] = {'x': a}
    elif which == 'list':
        out['l'] = [a, 4]
    elif which in ('dict', 'rest'):
        out['d'] = {'k' + label: a, 'y': 4}
    elif which == 'poly':
        out['p'] = {'type': 'one' if fixed or flag('one' + label) else 'two', 'a': a}
    return out


@harness(cases=[(f,) for f in FORMS], covers=['done'])
def same_form(which):
    """Two threads map different data by the same form."""
    cls = globals()['f_' + which]()
    # the second has data that are an error of most forms
    datas = [data('0', which), data('1', which, fixed=True)]

    def run(d):
        return lambda: result(*mapped(cls, d))
    alone, got = together(*[run(d) for d in datas])
    for one, two in zip(alone, got):
        check(same(one, two), 'another result')
    cover('done')


@harness(cases=[(f,) for f in ('scalars', 'nested', 'list')], covers=['done'])
def same_source(which):
    """Two threads map the same source, and switch when they read it."""
    cls = globals()['f_' + which]()
    d = data('', which)
    src = Switching(d)
    tags = flag('raise')

    def one():
        return result(*mapped(cls, src))

    def two():
        if not tags:
            return result(*mapped(cls, src))
        try:
            return plain(dict(cls().map(src, error='raise')))
        except pilo.fields.FormError as ex:
            return [errors_of(ex.field_errors)]
    alone = [one(), two()]
    try:
        Now.turns = src.turns = Turns(one, two)
        Now.single = True
        got = Now.turns.run()
    finally:
        Now.turns = src.turns = None
        Now.single = False
    for x, y in zip(alone, got):
        check(same(x, y), 'another result')
    cover('done')


@harness(cases=[('json',), ('union',), ('config',), ('mount',)], covers=['done'])
def sources(which):
    """Two threads map the same source of another type."""
    x = int_('x', 0, 9)
    if which == 'json':
        src = pilo.source.JsonSource(json_text({'a': x, 'n': {'x': x}}))
    elif which == 'union':
        src = pilo.UnionSource([{'n': {}}, {'a': x, 'n': {'x': x}}])
    elif which == 'mount':
        src = pilo.source.MountSource(a={'a': x, 'n': {'x': x}})
    else:
        src = pilo.source.ConfigSource('[n]\nx = 4\n[s]\na = 6\n') if False else None
    cls = f_nested()
    if which == 'mount':
        cls = form_of(a=pilo.fields.SubForm(cls))
    if src is None:
        from six.moves import configparser
        p = configparser.ConfigParser()
        p.add_section('n')
        p.set('n', 'x', choice('o', ('4', '6')))
        src = pilo.source.ConfigSource(p)
        cls = form_of(n=pilo.fields.SubForm(form_of(x=pilo.fields.Int(max_value=5).munge(hook(lambda self, v: v)))), b=pilo.fields.Int('n.x', default=3))

    def run():
        return result(*mapped(cls, src))
    alone, got = together(run, run)
    for one, two in zip(alone, got):
        check(same(one, two), 'another result')
    cover('done')


@harness(covers=['done'])
def three():
    """Three threads, of different forms, one of which raises an exception of its own."""
    class Own(Exception):
        pass

    def munge(self, value):
        switch()
        if value > 5:
            raise Own()
        return value
    one = form_of(a=pilo.fields.SubForm(form_of(x=pilo.fields.Int().munge(munge))))
    two = form_of(x=pilo.fields.Int(min_value=3).munge(hook(lambda self, v: v)))
    three_ = form_of(y=pilo.fields.Int(default=lambda: [switch(), 7][1]))
    x = int_('x', 0, 9)

    def first():
        try:
            return result(*mapped(one, {'a': {'x': x}}))
        except Own:
            return 'own'
    alone, got = together(first, lambda: result(*mapped(two, {'x': x})), lambda: result(*mapped(three_, {})))
    for p, q in zip(alone, got):
        check(same(p, q), 'another result')
    cover('done')


@harness(covers=['done'])
def variables():
    """A thread sees the variables it pushed, and no others."""
    seen = []

    def body(mine, other, value):
        def run():
            check(not hasattr(pilo.ctx, other), 'a variable of another thread')
            with pilo.ctx(**{mine: value}):
                switch()
                check(not hasattr(pilo.ctx, other), 'a variable of another thread')
                check(same(getattr(pilo.ctx, mine), value), 'the variable')
                with pilo.ctx(src=pilo.DefaultSource({'a': 1}), shared=value):
                    with pilo.ctx(src=mine):
                        switch()
                        check(text(pilo.ctx.src_path) == mine, 'the path')
                        check(same(pilo.ctx.shared, value), 'a shared variable')
                    switch()
                    check(len(pilo.ctx.src_path) == 0, 'the path')
                check(pilo.ctx.src is None and not hasattr(pilo.ctx, 'shared'), 'after the block')
            check(not hasattr(pilo.ctx, mine), 'after the blocks')
            return True
        return run
    alone, got = together(body('one', 'two', int_('x', 0, 9)), body('two', 'one', int_('y', 0, 9)))
    check(got == [True, True], 'results')
    cover('done')


@harness(covers=['done'])
def flags():
    """Settings of the context are those of the thread."""
    cls = form_of(a=pilo.fields.Int(default=1).tag('t'), b=pilo.fields.Int(), c=pilo.fields.Int(default=lambda: [switch(), 5][1]))
    a = int_('a', 0, 9)
    kw = choice('kw', (dict(ignore_default=True), dict(ignore_missing=True), dict(tags=['t'])))

    def with_():
        with pilo.ctx(**kw):
            switch()
            return result(*mapped(cls, {}))

    def without():
        switch()
        return result(*mapped(cls, {'a': a}))
    alone, got = together(with_, without)
    for one, two in zip(alone, got):
        check(same(one, two), 'another result')
    cover('done')


@harness(covers=['done'])
def inherited():
    """A thread started inside a mapping starts with a context of its own."""
    got = []

    def munge(self, value):
        def run():
            got.append([depth(), pilo.ctx.src, pilo.ctx.src_path, hasattr(pilo.ctx, 'form'), result(*mapped(leaf, {'x': value}))])
        t = threading.Thread(target=run)
        t.start()
        t.join()
        return value
    leaf = form_of(x=pilo.fields.Int(max_value=5))
    x = int_('x', 0, 9)
    form, errors = mapped(form_of(a=pilo.fields.Int().munge(munge), b=pilo.fields.Int('a')), {'a': x})
    check(not errors and same(dict(form), {'a': x, 'b': x}), 'the mapping around')
    check(got[0][:4] == [1, None, None, False], 'the context of a new thread')
    check(same(got[0][4], result(*mapped(leaf, {'x': x}))), 'the mapping in the thread')
    cover('done')


@harness(covers=['done'])
def four():
    """Four threads, which switch once each."""
    Now.single = True
    forms = [form_of(f=pilo.fields.SubForm(form_of(x=pilo.fields.Int(max_value=5).munge(hook(lambda self, v: v))))) for _ in range(3)]
    x = int_('x', 0, 9)

    def run(cls, v):
        return lambda: result(*mapped(cls, {'f': {'x': v}}))
    try:
        alone, got = together(run(forms[0], x), run(forms[1], 3), run(forms[0], 6), run(forms[2], 4))
    finally:
        Now.single = False
    for p, q in zip(alone, got):
        check(same(p, q), 'another result')
    cover('done')
