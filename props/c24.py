"""C24: unions of sources."""
import pilo
from .common import *

BOUNDS = {'sources': 'two (three in one harness), native and JSON, nested three deep', 'rules': 'first, last and combine for '
          'mappings and sequences, merge depth none, 1, 2', 'values': 'absent, null in all, integers -9..9, texts of 0..1 characters, '
          'mappings, sequences of up to two items',
          'sizes': '4 and 6 sources, any two with values; sequences and mappings of 40 items, one any'}
OUTSIDE = ['null in one source where another has a value', 'dotted keys', 'more sources']

RULES = ('first', 'last', 'combine')
BAD = 'bad'


class Merge(object):
    """The plain data a union stands for, as far as a schema looks into it."""

    def __init__(self, mapping, sequence, depth):
        self.rules = {'form': mapping, 'dict': mapping, 'list': sequence}
        self.depth = depth

    def chosen(self, kind, values, depth):
        rule = self.rules[kind]
        if self.depth is not None and self.depth <= depth:
            rule = 'first'
        values = [v for v in values if v is not None]
        want = (dict,) if kind != 'list' else (list,)
        if rule == 'first' and kind != 'list':
            values = values[:1]
        if any(not isinstance(v, want) for v in values):
            return None
        if rule == 'first':
            return values[:1]
        if rule == 'last':
            return values[-1:]
        return values

    def at(self, n, values, depth):
        if not values:
            return ABSENT
        if all(v is None for v in values):
            return None
        if n.kind in ('form', 'dict'):
            ms = self.chosen(n.kind, values, depth)
            if ms is None:
                return BAD
            return self.mapping(n, ms, depth)
        if n.kind == 'list':
            ss = self.chosen(n.kind, values, depth)
            if ss is None:
                return BAD
            return [self.at(n.item, [x], depth + 1) for s in ss for x in s]
        return values[0]

    def mapping(self, n, ms, depth):
        out = {}
        if n.kind == 'form':
            for name, f in n.fields:
                v = self.at(f, [m[name] for m in ms if name in m], depth + 1)
                if v is not ABSENT:
                    out[name] = v
        else:
            for m in ms:
                for k in m:
                    out.setdefault(k, self.at(n.item, [x[k] for x in ms if k in x], depth + 1))
        return out


def judge(n, sources, merged, **kw):
    """The union maps as the merged data do."""
    cls = form_type(n)
    src = pilo.UnionSource(sources, **kw)
    form = cls()
    errors = list(form.map(src))
    ref = Ref()
    want = ref.form(n, merged)
    observe(sorted(kind_of(e) for e in errors))
    observe(dict(form))
    agree(form, errors, want, ref.errors, ordered=False)
    return form, errors, want


@harness(cases=[(m,) for m in RULES], covers=['error', 'clean'])
def scalars(rule):
    """Scalars come from the first source that has them, at the top and further in."""
    depth = choice('depth', (None, 0, 1))
    leaf = [('x', Node('int', default=choice('dx', (UNSET, 8)))), ('y', Node('str', max_length=1))]
    n = form_node(('x', Node('int')), ('f', Node('form', fields=leaf)))
    datas = []
    for i in '12':
        d = data_of(x=value('x' + i, ('absent', 'int'), lo=-9, hi=9))
        f = choice('f' + i, ('absent', 'some', 'bad'))
        if f == 'some':
            d['f'] = data_of(x=value('fx' + i, ('absent', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9), y=value('fy' + i, ('absent', 'str'), cap=2))
        elif f == 'bad':
            d['f'] = int_('f' + i, 0, 5)
        datas.append(d)
    m = Merge(rule, 'first', depth)
    form, errors, want = judge(n, [pilo.DefaultSource(datas[0]), datas[1]], m.mapping(n, datas, 0), merge=rule, merge_depth=depth)
    cover('error' if errors else 'clean')


@harness(cases=[(m, s) for m in RULES for s in RULES], covers=['error', 'clean'])
def sequences(mapping, sequence):
    """Sequences at the top and in a mapping."""
    depth = choice('depth', (None, 0, 1, 2))
    n = form_node(('l', Node('list', item=Node('int', max_value=5))),
                  ('f', Node('form', default=None, fields=[('l', Node('list', item=Node('int'), default=UNSET))])))
    datas = []
    for i in '12':
        d = {}
        k = pick('n' + i, 3)
        if flag('l' + i):
            d['l'] = [int_('l%s%s' % (i, j), -9, 9) for j in range(k)]
        elif i == '1' and flag('bad'):
            d['l'] = {'a': 1}
        if flag('f' + i):
            d['f'] = dict(l=[int_('f%s' % i, -9, 9)] * k)
        datas.append(d)
    m = Merge(mapping, sequence, depth)
    form, errors, want = judge(n, datas, m.mapping(n, datas, 0), mapping_merge=mapping, sequence_merge=sequence, merge_depth=depth)
    cover('error' if errors else 'clean')


@harness(cases=[(m,) for m in RULES], covers=['error', 'clean'])
def deep(rule):
    """Mappings three deep, with a merge depth; forms in sequences."""
    depth = choice('depth', (None, 0, 1, 2, 3))
    n3 = Node('form', default=ABSENT, fields=[('x', Node('int', default=0)), ('y', Node('int', default=0))])
    n2 = Node('form', default=ABSENT, fields=[('g', n3), ('z', Node('int', default=0))])
    n = form_node(('f', n2), ('l', Node('list', item=Node('form', fields=[('x', Node('int'))]), default=[])))
    datas = []
    for i in '12':
        d = {}
        if flag('f' + i):
            d['f'] = data_of(z=value('z' + i, ('absent', 'int')))
            if flag('g' + i):
                d['f']['g'] = data_of(x=value('x' + i, ('absent', 'int')), y=value('y' + i, ('absent', 'str'), cap=1, alphabet='1a'))
        if depth is None and flag('l' + i):
            d['l'] = [data_of(x=value('l' + i, ('absent', 'int')))]
        datas.append(d)
    m = Merge(rule, 'combine', depth)
    form, errors, want = judge(n, datas, m.mapping(n, datas, 0), mapping_merge=rule, sequence_merge='combine', merge_depth=depth)
    cover('error' if errors else 'clean')


@harness(cases=[(m,) for m in RULES], covers=['error', 'clean'])
def dicts(rule):
    """Dict fields: the keys of the chosen mappings."""
    n = form_node(('d', Node('dict', key=Node('str', max_length=2), item=Node('int'), max_keys=2, default={})),)
    datas = []
    for i in '12':
        d = data_of(a=value('a' + i, ('absent', 'int')), b=value('b' + i, ('absent', 'int', 'str'), cap=1, alphabet='1a'), ccc=value('c' + i, ('absent', 'int')))
        datas.append(dict(d=d) if flag('d' + i) else {})
    m = Merge(rule, 'first', None)
    form, errors, want = judge(n, datas, m.mapping(n, datas, 0), merge=rule)
    cover('error' if errors else 'clean')


@harness(cases=[(m, s) for m in RULES for s in RULES], covers=['three'])
def three(mapping, sequence):
    """Three sources, the second of JSON text."""
    n = form_node(('x', Node('int', default=0)), ('f', Node('form', default=ABSENT, fields=[('x', Node('int', default=0)), ('l', Node('list', item=Node('int'), default=[]))])))
    datas = []
    for i in '123':
        d = data_of(x=value('x' + i, ('absent', 'int'), lo=0, hi=9))
        if flag('f' + i):
            d['f'] = data_of(x=value('fx' + i, ('absent', 'int'), lo=0, hi=9))
            if i != '2' or flag('l'):
                d['f']['l'] = [int_('l' + i, 0, 9)]
        datas.append(d)
    m = Merge(mapping, sequence, None)
    sources = [pilo.DefaultSource(datas[0]), pilo.source.JsonSource(json_text(datas[1])), datas[2]]
    judge(n, sources, m.mapping(n, datas, 0), mapping_merge=mapping, sequence_merge=sequence)
    check(isinstance(sources[2], dict) and not isinstance(sources[2], pilo.Source), 'the list of sources was changed')
    cover('three')


@harness(covers=['null', 'some'])
def nulls():
    """Null in every source that has the key is null."""
    n = form_node(('x', Node('int', nullable=choice('nullable', (True, False)))), ('f', Node('form', fields=[('x', Node('int'))])),
                  ('l', Node('list', item=Node('any'))))
    rule = choice('rule', RULES)
    datas = []
    which = dict((k, flag('null ' + k)) for k in 'xfl')
    for i in '12':
        d = {}
        for k in 'xfl':
            if flag(k + i):
                d[k] = None if which[k] else {'x': int_('x' + i, 0, 9), 'f': {'x': 3}, 'l': [None, 2]}[k]
        datas.append(d)
    m = Merge(rule, rule, None)
    form, errors, want = judge(n, datas, m.mapping(n, datas, 0), merge=rule)
    cover('null' if any(v is None for v in want.values()) else 'some')


@harness(covers=['same'])
def alone():
    """The union of one source, or of a source with an empty one, is that source."""
    d = data_of(x=value('x', ('absent', 'none', 'int', 'str'), cap=1, alphabet='1a'), f=value('f', ('absent', 'none', 'int', 'dict')), l=value('l', ('absent', 'none', 'list')))
    n = form_node(('x', Node('int')), ('f', Node('form', default=1, fields=[('k', Node('int', min_value=0))])), ('l', Node('list', item=Node('int', max_value=9), default=2)))
    datas = choice('srcs', ([d], [d, {}], [{}, d], [{}, d, {}]))
    judge(n, datas, d, merge=choice('rule', RULES))
    cover('same')


@harness(covers=['type', 'rule'])
def refused():
    """What is no source, and rules that do not exist."""
    x = choice('x', (3, 'a', None, [1]))
    try:
        pilo.UnionSource([{}, x])
        fail('not a source')
    except TypeError:
        cover('type')
    try:
        form_of(f=pilo.fields.SubForm(form_of(x=pilo.fields.Int(default=1)))).map
        form_of(f=pilo.fields.SubForm(form_of(x=pilo.fields.Int(default=1))))().map(pilo.UnionSource([{'f': {}}, {'f': {}}], merge='other'), error='raise')
        fail('no such rule')
    except ValueError:
        cover('rule')


@harness(covers=['given', 'default'])
def rules():
    """One rule for both; one for mappings or sequences alone leaves the other as it is."""
    kw = {}
    for k in ('merge', 'mapping_merge', 'sequence_merge'):
        r = choice(k, (None,) + RULES)
        if r is not None:
            kw[k] = r
    both = kw.get('merge', 'first')
    m = Merge(kw.get('mapping_merge', both), kw.get('sequence_merge', both), None)
    cover('given' if kw else 'default')
    n = form_node(('l', Node('list', item=Node('int'))), ('f', Node('form', fields=[('x', Node('int', default=0)), ('l', Node('list', item=Node('int'), default=[]))])))
    datas = [{'l': [int_('l1', 0, 9)], 'f': data_of(x=value('x1', ('absent', 'int')), l=[1])}, {'l': [int_('l2', 0, 9), 2], 'f': {'x': int_('x2', 0, 9), 'l': [3]}}]
    judge(n, datas, m.mapping(n, datas, 0), **kw)


@harness(cases=[(m, n) for m in RULES for n in (4, 6)], covers=['error', 'clean'])
def many(rule, n):
    """Many sources, any two of which have a value."""
    depth = choice('depth', (None, 0, 1, 2))
    node = form_node(('x', Node('int', max_value=5)), ('l', Node('list', item=Node('int'), default=[])),
                     ('f', Node('form', default=ABSENT, fields=[('y', Node('int', default=8)), ('z', Node('int', default=9))])))
    one, two = choice('one', (0, n // 2)), choice('two', (n // 2 + 1, n - 1))
    datas = []
    for i in range(n):
        d = {'other': i}
        if i in (one, two):
            d.update(data_of(x=value('x%d' % i, ('absent', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)))
            d['f'] = data_of(y=value('y%d' % i, ('absent', 'int'), lo=-9, hi=9))
        if i % 2:
            d['l'] = [i, i + 1]
        if i == n - 1:
            d['f'] = dict(d.get('f', {}), z=4)
        datas.append(d)
    m = Merge(rule, rule, depth)
    form, errors, want = judge(node, datas, m.mapping(node, datas, 0), mapping_merge=rule, sequence_merge=rule, merge_depth=depth)
    cover('error' if errors else 'clean')


@harness(cases=[(m, n) for m in RULES for n in (15, 40)], covers=['error', 'clean'])
def long(rule, n):
    """Long sequences of forms, and mappings with many keys."""
    at = choice('at', (0, n // 2, n - 1))
    x = value('x', ('absent', 'int', 'str'), cap=1, alphabet='1a', lo=-9, hi=9)
    node = form_node(('l', Node('list', item=Node('form', fields=[('x', Node('int'))]))), ('d', Node('dict', key=Node('str'), item=Node('int'))))
    one = dict(l=[data_of(x=x) if i == at else {'x': i} for i in range(n)], d=dict(('k%d' % i, i) for i in range(n)))
    two = dict(l=[{'x': -i} for i in range(n // 2)], d=dict(('k%d' % i, -i) for i in range(n // 2, n + 3)))
    if x is not ABSENT:
        two['d']['k%d' % n] = x
    datas = [one, two] if flag('order') else [two, one]
    m = Merge(rule, rule, None)
    form, errors, want = judge(node, datas, m.mapping(node, datas, 0), mapping_merge=rule, sequence_merge=rule)
    cover('error' if errors else 'clean')
