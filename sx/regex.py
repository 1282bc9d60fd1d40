"""Python regular expressions on symbolic strings: a backtracking matcher over
the parse tree of the pattern, which splits the path where the outcome depends
on a character."""
try:
    import sre_parse
    import sre_constants as C
except ImportError:     # pragma: no cover
    from re import _parser as sre_parse, _constants as C

from . import engine
from . import terms as T

_cache = {}


class Unsupported(Exception):
    pass


def run(pattern, how, s):
    key = (pattern.pattern, pattern.flags)
    tree = _cache.get(key)
    if tree is None:
        tree = _cache[key] = sre_parse.parse(pattern.pattern, pattern.flags & ~32)
    try:
        cs = s.chars()
        starts = [0] if how != 'search' else range(len(cs) + 1)
        for st in starts:
            m = Matcher(cs, pattern.flags)
            m.full = how == 'fullmatch'
            end = m.seq(list(tree), 0, st, {}, m.done)
            if end is not None:
                return SymMatch(pattern, s, cs, st, end[0], end[1])
        return None
    except Unsupported as ex:
        engine.E.notes['concretised: regex (%s)' % ex] = True
        engine.E.stats['concretised'] += 1
        return getattr(pattern, how)(s.native())


def word(c):
    return T.or_(T.and_(T.le(48, c), T.le(c, 57)), T.and_(T.le(65, c), T.le(c, 90)),
                 T.and_(T.le(97, c), T.le(c, 122)), T.eq(c, 95))


def digit(c):
    return T.and_(T.le(48, c), T.le(c, 57))


def space(c):
    return T.or_(*[T.eq(c, w) for w in (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0)])


CATEGORY = {
    C.CATEGORY_WORD: word, C.CATEGORY_DIGIT: digit, C.CATEGORY_SPACE: space,
    C.CATEGORY_NOT_WORD: lambda c: T.not_(word(c)),
    C.CATEGORY_NOT_DIGIT: lambda c: T.not_(digit(c)),
    C.CATEGORY_NOT_SPACE: lambda c: T.not_(space(c)),
}


class Matcher(object):

    def __init__(self, cs, flags):
        self.cs = cs
        self.icase = bool(flags & 2)
        self.multiline = bool(flags & 8)
        self.dotall = bool(flags & 16)
        self.full = False

    def done(self, i, groups):
        if self.full and i != len(self.cs):
            return None
        return i, groups

    def lit(self, c, code):
        if self.icase and chr(code).isalpha():
            return T.or_(T.eq(c, ord(chr(code).lower())), T.eq(c, ord(chr(code).upper())))
        return T.eq(c, code)

    def one(self, op, arg, c):
        if op is C.LITERAL:
            return self.lit(c, arg)
        if op is C.NOT_LITERAL:
            return T.not_(self.lit(c, arg))
        if op is C.ANY:
            return True if self.dotall else T.not_(T.eq(c, 10))
        if op is C.IN:
            negate, alts = False, []
            for o, a in arg:
                if o is C.NEGATE:
                    negate = True
                elif o is C.LITERAL:
                    alts.append(self.lit(c, a))
                elif o is C.RANGE:
                    lo, hi = a
                    alts.append(T.and_(T.le(lo, c), T.le(c, hi)))
                    if self.icase:
                        up = [x for x in range(lo, hi + 1) if chr(x).isalpha()]
                        alts.extend(self.lit(c, x) for x in up)
                elif o is C.CATEGORY:
                    alts.append(CATEGORY[a](c))
                else:
                    raise Unsupported(str(o))
            t = T.or_(*alts)
            return T.not_(t) if negate else t
        return None

    def seq(self, items, k, i, groups, cont):
        """Match items[k:] at i, then cont; the first success in Python's
        order of preference, or None."""
        if k == len(items):
            return cont(i, groups)
        op, arg = items[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= len(self.cs):
                return None
            if not engine.E.branch(self.one(op, arg, self.cs[i])):
                return None
            return self.seq(items, k + 1, i + 1, groups, cont)
        if op is C.AT:
            if not self.at(arg, i):
                return None
            return self.seq(items, k + 1, i, groups, cont)
        if op is C.SUBPATTERN:
            gid, addf, delf, sub = arg
            if addf or delf:
                raise Unsupported('flags')

            def after(j, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                return self.seq(items, k + 1, j, g, cont)
            return self.seq(list(sub), 0, i, groups, after)
        if op is C.BRANCH:
            for alt in arg[1]:
                r = self.seq(list(alt), 0, i, groups, lambda j, g: self.seq(items, k + 1, j, g, cont))
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = arg
            sub = list(sub)
            rest = lambda j, g: self.seq(items, k + 1, j, g, cont)  # noqa: E731

            def rep(n, j, g):
                def more():
                    if hi is not C.MAXREPEAT and n >= hi:
                        return None

                    def again(j2, g2):
                        if j2 == j and n >= lo:
                            return None
                        return rep(n + 1, j2, g2)
                    return self.seq(sub, 0, j, g, again)
                if n < lo:
                    return more()
                if op is C.MAX_REPEAT:
                    r = more()
                    return r if r is not None else rest(j, g)
                r = rest(j, g)
                return r if r is not None else more()
            return rep(0, i, groups)
        if op is C.GROUPREF:
            if arg not in groups:
                return None
            a, b = groups[arg]
            for x in range(a, b):
                if i >= len(self.cs) or not engine.E.branch(T.eq(self.cs[x], self.cs[i])):
                    return None
                i += 1
            return self.seq(items, k + 1, i, groups, cont)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = arg
            if direction < 0:
                raise Unsupported('lookbehind')
            r = self.seq(list(sub), 0, i, groups, lambda j, g: (j, g))
            if (r is not None) != (op is C.ASSERT):
                return None
            return self.seq(items, k + 1, i, r[1] if r else groups, cont)
        raise Unsupported(str(op))

    def at(self, what, i):
        n = len(self.cs)
        if what in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if self.multiline and what is C.AT_BEGINNING and i > 0:
                return engine.E.branch(T.eq(self.cs[i - 1], 10))
            return i == 0
        if what is C.AT_END_STRING:
            return i == n
        if what is C.AT_END:
            if i == n:
                return True
            if i == n - 1 or self.multiline:
                return engine.E.branch(T.eq(self.cs[i], 10))
            return False
        if what in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = engine.E.branch(word(self.cs[i - 1])) if i > 0 else False
            b = engine.E.branch(word(self.cs[i])) if i < n else False
            return (a != b) == (what is C.AT_BOUNDARY)
        raise Unsupported(str(what))


class SymMatch(object):

    def __init__(self, pattern, s, cs, start, end, groups):
        self.re, self.string, self._cs = pattern, s, cs
        self._spans = dict(groups)
        self._spans[0] = (start, end)
        self.pos, self.endpos = 0, len(cs)
        self.lastindex = max(groups) if groups else None

    def _gid(self, g):
        if isinstance(g, int):
            if g < 0 or g > self.re.groups:
                raise IndexError('no such group')
            return g
        if g not in self.re.groupindex:
            raise IndexError('no such group')
        return self.re.groupindex[g]

    def _text(self, gid, default=None):
        from .values import SymStr
        if gid not in self._spans:
            return default
        a, b = self._spans[gid]
        return SymStr.of_chars(self._cs[a:b])

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = tuple(self._text(self._gid(g)) for g in gs)
        return out[0] if len(out) == 1 else out

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(self._text(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._text(i, default) for n, i in self.re.groupindex.items()}

    def span(self, g=0):
        return self._spans.get(self._gid(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]
