"""Regular expressions over symbolic strings: a backtracking matcher with the
semantics of the re module (leftmost, first alternative, greedy). Each test of a
character against a set is a decision of the path."""
import re
from functools import lru_cache

try:
    from re import _parser as parser, _constants as C, _compiler as compiler
except ImportError:  # pragma: no cover
    import sre_parse as parser, sre_constants as C, sre_compile as compiler

import z3

from . import values as V
from . import unicode_tables as ut
from .engine import Unsupported

SINGLE = {C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY, C.RANGE, C.CATEGORY}


@lru_cache(None)
def parse(pattern, flags):
    return parser.parse(pattern, flags)


def node_key(node):
    return repr(node)


_sets = {}


def char_set(node, flags):
    """Ranges of code points a single character node matches: asks re itself for
    every code point."""
    key = (repr(node), flags & (re.IGNORECASE | re.UNICODE | re.ASCII | re.DOTALL))
    if key not in _sets:
        state = parser.State()
        state.flags = flags
        sub = parser.SubPattern(state, [node])
        sub.getwidth()
        code = compiler.compile(sub, flags)
        m = code.match
        _sets[key] = ut.to_ranges(p for p in range(ut.MAX + 1) if m(chr(p)))
    return _sets[key]


def prepare(pattern, flags=0):
    if isinstance(pattern, re.Pattern):
        return pattern.pattern, pattern.flags
    if type(pattern) is V.SymStr:
        pattern = str(pattern)
    return pattern, re.compile(pattern, flags).flags


class Groups(object):
    __slots__ = ('spans',)

    def __init__(self, spans=()):
        self.spans = spans  # in the order of closing

    def set(self, group, start, stop):
        return Groups(self.spans + ((group, start, stop),))

    def get(self, group):
        for g, a, b in reversed(self.spans):
            if g == group:
                return a, b


class Matcher(object):
    def __init__(self, pattern, flags, text):
        self.flags = flags
        self.tree = parse(pattern, flags)
        self.chars = V.chars_of(text)
        self.text = text
        self.n = len(self.chars)

    def test(self, i, node):
        """Does the character at i match node (decides on the path)."""
        c = self.chars[i]
        ranges = char_set(node, self.flags)
        if isinstance(c, int):
            return V.in_ranges(c, ranges)
        e = c.test(lambda: ranges, lambda p: V.in_ranges(p, ranges))
        return V.eng().branch(e) if not isinstance(e, bool) else e

    def is_class(self, i, name):
        if not 0 <= i < self.n:
            return False
        c = self.chars[i]
        if name == 'word':
            def f(p):
                return chr(p).isalnum() or p == 95
            if isinstance(c, int):
                return f(c)
            e = c.test(lambda: ut.to_ranges(p for p in range(ut.MAX + 1) if f(p)), f)
        else:
            if isinstance(c, int):
                return c == 10
            e = c.eq(10)
        return V.eng().branch(e) if not isinstance(e, bool) else e

    # m(items, k, i, groups, cont) -> result of cont or None

    def seq(self, items, k, i, g, cont):
        if k == len(items):
            return cont(i, g)
        op, av = items[k]

        def rest(j, h):
            return self.seq(items, k + 1, j, h, cont)

        if op in SINGLE:
            if i < self.n and self.test(i, items[k]):
                return rest(i + 1, g)
            return None
        if op is C.BRANCH:
            for alternative in av[1]:
                r = self.seq(list(alternative), 0, i, g, rest)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            group, add, remove, sub = av
            if add or remove:
                raise Unsupported('inline flags')

            def close(j, h):
                if group is not None:
                    h = h.set(group, i, j)
                return rest(j, h)
            return self.seq(list(sub), 0, i, g, close)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if hi is C.MAXREPEAT:
                hi = self.n + lo + 1
            if op is C.MAX_REPEAT:
                return self.greedy(sub, lo, hi, 0, i, g, rest, None)
            return self.lazy(sub, lo, hi, 0, i, g, rest)
        if op is C.AT:
            if self.at(av, i):
                return rest(i, g)
            return None
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported('look-behind')
                start = i - lo
                found = None
                if start >= 0:
                    found = self.seq(list(sub), 0, start, g,
                                     lambda j, h: (j, h) if j == i else None)
            else:
                found = self.seq(list(sub), 0, i, g, lambda j, h: (j, h))
            if (found is not None) != (op is C.ASSERT):
                return None
            return rest(i, found[1] if op is C.ASSERT else g)
        if op is getattr(C, 'ATOMIC_GROUP', None):
            found = self.seq(list(av), 0, i, g, lambda j, h: (j, h))
            return None if found is None else rest(*found)
        if op is getattr(C, 'POSSESSIVE_REPEAT', None):
            lo, hi, sub = av
            if hi is C.MAXREPEAT:
                hi = self.n + lo + 1
            found = self.greedy(list(sub), lo, hi, 0, i, g, lambda j, h: (j, h), None)
            return None if found is None else rest(*found)
        raise Unsupported('regex %s' % op)

    def greedy(self, sub, lo, hi, count, i, g, rest, last):
        if count < hi and not (count >= lo and last == i):
            r = self.seq(sub, 0, i, g, lambda j, h: (
                self.greedy(sub, lo, hi, count + 1, j, h, rest, i)
            ))
            if r is not None:
                return r
        if count >= lo:
            return rest(i, g)
        return None

    def lazy(self, sub, lo, hi, count, i, g, rest):
        if count >= lo:
            r = rest(i, g)
            if r is not None:
                return r
        if count < hi:
            return self.seq(sub, 0, i, g, lambda j, h: (
                None if j == i and count >= lo
                else self.lazy(sub, lo, hi, count + 1, j, h, rest)
            ))
        return None

    def at(self, av, i):
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if av is C.AT_BEGINNING and self.flags & re.MULTILINE:
                return i == 0 or self.is_class(i - 1, 'eol')
            return i == 0
        if av is C.AT_END_STRING:
            return i == self.n
        if av is C.AT_END:
            if self.flags & re.MULTILINE:
                return i == self.n or self.is_class(i, 'eol')
            return i == self.n or (i == self.n - 1 and self.is_class(i, 'eol'))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            b = self.is_class(i - 1, 'word') != self.is_class(i, 'word')
            return b == (av is C.AT_BOUNDARY)
        raise Unsupported('regex at %s' % av)

    def match_at(self, i, full=False, nonempty=False):
        def done(j, g):
            if full and j != self.n or nonempty and j == i:
                return None
            return j, g
        return self.seq(list(self.tree), 0, i, Groups(), done)


class SymMatch(object):
    def __init__(self, matcher, start, stop, groups, pattern):
        self.matcher = matcher
        self.string = matcher.text
        self.re = pattern
        self._span = (start, stop)
        self._groups = groups
        self.pos = 0
        self.endpos = matcher.n
        names = matcher.tree.state.groupdict
        self._names = names
        self.lastindex = groups.spans[-1][0] if groups.spans else None

    @property
    def lastgroup(self):
        for name, index in self._names.items():
            if index == self.lastindex:
                return name

    def _index(self, group):
        if isinstance(group, str):
            if group not in self._names:
                raise IndexError('no such group')
            return self._names[group]
        if group > self.matcher.tree.state.groups - 1:
            raise IndexError('no such group')
        return group

    def span(self, group=0):
        group = self._index(group)
        if group == 0:
            return self._span
        return self._groups.get(group) or (-1, -1)

    def start(self, group=0):
        return self.span(group)[0]

    def end(self, group=0):
        return self.span(group)[1]

    def group(self, *groups):
        if not groups:
            groups = (0,)
        out = []
        for g in groups:
            a, b = self.span(g)
            out.append(None if a < 0 else V.mk_str(self.matcher.chars[a:b]))
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(
            default if self.span(i)[0] < 0 else self.group(i)
            for i in range(1, self.matcher.tree.state.groups)
        )

    def groupdict(self, default=None):
        return {
            n: default if self.span(i)[0] < 0 else self.group(i)
            for n, i in self._names.items()
        }


def symbolic(text):
    return type(text) is V.SymStr


def _run(pattern, text, flags):
    p, f = prepare(pattern, flags)
    return Matcher(p, f, text)


def bounds(m, pos, endpos):
    if endpos is not None and endpos < m.n:
        raise Unsupported('endpos')
    return min(max(pos, 0), m.n)


def finditer(pattern, text, flags=0, pos=0, endpos=None):
    if not symbolic(text):
        return re.finditer(pattern, text, flags)
    return _finditer(pattern, text, flags, pos, endpos)


def _finditer(pattern, text, flags, pos=0, endpos=None):
    m = _run(pattern, text, flags)
    i = bounds(m, pos, endpos)
    must_advance = False
    while i <= m.n:
        for start in range(i, m.n + 1):
            r = m.match_at(start, nonempty=must_advance and start == i)
            if r is not None:
                break
        else:
            return
        stop, groups = r
        yield SymMatch(m, start, stop, groups, pattern)
        must_advance = stop == start
        i = stop


def match(pattern, text, flags=0, pos=0, endpos=None):
    if not symbolic(text):
        return re.match(pattern, text, flags)
    m = _run(pattern, text, flags)
    start = bounds(m, pos, endpos)
    r = m.match_at(start)
    return r and SymMatch(m, start, r[0], r[1], pattern)


def fullmatch(pattern, text, flags=0, pos=0, endpos=None):
    if not symbolic(text):
        return re.fullmatch(pattern, text, flags)
    m = _run(pattern, text, flags)
    start = bounds(m, pos, endpos)
    r = m.match_at(start, full=True)
    return r and SymMatch(m, start, r[0], r[1], pattern)


def search(pattern, text, flags=0, pos=0, endpos=None):
    for m in finditer(pattern, text, flags, pos, endpos):
        return m


def findall(pattern, text, flags=0, pos=0, endpos=None):
    if not symbolic(text):
        return re.findall(pattern, text, flags)
    out = []
    for m in finditer(pattern, text, flags, pos, endpos):
        g = m.groups('')
        out.append(m.group() if not g else g[0] if len(g) == 1 else g)
    return out


class Scanner(object):
    """Pattern.scanner: every call goes on after the match before."""

    def __init__(self, pattern, text, pos=0):
        self.pattern = pattern
        self.text = text
        self.found = _finditer(pattern, text, 0, pos)
        self.pos = pos

    def search(self):
        return next(self.found, None)

    def match(self):
        if self.pos is None:
            return
        m = _run(self.pattern, self.text, 0)
        if self.pos > m.n:
            return
        r = m.match_at(self.pos)
        if r is None:
            self.pos = None
            return
        start, self.pos = self.pos, r[0]
        if start == r[0]:
            raise Unsupported('scanner over empty matches')
        return SymMatch(m, start, r[0], r[1], self.pattern)


def compiled(method):
    """Method of compiled pattern: pos where the function has flags."""
    def call(pattern, text, pos=0, endpos=None):
        return method(pattern, text, 0, pos, endpos)
    return call


def sub(pattern, repl, text, count=0):
    if type(repl) is not str or '\\' in repl:
        raise Unsupported('Pattern.sub')
    out = []
    last = 0
    for number, m in enumerate(finditer(pattern, text)):
        if count and number >= count:
            break
        start, stop = m.span()
        out.extend(V.chars_of(text)[last:start])
        out.extend(V.chars_of(repl))
        last = stop
    out.extend(V.chars_of(text)[last:])
    return V.mk_str(tuple(out))


PATTERN_METHODS = {
    'finditer': compiled(finditer), 'match': compiled(match),
    'fullmatch': compiled(fullmatch), 'search': compiled(search),
    'findall': compiled(findall), 'scanner': Scanner, 'sub': sub,
}
