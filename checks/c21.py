"""C21: spans, tokens, forms and facts are proper values."""
import itertools

from yargy import Parser, rule, not_
from yargy.interpretation import fact, attribute
from yargy.morph import Form, Grams, Gender, Number, Case
from yargy.predicates import eq as eq_
from yargy.record import Record
from yargy.span import Span
from yargy.token import Token, MorphToken, TagToken, MorphTagToken

from . import grammar as G

GRAMS = ['masc', 'sing', 'nomn']


def classes():
    F = fact('F', ['a', attribute('b', 0), attribute('r').repeatable()])
    Same = fact('F', ['a', attribute('b', 0), attribute('r').repeatable()])
    One = fact('G', ['a'])

    class Sub(F):
        pass

    class Pair(Record):
        __attributes__ = ['x', 'y']

        def __init__(self, x, y):
            self.x = x
            self.y = y
            self.hidden = object()

    class Empty(Record):
        pass
    return {'F': F, 'Same': Same, 'One': One, 'Sub': Sub, 'Pair': Pair, 'Empty': Empty}


class Maker(object):
    """Makes values with symbolic attributes. A value is described by its class
    and the list of its attributes."""

    def __init__(self, ctx, name, classes):
        self.ctx = ctx
        self.name = name
        self.classes = classes
        self.count = 0

    def label(self):
        self.count += 1
        return '%s%d' % (self.name, self.count)

    def int(self):
        x = self.ctx.int(self.label(), -1000, 1000)
        return x, x

    def text(self):
        x = self.ctx.string(self.label(), self.ctx.params.get('chars', 1))
        return x, x

    def word(self):
        x = self.ctx.char(self.label(), 'ab')
        return x, x

    def span(self):
        (a, x), (b, y) = self.int(), self.int()
        return Span(a, b), ('Span', [x, y])

    def grams(self):
        x = self.ctx.set(self.label(), GRAMS)
        return Grams(x), ('Grams', [x])

    def form(self):
        (a, x), (b, y) = self.text(), self.grams()
        return Form(a, b, raw=object()), ('Form', [x, y])

    def forms(self, n):
        items = [self.form() for _ in range(n)]
        return [_[0] for _ in items], ('list', [_[1] for _ in items])

    def pair(self):
        (a, x), (b, y) = self.int(), self.word()
        return self.classes['Pair'](a, b), ('Pair', [x, y])

    def value(self, kind, n=1):
        cls = self.classes
        if kind == 'Span':
            return self.span()
        if kind == 'Grams':
            return self.grams()
        if kind == 'Form':
            return self.form()
        if kind == 'Pair':
            return self.pair()
        if kind == 'Empty':
            return cls['Empty'](), ('Empty', [])
        if kind == 'Nested':
            (a, x), (b, y) = self.span(), self.pair()
            return cls['Pair'](a, b), ('Pair', [x, y])
        if kind in ('Token', 'MorphToken', 'TagToken', 'MorphTagToken'):
            (value, v), (span, s), (type, t) = self.text(), self.span(), self.word()
            if kind == 'Token':
                return Token(value, span, type), (kind, [v, s, t])
            tag, g = self.word()
            if kind == 'TagToken':
                return TagToken(value, span, type, tag), (kind, [v, s, t, g])
            forms, f = self.forms(n)
            if kind == 'MorphToken':
                return MorphToken(value, span, type, forms), (kind, [v, s, t, f])
            return MorphTagToken(value, span, type, tag, forms), (kind, [v, s, t, g, f])
        if kind in ('F', 'Same', 'Sub'):
            (a, x), (b, y) = self.text(), self.int()
            items = [self.int() for _ in range(n)]
            return (cls[kind](a=a, b=b, r=[_[0] for _ in items]),
                    (kind, [x, y, ('list', [_[1] for _ in items])]))
        if kind == 'One':
            a, x = self.text()
            return cls['One'](a=a), (kind, [x])
        if kind == 'Deep':
            a, x = self.value('One')
            return cls['One'](a=a), ('One', [x])
        if kind == 'Default':
            return cls['One'](), ('One', [None])
        if kind == 'tuple':
            (a, x), (b, y) = self.int(), self.int()
            return (a, b), (kind, [x, y])
        if kind == 'None':
            return None, (kind, [])
        if kind == 'text':
            return self.text()
        raise ValueError(kind)


def same(ctx, x, y):
    """Equality by the statement."""
    if isinstance(x, tuple) and isinstance(y, tuple):
        kinds = {x[0], y[0]}
        if x[0] != y[0] and kinds != {'Span', 'tuple'}:
            return False
        if len(x[1]) != len(y[1]):
            return False
        return ctx.and_(*[same(ctx, a, b) for a, b in zip(x[1], y[1])])
    if isinstance(x, tuple) or isinstance(y, tuple):
        return False
    return ctx.eq(x, y)


KINDS = ['Span', 'Grams', 'Form', 'Pair', 'Empty', 'Nested', 'Token', 'MorphToken', 'TagToken', 'MorphTagToken',
         'F', 'Same', 'Sub', 'One', 'Deep', 'Default']
OTHER = ['tuple', 'None', 'text']
HASHABLE = ['Span', 'Grams', 'Form', 'Pair', 'Empty', 'Nested', 'Token', 'TagToken', 'One', 'Deep', 'Default']


def equal(ctx, a, b):
    """a == b as it is evaluated in a program."""
    f = type(a).__eq__(a, b)
    if f is NotImplemented:
        f = type(b).__eq__(b, a)
    return a is b if f is NotImplemented else f


def unequal(ctx, a, b):
    f = type(a).__ne__(a, b)
    if f is NotImplemented:
        f = type(b).__ne__(b, a)
    return a is not b if f is NotImplemented else f


def harness(ctx):
    """Two values of any two kinds."""
    p = ctx.params
    cls = classes()
    first = p['kind']
    others = [first] + [k for k in KINDS + OTHER if k != first]
    second = others[ctx.choice('second', len(others))]
    sizes = p['sizes']
    n = ctx.choice('size of first', sizes) if first in SIZED else 1
    m = ctx.choice('size of second', sizes) if second in SIZED else 1
    x, dx = Maker(ctx, 'x', cls).value(first, n)
    y, dy = Maker(ctx, 'y', cls).value(second, m)
    expected = same(ctx, dx, dy)
    what = '%s == %s' % (first, second)
    ctx.check(ctx.eq(equal(ctx, x, y), expected), what)
    ctx.check(ctx.eq(unequal(ctx, x, y), ctx.not_(expected)), '%s != %s' % (first, second))
    ctx.check(ctx.eq(equal(ctx, y, x), expected), 'symmetric ' + what)
    ctx.check(equal(ctx, x, x), 'reflexive ' + first)
    ctx.check(ctx.not_(unequal(ctx, x, x)), 'reflexive != ' + first)
    ctx.cover('same kind' if second == first else 'kinds')
    if hashable(dx):
        h = ctx.hash(x)
        ctx.check(ctx.eq(ctx.hash(x), h), 'hash of %s changes' % first)
        if hashable(dy) and second != 'None':
            ctx.check(ctx.implies(expected, ctx.eq(h, ctx.hash(y))), 'hash of %s and %s' % (first, second))
            ctx.cover('hash')
    else:
        ctx.check(ctx.raises(TypeError, ctx.hash, x) is not None, 'hash of %s with a list' % first)


SIZED = ['MorphToken', 'MorphTagToken', 'F', 'Same', 'Sub']


def hashable(d):
    return not isinstance(d, tuple) or d[0] != 'list' and all(map(hashable, d[1]))


def spans(ctx):
    """Order of spans, unpacking, three of them."""
    items, pairs = [], []
    for name in 'abc':
        x, y = ctx.int(name + '0'), ctx.int(name + '1')
        items.append(Span(x, y))
        pairs.append((x, y))
        start, stop = items[-1]
        ctx.check(ctx.and_(ctx.eq(start, x), ctx.eq(stop, y)), 'unpacking')
        ctx.check(ctx.and_(ctx.eq(items[-1].start, x), ctx.eq(items[-1].stop, y)), 'attributes')

    def less(p, q):
        return ctx.or_(p[0] < q[0], ctx.and_(ctx.eq(p[0], q[0]), p[1] < q[1]))
    for (x, p), (y, q) in itertools.product(zip(items, pairs), repeat=2):
        expected = less(p, q)
        ctx.check(ctx.eq(bool(x < y), expected), 'order of spans')
        ctx.check(ctx.eq(bool(y > x), expected), 'reversed order of spans')
        ctx.check(ctx.eq(equal(ctx, x, q), ctx.and_(ctx.eq(p[0], q[0]), ctx.eq(p[1], q[1]))), 'span == pair')
    result = sorted(items)
    ctx.check(sorted(map(id, result)) == sorted(map(id, items)), 'sorted spans are others')
    for x, y in zip(result, result[1:]):
        ctx.check(ctx.not_(less((y.start, y.stop), (x.start, x.stop))), 'sorted spans')
    ctx.cover('order')


def transitive(ctx):
    """Equal to the same one: equal."""
    cls = classes()
    kind = ctx.params['kind']
    x, y, z = [Maker(ctx, name, cls).value(kind)[0] for name in 'xyz']
    ctx.check(ctx.implies(ctx.and_(equal(ctx, x, y), equal(ctx, y, z)), equal(ctx, x, z)), 'transitive ' + kind)
    ctx.cover('transitive')


def containers(ctx):
    """Values in sets, dictionaries and lists."""
    cls = classes()
    kind = ctx.pick('kind', ['Span', 'Token', 'TagToken', 'Form', 'Pair', 'One'])
    items, pairs = [], []
    for name in 'xyz':
        a, b = ctx.int(name + '0', 0, 1), ctx.int(name + '1', 0, 1)
        a, b = ctx.concrete(a), ctx.concrete(b)
        items.append({
            'Span': lambda: Span(a, b),
            'Token': lambda: Token('w%d' % a, Span(b, 3), 'RU'),
            'TagToken': lambda: TagToken('w', Span(b, 3), 'RU', 'T%d' % a),
            'Form': lambda: Form('w%d' % a, Grams(frozenset(['a', 'b'][:b]))),
            'Pair': lambda: cls['Pair'](a, cls['Pair'](Span(b, b), None)),
            'One': lambda: cls['One'](a=(a, b)),
        }[kind]())
        pairs.append((a, b))
    ctx.check(len(set(items)) == len(set(pairs)), 'set of %s' % kind)
    index = {}
    for x, p in zip(items, pairs):
        index.setdefault(x, []).append(p)
    ctx.check(sorted(map(sorted, index.values())) == sorted(
        [sorted(_ for _ in pairs if _ == p) for p in set(pairs)]), 'dictionary of %s' % kind)
    ctx.check([items.index(x) for x in items] == [pairs.index(p) for p in pairs], 'list of %s' % kind)
    ctx.check(items.count(items[0]) == pairs.count(pairs[0]), 'count of %s' % kind)
    if kind == 'Span':
        ctx.check(all(index[p] for p in pairs), 'spans by pairs')
        ctx.check(len(set(items + pairs)) == len(set(pairs)), 'spans and pairs')
    ctx.cover('containers')


def parsed(ctx):
    """The fact of a match equals the one made by hand."""
    cls = classes()
    F, One = cls['F'], cls['One']
    n = ctx.choice('tokens', 3) + 1
    any_ = not_(eq_('z'))
    tokens = G.sym_tokens(ctx, n, 'abz')
    r = rule(
        rule(any_).interpretation(F.a),
        rule(any_).interpretation(F.r).repeatable().optional()
    ).interpretation(F)
    values = [t.value for t in tokens]
    first = Parser(r, tokenizer=G.IdTokenizer()).match(tokens)
    second = Parser(r, tokenizer=G.IdTokenizer()).match(list(tokens))
    bad = ctx.or_(*[ctx.eq(v, 'z') for v in values])
    ctx.check_equal(bad, first is None, 'match')
    if first is None:
        return
    other = ctx.string('other', n, 'abz')
    expected = F(a=values[0], r=values[1:])
    ctx.check(equal(ctx, first.fact, expected), 'fact of a match')
    ctx.check(equal(ctx, expected, second.fact), 'fact of another match')
    ctx.check(equal(ctx, first.fact, second.fact), 'facts of two matches')
    ctx.check(ctx.eq(equal(ctx, first.fact, F(a=other[0], r=[other[i] for i in range(1, n)])),
                     ctx.and_(*[ctx.eq(v, other[i]) for i, v in enumerate(values)])), 'other fact')
    ctx.check(not equal(ctx, first.fact, One(a=values[0])), 'fact of another kind')
    ctx.check(equal(ctx, first, second), 'two matches')
    ctx.check(equal(ctx, first.tokens[0], Token(values[0], G.token_span(0), 'OTHER')), 'token of a match')
    ctx.check(equal(ctx, first.span, (1, 3 * n)), 'span of a match')
    ctx.cover('parsed')


PLAN = {'quick': {'sizes': 4, 'chars': 3}, 'thorough': {'sizes': 7, 'chars': 6}}


def shards(tier):
    plan = PLAN[tier]
    out = [(k, dict(plan, kind=k)) for k in KINDS]
    out.append(('spans', {'h': 'spans'}))
    for k in ['Span', 'Token', 'Form', 'MorphTagToken', 'F', 'Deep', 'Nested']:
        out.append(('transitive ' + k, dict(plan, h='transitive', kind=k)))
    out.append(('containers', {'h': 'containers'}))
    out.append(('parsed', {'h': 'parsed'}))
    return out


BOUNDS = {
    tier: 'any two values of %d kinds (and pairs, None, strings); attributes: integers -1000..1000, strings of %d arbitrary '
          'code points, sets of %d grammemes, up to %d forms or items of a list; three spans of arbitrary integers; '
          'three values of a kind for transitivity and in sets and dictionaries; facts of matches of 1..3 tokens'
          % (len(KINDS), plan['chars'], len(GRAMS), plan['sizes'] - 1)
    for tier, plan in PLAN.items()
}
COVER = {'all': ['kinds', 'same kind', 'hash', 'order', 'transitive', 'containers', 'parsed']}
ASSUMPTIONS = [
    'symbolic hashes are compared by what they are computed from: equal when that is equal (a difference is replayed on real hashes)',
]
