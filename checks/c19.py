"""C19: main() decides which word of a phrase takes part in agreement."""
import itertools
from functools import lru_cache

from yargy import Parser, rule, or_, forward
from yargy.morph import Form, Grams
from yargy.pipelines import pipeline
from yargy.predicates import eq, gram
from yargy.relations import main
from yargy.token import MorphToken

from . import grammar as G
from .c13 import Table
from .grammar import A, B, EMPTY, seq, alt, opt, rep, named, ref, interp, rel

R1, R2 = 'r1', 'r2'
Z = G.lit('z')


def pipe(*lines):
    return ('pipe', 'pipeline', list(lines), pipeline)


ITEMS = {
    'a': lambda: A,
    'b': lambda: B,
    'a?': lambda: opt(A),
    'b?r': lambda: opt(B, True),
    'a+': lambda: rep(A),
    'b12': lambda: rep(B, 1, 2),
    'a*': lambda: opt(seq(rep(A))),
    'a|bb': lambda: alt(A, seq(B, B)),
    'n:a?': lambda: named(opt(A), 'n'),
    'e|b': lambda: alt(EMPTY, B),
    '^': lambda: seq(opt(A), B, main=1),
    'pipe': lambda: pipe('a b', 'b'),
}
QUICK = ['a', 'b', 'a?', 'b12', 'a|bb', 'n:a?', '^']


@lru_cache(None)
def flat(level):
    """Items in a row, each of them or none marked."""
    out = []
    items = list(ITEMS)
    for count in (2, 3, 4) if level else (2, 3):
        of = items if count == 2 else QUICK if count == 3 or not level else ['a', 'b', 'a?', 'n:a?', '^']
        for x in itertools.product(of, repeat=count):
            for marked in [None] + list(range(count)):
                out.append((x, marked))
    return out if level else out[:4 * 144 // 2] + out[4 * 144 // 2::5]


def make_flat(spec):
    items, marked = spec
    return seq(*[ITEMS[_]() for _ in items], main=marked), {}


INNER = {
    'a b': lambda: (A, B),
    'a? b': lambda: (opt(A), B),
    'a b?': lambda: (A, opt(B)),
    'a? b?': lambda: (opt(A), opt(B)),
    'a+ b': lambda: (rep(A), B),
    'a b+': lambda: (A, rep(B)),
    'a? b a?': lambda: (opt(A), B, opt(A)),
}
WRAPS = {
    '.': lambda x: x,
    's': lambda x: seq(x),
    'n': lambda x: named(x, 'n'),
    '?': lambda x: opt(x),
    '?r': lambda x: opt(x, True),
    '+': lambda x: rep(x),
    '2': lambda x: rep(x, max=2),
    '22r': lambda x: rep(x, 2, 2, True),
    '|': lambda x: alt(x, B),
    '|e': lambda x: alt(EMPTY, x),
    'r': lambda x: rel(x, R2),
    'i': lambda x: interp(x, G.Rec('i')),
    'ns': lambda x: named(seq(x), 'n'),
    's?': lambda x: seq(opt(x)),
    'n+': lambda x: named(rep(x), 'n'),
    '+n': lambda x: rep(named(x, 'n')),
    'rr': lambda x: rel(rel(x, R2), R1),
    's^': lambda x: seq(B, x, main=1),
}


def usable(x):
    return not G.degenerate((x, {}))


@lru_cache(None)
def nested(level):
    """A phrase with a mark, wrapped, in a phrase with a mark."""
    out = []
    for name, wrap, shape in itertools.product(INNER, WRAPS, range(6 if level else 4)):
        for inner in [None, 0, 1, 2][:len(INNER[name]()) + 1]:
            for outer in (None, 0, 1, 2):
                spec = (name, inner, wrap, shape, outer)
                if usable(make_nested(spec)[0]):
                    out.append(spec)
    return out if level else out[::4]


def make_nested(spec):
    name, inner, wrap, shape, outer = spec
    items = INNER[name]()
    x = WRAPS[wrap](seq(*items, main=inner))
    y = [opt(A), B, x, rel(opt(A), R2), seq(opt(A), x, main=1), opt(seq(A, B, main=1))][shape]
    z = [A, opt(A), opt(rel(x, R2)), x, B, x][shape]
    row = [(x, y), (y, x), (y, x, z), (z, y, x), (y, z, x), (x, z, y)][shape]
    if outer is not None and outer >= len(row):
        outer = 0
    return seq(*row, main=outer), {}


def listed():
    N = ref('N')
    return [
        (alt(seq(B, N, main=1), A), {}, 'N'),
        (alt(seq(opt(B), N, main=1), A), {}, 'N'),
        (alt(seq(N, B, main=0), A), {}, 'N'),
        (alt(seq(N, B, main=1), A), {}, 'N'),
        (alt(seq(N, opt(B), main=1), seq(A, B, main=1)), {}, 'N'),
        (alt(seq(B, rel(N, R2), main=1), seq(A, opt(A), main=1)), {}, 'N'),
        (alt(A, seq(N, N, main=1)), {}, 'N'),
        (alt(seq(opt(A), B, opt(N), main=2), A), {}, 'N'),
    ]


RECURSIVE_TOPS = 6


@lru_cache(None)
def recursive(level):
    return list(itertools.product(range(len(listed())), range(RECURSIVE_TOPS)))


def make_recursive(spec):
    k, top = spec
    body, _, name = listed()[k]
    N = ref(name)
    x = [lambda: N, lambda: seq(A, N, main=1), lambda: seq(opt(B), N), lambda: named(seq(N, opt(B), main=0), 'n'),
         lambda: seq(rel(N, R2), rel(opt(N), R2), main=1), lambda: alt(seq(B, N, main=1), N)][top]()
    return x, {name: body}


@lru_cache(None)
def shared(level):
    """One rule object in several places, marked in some of them."""
    return list(itertools.product(['a b', 'a? b', 'a b?', 'a b+'], [None, 0, 1], list(WRAPS)[:14 if level else 7],
                                  range(4), [None, 0, 1, 2]))[::1 if level else 3]


def make_shared(spec):
    name, inner, wrap, shape, outer = spec
    x = seq(*INNER[name](), main=inner)
    y = WRAPS[wrap](x)
    row = [(x, y), (y, x), (opt(y), A, x), (x, opt(A), y)][shape]
    if outer is not None and outer >= len(row):
        outer = None
    return seq(*row, main=outer), {}


FAMILIES = {'flat': (flat, make_flat), 'nested': (nested, make_nested),
            'recursive': (recursive, make_recursive), 'shared': (shared, make_shared)}


def harness(ctx):
    """The word the phrase is related by, for its leftmost derivation."""
    p = ctx.params
    enumerate_, make = FAMILIES[p['family']]
    phrase, defs = make(ctx.pick('phrase', enumerate_(p['level'])[p['from']:p['to']]))
    # phrase and a single word at the end
    last = p['last']
    if last == 'first':
        g = seq(rel(Z, R1), rel(phrase, R1)), defs
    elif last == 'main':
        # relation of the whole
        g = rel(seq(Z, rel(seq(phrase), R1), main=1), R1), defs
        g = seq(g[0], rel(Z, R1)), defs
    else:
        g = seq(rel(phrase, R1), rel(Z, R1)), defs
    if G.degenerate(g):
        return
    relations = {k: G.RecRelation(k) for k in (R1, R2)}
    g = G.bind(g, relations)
    text = G.show_grammar(g)
    n = ctx.choice('tokens', p['max'] + 1)
    values = [ctx.char('t%d' % i, 'ab') for i in range(n)]
    values = ['z'] + values if last == 'first' else values + ['z'] if last == 'last' else ['z'] + values + ['z']
    tokens = [MorphToken(v, G.token_span(i), 'RU', [Form(str(i), Grams({'NOUN'}))]) for i, v in enumerate(values)]

    def test(node, i):
        return ctx.concrete(ctx.eq(tokens[i].value, node[2] if node[0] == 'word' else node[1]))
    match = Parser(G.build(g), tokenizer=G.IdTokenizer()).match(tokens)
    d = G.Leftmost(g, test, len(tokens))(0, len(tokens))
    ctx.observe('grammar', text)
    ctx.check((match is None) == (d is None), 'match of %s' % text)
    if match is None:
        ctx.cover('rejected')
        return
    for k, relation in relations.items():
        pairs = {frozenset(map(int, _)) for _ in relation.pairs}
        expected = G.expected_pairs(d, relation)
        ctx.observe(k, sorted(map(sorted, pairs)))
        ctx.check(pairs == expected, 'words related in %s: %s, expected %s' % (
            text, sorted(map(sorted, pairs)), sorted(map(sorted, expected))))
        if pairs:
            ctx.cover('related')
    # words that are main though not the leftmost ones
    if any(x.node[0] == 'rel' and x.i < x.j and G.main_of(x) != x.i for x in d.walk()):
        ctx.cover('not leftmost')
    if any(x.node[0] == 'seq' and x.node[2] and x.children[x.node[2]].i == x.children[x.node[2]].j < x.j
           for x in d.walk()):
        ctx.cover('main omitted')


def forms(ctx):
    """Only the main words are narrowed, to the forms that agree."""
    p = ctx.params
    r = Table('r', ctx)
    kind = ctx.choice('kind', 8)
    first = ctx.choice('first', 2)
    a, b, c = eq('a'), eq('b'), eq('c')
    phrase, at = [
        (rule(rule(a).optional(), main(b)), first),
        (rule(rule(a).optional(), b, main(rule(c).optional())), 0),
        (rule(main(rule(a).optional()), b), 0),
        (rule(rule(rule(a).optional(), main(b)), rule(c).optional()), first),
        (rule(rule(a).optional(), main(rule(b, rule(c).optional()).named('n'))), first),
        (or_(rule(a, main(b)), rule(b)), first),
        (rule(rule(a).optional(), main(rule(b).repeatable())), first),
        (rule(rule(c).optional(), rule(a).optional(), main(rule(or_(rule(b), rule(a, c)))), rule(c).optional()), first),
    ][kind]
    values = (['a'] if first else []) + ['b', 'z']
    tokens = [
        MorphToken(v, G.token_span(i), 'RU', [
            Form('%d.%d' % (i, k), Grams(frozenset({'NOUN'}))) for k in range(p['forms'])])
        for i, v in enumerate(values)
    ]
    match = Parser(rule(phrase.match(r), rule('z').match(r)), tokenizer=G.IdTokenizer()).match(tokens)
    last = len(tokens) - 1
    agree = {
        (x.normalized, y.normalized): r.get(x.normalized, y.normalized)
        for x in tokens[at].forms for y in tokens[last].forms
    }
    if match is None:
        ctx.cover('disagree')
        ctx.check(ctx.not_(ctx.or_(*agree.values())), 'main words agree, not matched: kind %d' % kind)
        return
    ctx.cover('agree')
    ctx.check(ctx.or_(*agree.values()), 'main words do not agree, matched: kind %d' % kind)
    got = [[f.normalized for f in t.forms] for t in match.tokens]
    ctx.observe('forms', got)
    for i, t in enumerate(tokens):
        for f in t.forms:
            x = f.normalized
            if i == at:
                expected = ctx.or_(*[v for (a_, _), v in agree.items() if a_ == x])
            elif i == last:
                expected = ctx.or_(*[v for (_, b_), v in agree.items() if b_ == x])
            else:
                expected = True
            ctx.check_equal(expected, x in got[i], 'form %s kept, kind %d' % (x, kind))


def several(ctx):
    """More than one main is rejected, one is not."""
    n = ctx.choice('items', ctx.params['items']) + 1
    items, marks = [], 0
    for i in range(n):
        kind = ctx.choice('item %d' % i, 6)
        items.append([
            lambda: 'a', lambda: eq('a'), lambda: rule('a', main(eq('b'))),
            lambda: main(eq('a')), lambda: main(rule('a')), lambda: main(rule('a', main(rule('b').optional()))),
        ][kind]())
        marks += kind > 2
    how = ctx.choice('how', 3)

    def build():
        if how == 0:
            return rule(*items)
        if how == 1:
            return rule('x', *(items + [rule('y')]))
        return forward().define(*items)
    if how == 2 and n == 1:
        # a single rule is the definition itself, a single main word is a rule
        how = 0
    if marks > 1:
        ctx.cover('several')
        ctx.check(ctx.raises(ValueError, build) is not None, 'several mains are not rejected')
    else:
        ctx.cover('single')
        result = build()
        ctx.check(result is not None, 'rule is not built')


PLAN = {
    # family, level, words, chunk
    'quick': [('flat', 0, 3, 60), ('nested', 0, 3, 60), ('recursive', 0, 3, 6), ('shared', 0, 3, 60)],
    'thorough': [('flat', 1, 4, 40), ('nested', 1, 4, 40), ('recursive', 1, 4, 6), ('shared', 1, 4, 40)],
}
SEVERAL = {'quick': 3, 'thorough': 4}


def shards(tier):
    out = []
    for family, level, top, chunk in PLAN[tier]:
        items = FAMILIES[family][0](level)
        for k, (a, b) in enumerate(G.chunks(items, chunk)):
            out.append(('%s-%d' % (family, a), {
                'family': family, 'level': level, 'from': a, 'to': b, 'max': top,
                'last': ['last', 'first', 'main'][k % 3]}))
    out.append(('forms', {'h': 'forms', 'forms': 2 if tier == 'quick' else 3}))
    out.append(('several', {'h': 'several', 'items': SEVERAL[tier]}))
    return out


BOUNDS = {
    tier: '; '.join('%s: %d phrases on 0..%d words' % (
        family, len(FAMILIES[family][0](level)), top) for family, level, top, _ in PLAN[tier])
    + '. flat: 2..4 items in a row with and without a mark; nested: a marked phrase, wrapped, in a marked phrase; '
      'recursive: marks in recursive rules; shared: one rule object in several places. Each phrase is related to one '
      'more word, before or after it. forms: 8 phrases of up to 3 words with 2 (thorough: 3) forms each and an arbitrary symmetric '
      'relation. Rules of 1..%d items for the rejection of several mains' % SEVERAL[tier]
    for tier in PLAN
}
COVER = {'all': ['rejected', 'related', 'not leftmost', 'main omitted', 'agree', 'disagree', 'several', 'single']}
ASSUMPTIONS = [
    'tokens are fed by a tokenizer that passes them through, the words of a phrase are symbolic over two values',
    'the main word is observed by a recording relation; in "forms" by the forms kept under an arbitrary relation',
]
