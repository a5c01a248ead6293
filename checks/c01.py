"""C01: match() accepts exactly the language of the grammar."""
from functools import lru_cache

from . import grammar as G
from .grammar import A, B, EMPTY, seq, alt, opt, rep, named, ref

UNARY = [opt, rep]
BINARY = [seq, alt]


@lru_cache(None)
def plain(size):
    """Grammars without recursion."""
    nodes = G.enumerate_nodes(size, [A, B, EMPTY], UNARY, BINARY)
    out = [(n, {}) for n in nodes if G.canonical(n)]
    return [g for g in out if not G.degenerate(g)]


@lru_cache(None)
def wide(size):
    """Rules of three items, reversed quantifiers, names, overlapping predicates."""
    P, Q = ('pred', 0), ('pred', 1)

    def triples(x, y):
        return [seq(x, y, x), seq(x, x, y), alt(x, y, seq(x, y)), seq(x, opt(y), x), alt(named(x, 'n'), seq(y, y))]
    out = []
    nodes = []
    for x in G.enumerate_nodes(size - 2, [P, opt(P, True), rep(P, reverse=True)], UNARY, BINARY):
        for y in [Q, opt(Q), rep(Q), EMPTY]:
            nodes.extend(triples(x, y))
    for n in nodes:
        g = (n, {})
        if not G.degenerate(g):
            out.append(g)
    return out


@lru_cache(None)
def recursive(size):
    """One forward, used at least once in its own definition."""
    E = ref('E')
    nodes = G.enumerate_nodes(size, [A, B, EMPTY, E], UNARY, BINARY)
    out = []
    for n in nodes:
        if not G.canonical(n) or E not in list(G.walk(n)):
            continue
        if n is E:
            continue
        g = (E, {'E': n})
        if not G.degenerate(g):
            out.append(g)
    return out


@lru_cache(None)
def shared(size):
    """One rule object X used two or more times."""
    out = []
    bodies = [opt(A), rep(A), opt(rep(A)), alt(EMPTY, A), seq(opt(A), opt(B)), seq(A, opt(A)),
              alt(A, seq(A, A)), seq(opt(A))]
    for X in bodies:
        for n in G.enumerate_nodes(size, [A, B, X], UNARY, BINARY):
            if sum(1 for x in G.walk(n) if x is X) < 2:
                continue
            g = (n, {})
            if not G.degenerate(g):
                out.append(g)
    return out


def mutual():
    """Hand-picked recursive shapes: two forwards, nullable recursion, root inside."""
    E, F = ref('E'), ref('F')
    return [
        (E, {'E': alt(seq(A, F), B), 'F': alt(seq(B, E), A)}),
        (E, {'E': alt(seq(F, A), B), 'F': alt(seq(E, B), A)}),
        (E, {'E': alt(A, seq(B, E, B))}),
        (E, {'E': alt(EMPTY, seq(A, E, B))}),
        (E, {'E': seq(opt(seq(A, E)), opt(B))}),
        (seq(E, E), {'E': alt(A, seq(A, E))}),
        (seq(E, B), {'E': alt(EMPTY, seq(A, E))}),
        (seq(E, F), {'E': alt(EMPTY, seq(A, F)), 'F': alt(B, seq(B, E))}),
        (E, {'E': alt(seq(E, E), A)}),
        (E, {'E': alt(seq(E, A, E), B)}),
        (E, {'E': rep(alt(A, seq(B, E, B)))}),
        (E, {'E': rep(A)}),
        (opt(E), {'E': seq(A, opt(E), B)}),
        (seq(opt(E), A), {'E': seq(B, opt(E))}),
        (E, {'E': named(alt(A, seq(B, E)), 'x')}),
        (named(E, 'y'), {'E': alt(A, seq(B, named(E, 'z')))}),
        (seq(opt(E), opt(E), A), {'E': alt(B, seq(B, E))}),
        (seq(E, opt(F), E), {'E': alt(EMPTY, A), 'F': seq(B, E)}),
    ]


def labels(g, mode):
    """The same grammar, many of its rules having the same name."""
    memo = {}

    def f(node, top=False):
        if id(node) not in memo:
            memo[id(node)] = node, make(node, top)
        return memo[id(node)][1]

    def make(node, top=False):
        kind = node[0]
        if kind in ('seq', 'alt'):
            out = (kind, tuple(f(c) for c in node[1])) + node[2:]
        elif kind in ('opt', 'rep', 'named'):
            out = (kind, f(node[1])) + node[2:]
        else:
            out = node
        if mode == 0:
            # everything
            return named(out, 'x')
        if mode == 1:
            # rules and alternatives, by a name that is also given to unnamed rules
            return named(out, 'R1') if kind in ('seq', 'alt', 'ref') else out
        # leaves and quantifiers
        return named(out, 'R0') if kind not in ('seq', 'alt', 'ref') else out
    root, defs = g
    return f(root, True), {k: f(v) for k, v in defs.items()}


@lru_cache(None)
def labelled(size):
    """Different rules of the same name."""
    out = []
    for mode in range(3):
        for g in plain(size) + recursive(size) + (mutual() if size == 4 else []):
            if sum(1 for body in [g[0]] + list(g[1].values()) for x in G.walk(body)) < 3:
                continue
            g = labels(g, mode)
            if not G.degenerate(g):
                out.append(g)
    return out


FAMILIES = {'plain': plain, 'labelled': labelled, 'wide': wide, 'recursive': recursive, 'shared': shared,
            'mutual': lambda size: mutual()}


def instance(ctx):
    p = ctx.params
    gs = FAMILIES[p['family']](p['size'])[p['from']:p['to']]
    g = ctx.pick('grammar', gs)
    n = ctx.choice('tokens', p['max'] + 1)
    tokens = G.sym_tokens(ctx, n)
    if p['family'] == 'wide':
        # two arbitrary predicates: any token may satisfy none, one or both
        truth = [[ctx.flag('p%d_%d' % (k, i)) for i in range(n)] for k in range(2)]
        rules = G.build(g, [G.TablePredicate(tokens, row) for row in truth])

        def test(node, i):
            return truth[node[1]][i]
    else:
        rules = G.build(g, methods=p['from'] and p['from'] % 40 == 0)
        test = G.value_test(ctx, tokens)
    parser = G.Parser(rules, tokenizer=G.IdTokenizer())
    return g, n, tokens, parser, G.Language(ctx, g, test, n)


def harness(ctx):
    g, n, tokens, parser, language = instance(ctx)
    match = parser.match(tokens)
    ctx.observe('grammar', G.show_grammar(g))
    if match is None:
        ctx.observe('match', None)
        ctx.cover('rejected')
        if n:
            ctx.check(ctx.not_(language(0, n)), 'sentence of %s not matched' % G.show_grammar(g))
    else:
        got = [t.value for t in match.tokens]
        ctx.observe('match', got)
        ctx.cover('accepted')
        ctx.check(n > 0, 'empty match')
        ctx.check(language(0, n), 'not a sentence of %s' % G.show_grammar(g))
        ctx.check(len(got) == n, 'match does not cover the text')
        ctx.check_equal(got, [t.value for t in tokens], 'tokens of the match')
        ctx.check_equal((match.span.start, match.span.stop),
                        (tokens[0].span.start, tokens[-1].span.stop), 'span of the match')


PLAN = {
    # family: [(size, max tokens, grammars in a shard)]
    'quick': {'plain': [(1, 4, 10), (2, 5, 20), (3, 5, 20), (4, 4, 30), (5, 4, 40)],
              'wide': [(3, 4, 20), (4, 4, 40)],
              'recursive': [(2, 5, 10), (3, 5, 10), (4, 4, 20), (5, 4, 20), (6, 3, 60)],
              'shared': [(3, 5, 10), (4, 4, 20)],
              'labelled': [(3, 4, 40), (4, 3, 40)],
              'mutual': [(0, 5, 1)]},
    'thorough': {'plain': [(1, 6, 10), (2, 6, 20), (3, 6, 20), (4, 5, 20), (5, 5, 20), (6, 4, 40)],
                 'wide': [(3, 6, 10), (4, 5, 20), (5, 4, 40)],
                 'recursive': [(2, 6, 10), (3, 6, 5), (4, 5, 10), (5, 4, 20), (6, 4, 30), (7, 3, 80)],
                 'shared': [(3, 6, 5), (4, 5, 10), (5, 4, 40)],
                 'labelled': [(3, 6, 20), (4, 4, 30), (5, 3, 60)],
                 'mutual': [(0, 7, 1)]},
}
TEXT = {'quick': 4, 'thorough': 6}


def text_grammars():
    """On real text through the default tokenizer."""
    E = ref('E')
    return [
        (seq(A, opt(B)), {}),
        (rep(alt(A, seq(B, A))), {}),
        (seq(opt(A), opt(B), A), {}),
        (E, {'E': alt(A, seq(B, E, B))}),
    ]


def text_harness(ctx):
    """Texts of letters, blanks and punctuation through the real Tokenizer."""
    from yargy.tokenizer import Tokenizer
    g = ctx.pick('grammar', text_grammars())
    n = ctx.choice('length', ctx.params['max'] + 1)
    text = ctx.string('c', n, 'ab .')
    words = []   # reference tokens: runs of letters, single dots
    previous = None
    for i in range(n):
        c = text[i]
        if c == ' ':
            previous = None
        elif c == '.':
            words.append(c)
            previous = None
        elif previous == 'letter':
            words[-1] = words[-1] + c
        else:
            words.append(c)
            previous = 'letter'
    match = G.Parser(G.build(g), tokenizer=Tokenizer()).match(text)

    def test(node, i):
        return ctx.eq(words[i], node[1])
    expected = G.Language(ctx, g, test, len(words))(0, len(words)) if words else False
    ctx.observe('match', match and [t.value for t in match.tokens])
    if match is None:
        ctx.check(ctx.not_(expected), 'sentence of %s not matched' % G.show_grammar(g))
    else:
        ctx.cover('text accepted')
        ctx.check(expected, 'not a sentence of %s' % G.show_grammar(g))
        ctx.check_equal([t.value for t in match.tokens], words, 'tokens of the match')


def make_shards(plan, h='harness'):
    out = []
    for family, rows in plan.items():
        for size, top, chunk in rows:
            gs = FAMILIES[family](size)
            for a, b in G.chunks(gs, chunk):
                out.append(('%s-%d-%d' % (family, size, a), {
                    'h': h, 'family': family, 'size': size, 'from': a, 'to': b, 'max': top}))
    # long ones first
    out.sort(key=lambda s: -s[1]['size'] * 10 - s[1]['max'])
    return out


def shards(tier):
    return make_shards(PLAN[tier]) + [('text', {'h': 'text_harness', 'max': TEXT[tier]})]


def describe(plan, tier):
    return '; '.join(
        '%s grammars of %s' % (family, ', '.join(
            'size %d (%d) on 0..%d tokens' % (size, len(FAMILIES[family](size)), top)
            for size, top, _ in rows))
        for family, rows in plan.items()
    ) + '. Size counts constructors: literal, empty, optional, repeatable, rule of two, or_ of two, ' \
        'forward reference; wide: rules of three, reversed quantifiers and two arbitrary (overlapping) ' \
        'predicates; labelled: many rules of the same name. Each token is any one code point; texts up to %d characters over "ab ."' % TEXT[tier]


BOUNDS = {tier: describe(PLAN[tier], tier) for tier in PLAN}
COVER = {'all': ['accepted', 'rejected', 'text accepted']}
ASSUMPTIONS = [
    'tokens are fed by a tokenizer that passes them through, each value is one symbolic code point',
    'grammars whose repetition body or recursive cycle can be empty are excluded, as in the property',
]
