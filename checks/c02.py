"""C02: extract() reports exactly the derivable substrings."""
from . import grammar as G
from .c01 import instance, make_shards, describe, text_grammars


def harness(ctx):
    g, n, tokens, parser, language = instance(ctx)
    text = G.show_grammar(g)
    ctx.observe('grammar', text)
    matches = list(parser.extract(tokens))
    index = {t.span.start: i for i, t in enumerate(tokens)}
    found = set()
    for match in matches:
        ctx.check(len(match.tokens) > 0, 'empty match')
        first = index[match.tokens[0].span.start]
        stop = first + len(match.tokens)
        found.add((first, stop))
        expected = tokens[first:stop]
        ctx.check_equal([t.value for t in match.tokens], [t.value for t in expected],
                        'tokens of the match at %d of %s' % (first, text))
        ctx.check_equal([(t.span.start, t.span.stop) for t in match.tokens],
                        [(t.span.start, t.span.stop) for t in expected],
                        'spans of the tokens of the match at %d of %s' % (first, text))
        ctx.check_equal((match.span.start, match.span.stop),
                        (expected[0].span.start, expected[-1].span.stop), 'span of the match')
    ctx.observe('found', sorted(found))
    if found:
        ctx.cover('found')
    for i in range(n):
        for j in range(i + 1, n + 1):
            if (i, j) in found:
                ctx.check(language(i, j), 'tokens %d..%d are not a sentence of %s' % (i, j, text))
            else:
                ctx.check(ctx.not_(language(i, j)), 'tokens %d..%d, a sentence of %s, are not extracted' % (i, j, text))
                ctx.cover('not found')


PLAN = {
    'quick': {'plain': [(1, 4, 10), (2, 4, 20), (3, 4, 20), (4, 4, 30), (5, 3, 40)],
              'wide': [(3, 3, 20), (4, 3, 30)],
              'recursive': [(2, 4, 10), (3, 4, 10), (4, 3, 20), (5, 3, 20)],
              'shared': [(3, 4, 10), (4, 3, 30)],
              'labelled': [(3, 3, 40), (4, 3, 40)],
              'mutual': [(0, 4, 2)]},
    'thorough': {'plain': [(1, 6, 10), (2, 5, 20), (3, 5, 10), (4, 5, 20), (5, 4, 20), (6, 3, 60)],
                 'wide': [(3, 4, 10), (4, 4, 20), (5, 3, 40)],
                 'recursive': [(2, 6, 10), (3, 5, 5), (4, 4, 10), (5, 4, 20), (6, 3, 40)],
                 'shared': [(3, 5, 5), (4, 4, 20), (5, 3, 60)],
                 'labelled': [(3, 5, 20), (4, 4, 40), (5, 3, 60)],
                 'mutual': [(0, 6, 1)]},
}


def text_harness(ctx):
    """Real texts: the characters of the span are those of the tokens."""
    from yargy.tokenizer import Tokenizer
    g = ctx.pick('grammar', text_grammars())
    n = ctx.choice('length', ctx.params['max'] + 1)
    text = ctx.string('c', n, 'ab .')
    for match in G.Parser(G.build(g), tokenizer=Tokenizer()).extract(text):
        a, b = match.span
        ctx.observe('span', (a, b))
        ctx.cover('text found')
        ctx.check(0 <= a < b <= n, 'span out of the text')
        values = [t.value for t in match.tokens]
        joined = ''
        for v in values:
            joined = joined + v
        bare = ''
        for i in range(a, b):
            if text[i] != ' ':
                bare = bare + text[i]
        ctx.check_equal(joined, bare, 'text of the span')


TEXT = {'quick': 4, 'thorough': 6}


def shards(tier):
    return make_shards(PLAN[tier]) + [('text', {'h': 'text_harness', 'max': TEXT[tier]})]


BOUNDS = {tier: describe(PLAN[tier], tier) for tier in PLAN}
COVER = {'all': ['found', 'not found', 'text found']}
ASSUMPTIONS = [
    'tokens are fed by a tokenizer that passes them through, each value is one symbolic code point',
    'grammars whose repetition body or recursive cycle can be empty are excluded, as in the property',
]
