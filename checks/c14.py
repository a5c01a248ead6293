"""C14: facts contain exactly what the annotated words say."""
import itertools
from functools import lru_cache

from . import grammar as G
from .grammar import seq, alt, opt, rep, named, ref
from . import facts
from .facts import F, attr, norm, World, Words, Mixed

W = ('pred', 0)      # any word
P = ('pred', 1)      # some words


def g(x):
    return ('int', x, ('fact', 'G'))


def h(x):
    return ('int', x, ('fact', 'H'))


def k(x):
    return ('int', x, ('fact', 'K'))


def f(value):
    return ('f', value)


def none(value):
    return None


# parts of a fact; names of annotations of user's code
PARTS = {
    'w': lambda: W,
    'a': lambda: attr('F.a', W),
    'a2': lambda: attr('F.a', seq(W, W)),
    'b': lambda: attr('F.b', W),
    'r': lambda: attr('F.r', W),
    'a?': lambda: opt(attr('F.a', P)),
    'r+': lambda: rep(attr('F.r', P)),
    'a+': lambda: rep(attr('F.a', P)),
    'a(w+)': lambda: attr('F.a', rep(P)),
    'a|r': lambda: alt(attr('F.a', P), attr('F.r', W)),
    'a(G(x))': lambda: attr('F.a', g(attr('G.x', W))),
    'r(G(x y?))': lambda: attr('F.r', g(seq(attr('G.x', W), opt(attr('G.y', P))))),
    'F(a)': lambda: F(attr('F.a', W)),
    'F(r b)': lambda: F(seq(attr('F.r', W), attr('F.b', P))),
    'F(r?)': lambda: opt(F(attr('F.r', P))),
    'F(w)': lambda: F(W),
    'F(F(n))': lambda: F(F(attr('F.n', W))),
    'a(b)': lambda: attr('F.a', attr('F.b', W)),
    'r(a)': lambda: attr('F.r', attr('F.a', W)),
    'a(r+)': lambda: attr('F.a', rep(attr('F.r', P))),
    'G(x)': lambda: g(attr('G.x', W)),
    'x': lambda: attr('G.x', W),
    'G(a)': lambda: g(attr('F.a', W)),
    'a(w x)': lambda: attr('F.a', seq(W, attr('G.x', W))),
    'a(w? G)': lambda: attr('F.a', seq(opt(P), g(attr('G.x', W)))),
    'a(F(r))': lambda: attr('F.a', F(attr('F.r', W))),
    'a(G(y+))': lambda: attr('F.a', g(rep(attr('G.y', P)))),
    'named': lambda: named(seq(seq(attr('F.a', W))), 'part'),
    'a.const': lambda: attr('F.a', W, ('const', 3)),
    'a.custom': lambda: attr('F.a', W, ('custom', f)),
    'a.none': lambda: attr('F.a', W, ('custom', none)),
    'r(none)': lambda: attr('F.r', norm(W, ('custom', none))),
    'r(none.f)': lambda: attr('F.r', norm(W, ('custom', none), ('custom', f))),
    'r(const)': lambda: attr('F.r', norm(W, ('const', None))),
    'K(a r?)': lambda: k(seq(attr('F.a', W), opt(attr('F.r', P)))),
    'a(K(r))': lambda: attr('F.a', k(attr('F.r', W))),
    'K(F(r b))': lambda: k(seq(attr('F.r', W), opt(F(attr('F.b', P))))),
    'F(K(b))': lambda: F(k(attr('F.b', W))),
    'n(b.const)': lambda: attr('F.n', attr('F.b', W, ('const', None))),
    'r(norm)': lambda: attr('F.r', norm(W, ('custom', f))),
    'r(H(a))': lambda: attr('F.r', h(attr('H.a', W))),
    'H': lambda: h(attr('H.r', W)),
    'H(H)': lambda: attr('F.n', h(seq(h(attr('H.r', W)), opt(attr('H.r', P))))),
    'F(a(G))': lambda: F(attr('F.a', g(attr('G.x', W)))),
    'a(n(G))': lambda: attr('F.a', attr('F.n', g(attr('G.y', W)))),
    'a(norm(G))': lambda: attr('F.a', norm(g(attr('G.x', W)), ('const', 'c'))),
}
ALL = list(PARTS)
# for triples
MAIN = ['w', 'a', 'a2', 'b', 'r', 'a?', 'r+', 'a|r', 'a(G(x))', 'F(a)', 'F(r b)', 'F(r?)', 'a(b)', 'r(a)', 'a.const',
        'r(H(a))']


def recursive(k):
    """Facts of the same kind in each other through forward."""
    E = ref('E')
    bodies = [
        lambda: F(alt(attr('F.a', W), seq(attr('F.r', W), E))),
        lambda: F(alt(seq(attr('F.r', W), attr('F.a', E)), attr('F.b', W))),
        lambda: F(seq(attr('F.r', W), opt(E))),
        lambda: F(alt(seq(E, attr('F.r', P)), attr('F.r', W))),
        lambda: F(rep(seq(attr('F.r', W), opt(attr('F.a', P))))),
        lambda: F(seq(rep(attr('F.r', P)), opt(attr('F.r', attr('F.a', seq(W, W)))))),
        lambda: F(rep(F(seq(attr('F.a', P), opt(attr('F.r', W)))))),
    ]
    body = bodies[k]()
    if k < 4:
        return E, {'E': body}
    return body, {}


RECURSIVE = 7


@lru_cache(None)
def specs(family):
    if family == 'one':
        return [(a,) for a in ALL]
    if family == 'two':
        return list(itertools.product(ALL, ALL))
    if family == 'three':
        return list(itertools.product(MAIN, repeat=3))
    if family == 'four':
        return list(itertools.product(MAIN[:9], repeat=4))
    if family == 'any':
        return list(itertools.product(ALL, MAIN, ALL))
    return [(k,) for k in range(RECURSIVE)]


def make(family, spec):
    if family == 'recursive':
        return recursive(*spec)
    return F(seq(*[PARTS[_]() for _ in spec])), {}


def least(node, defs, depth=0):
    """The least number of tokens."""
    kind = node[0]
    if kind == 'pred':
        return 1
    if kind == 'seq':
        return sum(least(c, defs, depth) for c in node[1])
    if kind == 'alt':
        return min(least(c, defs, depth) for c in node[1])
    if kind == 'opt':
        return 0
    if kind == 'ref':
        return 1 if depth else least(defs[node[1]], defs, 1)
    return least(node[1], defs, depth)


def setup(ctx, specs=specs, make=make, **kw):
    """Match of a grammar of the family, its derivation (or None)."""
    p = ctx.params
    items = specs(p['family'])[p['from']:p['to']]
    spec = ctx.pick('grammar', items)
    g = make(p['family'], spec)
    low = least(g[0], g[1])
    n = low + ctx.choice('more tokens', p['extra'] + 1)
    if not 0 < n <= p['max']:
        return None
    world = World()
    words = Words(ctx, n, **kw)
    truth = [ctx.flag('p%d' % i) for i in range(n)]
    predicates = [facts.BoolTable(words.tokens, [True] * n), facts.BoolTable(words.tokens, truth)]

    def test(node, i):
        return node[1] == 0 or ctx.concrete(truth[i])
    d = G.Leftmost(g, test, n)(0, n)
    text = facts.show_grammar(g)
    ctx.observe('grammar', text)
    r = G.build(facts.bind(world, g), predicates, p['direct'])
    match = G.Parser(r, tokenizer=G.IdTokenizer()).match(words.tokens)
    ctx.check((match is None) == (d is None), 'match of %s' % text)
    if match is None:
        ctx.cover('rejected')
        return None
    while d.node[0] == 'ref':
        d, = d.children
    return world, words, text, match, d


def harness(ctx):
    found = setup(ctx)
    if found is None:
        return
    world, words, text, match, d = found
    try:
        expected = facts.evaluate(words, d)
    except Mixed:
        for _ in range(2):
            ctx.check(ctx.raises(TypeError, lambda: match.fact) is not None, 'no TypeError for %s' % text)
        ctx.cover('mixed')
        return
    value = facts.value_of(words, expected)
    for _ in range(2):
        got = match.fact
        facts.check_value(ctx, world, text + ' F', got, value)
    for key, x in value.attributes[:2]:
        if not isinstance(x, (facts.Value, tuple)):
            ctx.observe(key, getattr(got, key))
    ctx.observe('r', len(got.r))
    ctx.cover('fact')
    if len(got.r) > 1:
        ctx.cover('several')
    if len([1 for k, _ in expected.found if k == 'a']) > 1:
        ctx.cover('rightmost')


PLAN = {
    # family, most tokens, tokens over the least, chunk
    'quick': [('one', 4, 2, 20), ('two', 4, 1, 60), ('three', 4, 1, 200), ('recursive', 4, 3, 1)],
    'thorough': [('one', 6, 4, 10), ('two', 6, 2, 40), ('three', 7, 2, 100), ('four', 8, 1, 200), ('any', 8, 1, 400),
                 ('recursive', 6, 5, 1)],
}


def shards(tier):
    out = []
    for family, top, extra, size in PLAN[tier]:
        for k, (a, b) in enumerate(G.chunks(specs(family), size)):
            out.append(('%s-%d' % (family, a), {
                'family': family, 'from': a, 'to': b, 'max': top, 'extra': extra, 'direct': k % 2}))
    return out


BOUNDS = {
    tier: '; '.join('%s: %d grammars on up to %d tokens (up to %d over the least)' % (
        family, len(specs(family)), top, extra) for family, top, extra, _ in plan) + (
        '. A grammar is a fact over 1..4 parts of %d kinds (plain, repeatable, default attributes, optional and repeated ones, '
        'attribute over attribute, nested facts of the same and other kinds, normalizers, mixtures), or recursive; '
        'values of the tokens, gaps between them and truth of one predicate are symbolic' % len(PARTS))
    for tier, plan in PLAN.items()
}
COVER = {'all': ['rejected', 'mixed', 'fact', 'several', 'rightmost']}
ASSUMPTIONS = [
    'tokens are fed by a tokenizer that passes them through, each value is one symbolic code point',
    'the derivation is the one of C05',
]
