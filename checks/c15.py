"""C15: as_json and spans of a fact agree with the fact."""
import itertools
from functools import lru_cache

from . import grammar as G
from .grammar import seq, alt, opt, rep, named
from . import facts, c14
from .facts import F, attr, norm, Mixed
from .c14 import W, P, g, h, f, none


def one(value):
    return 1


def empty(value):
    return []


def nothing(value):
    return {}


CUSTOM = ('custom', f)
NONE = ('custom', none)
PARTS = {k: c14.PARTS[k] for k in (
    'w', 'a', 'a2', 'b', 'r', 'a?', 'r+', 'a(w+)', 'a|r', 'a(G(x))', 'r(G(x y?))', 'F(a)', 'F(r b)', 'F(r?)', 'F(w)',
    'a(b)', 'r(a)', 'G(x)', 'a(F(r))', 'a(G(y+))', 'a.const', 'a.custom', 'a.none', 'n(b.const)', 'r(norm)', 'r(H(a))',
    'H(H)', 'F(a(G))', 'a(n(G))')}
PARTS.update({
    'a2.const': lambda: attr('F.a', seq(W, W), ('const', 'c')),
    'a.const0': lambda: attr('F.a', W, ('const', 0)),
    "a.const''": lambda: attr('F.a', W, ('const', '')),
    'a.constF': lambda: attr('F.a', W, ('const', False)),
    'b.constN': lambda: attr('F.b', W, ('const', None)),
    'r(const2)': lambda: attr('F.r', norm(seq(W, W), ('const', 'c'))),
    'r(none)': lambda: attr('F.r', norm(W, NONE)),
    'a2.normalized': lambda: attr('F.a', seq(W, W), ('normalized',)),
    'a.normalized.custom': lambda: attr('F.a', W, ('normalized',), CUSTOM),
    'n2.inflected': lambda: attr('F.n', seq(W, W), ('inflected', None)),
    'n.inflected.custom': lambda: attr('F.n', W, ('inflected', frozenset({'plur', 'gent'})), ('custom', one)),
    'n2.custom.custom': lambda: attr('F.n', seq(W, W), CUSTOM, ('custom', one)),
    'n.custom[]': lambda: attr('F.n', W, ('custom', empty)),
    'a(norm2)': lambda: attr('F.a', norm(seq(W, W), ('normalized',), CUSTOM)),
    'a(norm(norm2))': lambda: attr('F.a', norm(norm(seq(W, W), ('const', 'c')), CUSTOM)),
    'a(const(G))': lambda: attr('F.a', norm(g(attr('G.x', W)), ('const', 'c'))),
    'a.const(G(x w y))': lambda: attr('F.a', g(seq(attr('G.x', W), W, attr('G.y', W))), ('const', 'c')),
    'a.const(b)': lambda: attr('F.a', attr('F.b', seq(W, W)), ('const', 1)),
    'a.custom(b)': lambda: attr('F.a', attr('F.b', seq(W, W)), CUSTOM),
    'a.custom(G)': lambda: attr('F.a', g(seq(attr('G.y', W), attr('G.x', W))), ('custom', one)),
    'a(G())': lambda: attr('F.a', g(W)),
    'r(G())': lambda: attr('F.r', g(W)),
    'a(G(z))': lambda: attr('F.a', g(attr('G.z', W))),
    'a(G(x none))': lambda: attr('F.a', g(attr('G.x', W, NONE))),
    'r(G(y x y))': lambda: attr('F.r', g(seq(attr('G.y', W), attr('G.x', W), opt(attr('G.y', P))))),
    'F(a.const2)': lambda: F(attr('F.a', seq(W, W), ('const', 7))),
    'a(H(r))': lambda: attr('F.a', h(attr('H.r', rep(P)))),
})
ALL = list(PARTS)
MAIN = ['a', 'b', 'r', 'a?', 'a|r', 'a(G(x))', 'F(r b)', 'a2.const', "a.const''", 'b.constN', 'r(const2)',
        'r(G(y x y))', 'n2.inflected', 'F(r?)']


@lru_cache(None)
def specs(family):
    if family == 'one':
        return [(a,) for a in ALL]
    if family == 'two':
        return list(itertools.product(ALL, ALL))
    if family == 'three':
        return list(itertools.product(MAIN, repeat=3))
    if family == 'any':
        return list(itertools.product(ALL, MAIN[:8], ALL))
    return c14.specs(family)


def make(family, spec):
    if family == 'recursive':
        return c14.make(family, spec)
    return F(seq(*[PARTS[_]() for _ in spec])), {}


def harness(ctx):
    p = ctx.params
    found = c14.setup(ctx, specs=specs, make=make, morph=p['morph'], domain=None if p['morph'] else 'ЯzQ1')
    if found is None:
        return
    world, words, text, match, d = found
    try:
        expected = facts.evaluate(words, d)
    except Mixed:
        return
    value = facts.value_of(words, expected)
    spans = sorted(facts.spans_of(words, expected))
    json = facts.json_of(value)
    fact = match.fact

    def read_json():
        facts.check_json(ctx, text + ' as_json', fact.as_json, json)

    def read_spans():
        got = fact.spans
        ctx.check(type(got) is list and len(got) == len(spans), '%s: %d spans, expected %d' % (
            text, len(got), len(spans)))
        for a, b in zip(got, spans):
            ctx.check_equal((a.start, a.stop), words.span(b), text + ': span')
        ctx.observe('spans', [(_.start, _.stop) for _ in got])

    def read_fact():
        facts.check_value(ctx, world, text + ' F', fact, value)
    orders = [(read_json, read_spans, read_fact, read_spans, read_json),
              (read_spans, read_json, read_json, read_spans, read_fact)]
    for read in orders[len(text) % 2]:
        read()
    # nested facts on their own
    for k, (name, x) in enumerate(value.attributes):
        got = getattr(fact, name)
        if isinstance(x, facts.Value):
            facts.check_json(ctx, '%s %s.as_json' % (text, name), got.as_json, facts.json_of(x))
            ctx.cover('nested')
    # another reading of the match
    fact = match.fact
    read_spans()
    read_json()
    if len(spans) > 1:
        ctx.cover('spans')
    if not spans:
        ctx.cover('no spans')
    if len(json[1]) == 4:
        ctx.cover('all attributes')


PLAN = {
    'quick': [('one', 4, 2, 20), ('two', 4, 1, 80), ('three', 4, 1, 200), ('recursive', 4, 3, 1)],
    'thorough': [('one', 6, 4, 10), ('two', 6, 2, 40), ('three', 7, 2, 100), ('any', 8, 1, 400), ('recursive', 6, 5, 1)],
}


def shards(tier):
    out = []
    for family, top, extra, size in PLAN[tier]:
        for k, (a, b) in enumerate(G.chunks(specs(family), size)):
            out.append(('%s-%d' % (family, a), {
                'family': family, 'from': a, 'to': b, 'max': top, 'extra': extra, 'morph': k % 2, 'direct': k // 2 % 2}))
    return out


BOUNDS = {
    tier: '; '.join('%s: %d grammars on up to %d tokens (up to %d over the least)' % (
        family, len(specs(family)), top, extra) for family, top, extra, _ in plan) + (
        '. A grammar is a fact over 1..3 parts of %d kinds (as in C14, with const, custom, normalized, inflected and their '
        'combinations over words and over interpreted parts, values that are None, 0, empty), or recursive; '
        'values of the tokens, their normal forms and inflections, gaps between them and truth of one predicate are '
        'symbolic' % len(PARTS))
    for tier, plan in PLAN.items()
}
COVER = {'all': ['rejected', 'nested', 'spans', 'no spans', 'all attributes']}
ASSUMPTIONS = [
    'tokens are fed by a tokenizer that passes them through, each value is one symbolic code point',
    'forms of words come from a stub of the analyzer',
    'const over an interpreted part has one span, from the first to the last span of that part',
]
