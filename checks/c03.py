"""C03: findall() picks a maximum-coverage, disjoint, ordered set of matches."""
import itertools

from yargy import rule, or_
from yargy.predicates import Predicate
from yargy import span as span_module

from . import grammar as G
from .c01 import FAMILIES, make_shards, instance


class Here(Predicate):
    """Arbitrary set of candidates: true where a candidate of this length starts."""

    def __init__(self, flags):
        self.flags = flags

    def __call__(self, token):
        return self.flags[token.span.start]


class Anything(Predicate):
    def __call__(self, token):
        return True


def best_coverage(candidates, n):
    best = [0] * (n + 1)
    for j in range(1, n + 1):
        best[j] = best[j - 1]
        for i in range(j):
            if (i, j) in candidates:
                best[j] = max(best[j], best[i] + j - i)
    return best[n]


def positions(tokens, matches):
    """Matches as intervals of tokens."""
    index = {t.span.start: i for i, t in enumerate(tokens)}
    out = []
    for m in matches:
        i = index[m.tokens[0].span.start]
        out.append((i, i + len(m.tokens)))
    return out


def check_disjoint(ctx, found):
    for (a, b), (c, d) in zip(found, found[1:]):
        ctx.check(b <= c, 'matches %s overlap or are not in order' % (found,))


def candidates(ctx):
    """Arbitrary sets of candidate spans."""
    n, longest = ctx.params['n'], ctx.params['longest']
    tokens = [G.Token('x', G.token_span(i), 'OTHER') for i in range(n)]
    flags = {}
    alternatives = []
    lengths = list(range(1, longest + 1))
    if ctx.params.get('order'):
        lengths.reverse()
    for size in lengths:
        here = {}
        for i, t in enumerate(tokens):
            if i + size <= n:
                flags[i, i + size] = here[t.span.start] = ctx.flag('s%d_%d' % (i, i + size))
            else:
                here[t.span.start] = False
        alternatives.append(rule(*([Here(here)] + [Anything()] * (size - 1))))
    parser = G.Parser(or_(*alternatives), tokenizer=G.IdTokenizer())
    found = positions(tokens, parser.findall(tokens))
    ctx.observe('found', found)
    for s in found:
        ctx.check(flags[s], 'not a candidate: %s' % (s,))
    check_disjoint(ctx, found)
    present = {s for s, f in flags.items() if ctx.concrete(f)}
    got = sum(b - a for a, b in found)
    best = best_coverage(present, n)
    ctx.check(got == best, 'coverage %d of %d, candidates %s' % (got, best, sorted(present)))
    if len(found) > 1:
        ctx.cover('several')
    if len(present) > len(found):
        ctx.cover('dropped')
    if best < n and present:
        ctx.cover('gap')
    first = parser.find(tokens)
    if not found:
        ctx.check(first is None, 'find() with nothing found')
        ctx.cover('nothing')
    else:
        ctx.check(first is not None and positions(tokens, [first])[0] == found[0], 'find() is not the first match')


def harness(ctx):
    """Candidates of a grammar."""
    g, n, tokens, parser, language = instance(ctx)
    text = G.show_grammar(g)
    found = positions(tokens, parser.findall(tokens))
    ctx.observe('grammar', text)
    ctx.observe('found', found)
    for i, j in found:
        ctx.check(language(i, j), 'tokens %d..%d are not a sentence of %s' % (i, j, text))
    check_disjoint(ctx, found)
    got = sum(b - a for a, b in found)
    # can[i][c]: some selection within the first i tokens has coverage c
    can = [{0: True}]
    for j in range(1, n + 1):
        row = {c: [e] for c, e in can[j - 1].items()}
        for i in range(j):
            here = language(i, j)
            for c, e in can[i].items():
                row.setdefault(c + j - i, []).append(ctx.and_(e, here))
        can.append({c: ctx.or_(*es) for c, es in row.items()})
    for c, e in sorted(can[n].items()):
        if c > got:
            ctx.check(ctx.not_(e), 'coverage %d is possible by %s, got %d' % (c, text, got))
    if len(found) > 1:
        ctx.cover('several of grammar')
    if n:
        first = parser.find(tokens)
        if found:
            ctx.check(positions(tokens, [first])[0] == found[0], 'find() is not the first match')
        else:
            ctx.check(first is None, 'find() with nothing found')


def filtered(ctx):
    """Candidates whose derivations have to agree with a relation first."""
    p = ctx.params
    relation = G.PairRelation('r', ctx)
    g = G.bind(ctx.pick('grammar', G.related(p['size'])[p['from']:p['to']]), {'r': relation})
    n = ctx.choice('tokens', p['max']) + 1
    tokens = G.morph_tokens('a' * n)
    text = G.show_grammar(g)
    parser = G.Parser(G.build(g), tokenizer=G.IdTokenizer())
    found = positions(tokens, parser.findall(tokens))
    derive = G.Leftmost(g, lambda node, i: True, n)
    present = {(i, j) for i in range(n) for j in range(i + 1, n + 1)
               if derive(i, j, relation.accepts) is not None}
    ctx.observe('grammar', text)
    ctx.observe('found', found)
    for s in found:
        ctx.check(s in present, 'tokens %d..%d are not a match of %s' % (s + (text,)))
    check_disjoint(ctx, found)
    got = sum(b - a for a, b in found)
    best = best_coverage(present, n)
    ctx.check(got == best, 'coverage of %s: %d of %d, candidates %s' % (text, got, best, sorted(present)))
    first = parser.find(tokens)
    if found:
        ctx.check(first is not None and positions(tokens, [first])[0] == found[0], 'find() is not the first match')
    else:
        ctx.check(first is None, 'find() with nothing found')
    if any(derive(i, j) is not None and (i, j) not in present for i in range(n) for j in range(i + 1, n + 1)):
        ctx.cover('disagree')
    if found:
        ctx.cover('agree')


def spans(ctx):
    """Selection among spans at any positions (numbers are not bounded)."""
    resolve = getattr(span_module, 'resolve_spans', None)
    if resolve is None:
        return
    m = ctx.choice('spans', ctx.params['max'] + 1)
    items = []
    for i in range(m):
        a, b = ctx.int('a%d' % i, 0), ctx.int('b%d' % i, 0)
        ctx.assume(a < b)
        if items:
            # in the order of matches: by start, then longer first
            p, q = items[-1]
            ctx.assume(ctx.or_(p < a, ctx.and_(ctx.eq(p, a), q > b)))
        items.append((a, b))
    given = list(items)
    found = list(resolve(given))
    chosen = []
    for x in map(tuple, found):
        for i, y in enumerate(given):
            if x is y or all(a is b for a, b in zip(x, y)):
                chosen.append(i)
    ctx.observe('chosen', chosen)
    ctx.check(len(chosen) == len(found), 'not one of the spans')
    for i, j in zip(chosen, chosen[1:]):
        ctx.check(i < j, 'not in order')
        ctx.check(items[i][1] <= items[j][0], 'overlap')

    def size(indexes):
        total = 0
        for i in indexes:
            total = total + (items[i][1] - items[i][0])
        return total
    got = size(chosen)
    for k in range(1, m + 1):
        for some in itertools.combinations(range(m), k):
            disjoint = [items[i][1] <= items[j][0] for i, j in zip(some, some[1:])]
            ctx.check(ctx.implies(ctx.and_(*disjoint), size(some) <= got),
                      'coverage of %s is larger than of %s' % (list(some), chosen))
    if len(chosen) > 1:
        ctx.cover('several spans')


PLAN = {
    'quick': {'plain': [(1, 4, 10), (2, 4, 20), (3, 4, 20), (4, 3, 20)],
              'wide': [(3, 3, 20)],
              'recursive': [(2, 4, 10), (3, 4, 10), (4, 3, 20)],
              'shared': [(3, 4, 20)],
              'mutual': [(0, 4, 3)]},
    'thorough': {'plain': [(1, 6, 10), (2, 5, 20), (3, 5, 10), (4, 5, 20), (5, 4, 20)],
                 'wide': [(3, 5, 10), (4, 4, 20)],
                 'recursive': [(2, 6, 10), (3, 5, 5), (4, 4, 10), (5, 4, 20)],
                 'shared': [(3, 5, 5), (4, 4, 20)],
                 'mutual': [(0, 6, 1)]},
}
# tokens, longest candidate
CANDIDATES = {'quick': [(1, 1), (2, 2), (3, 3), (4, 4), (5, 2)],
              'thorough': [(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 3), (7, 2)]}
# size of the grammar, tokens
FILTERED = {'quick': [(3, 4, 2), (4, 3, 20), (5, 3, 40)], 'thorough': [(3, 5, 1), (4, 5, 10), (5, 4, 40)]}
SPANS = {'quick': 4, 'thorough': 5}


def shards(tier):
    out = []
    for n, longest in reversed(CANDIDATES[tier]):
        for order in (0, 1):
            out.append(('candidates-%d-%d-%d' % (n, longest, order), {
                'h': 'candidates', 'n': n, 'longest': longest, 'order': order}))
    for size, top, chunk in FILTERED[tier]:
        for a, b in G.chunks(G.related(size), chunk):
            out.append(('filtered-%d-%d' % (size, a), {
                'h': 'filtered', 'size': size, 'from': a, 'to': b, 'max': top}))
    out.append(('spans', {'h': 'spans', 'max': SPANS[tier]}))
    return out + make_shards(PLAN[tier])


BOUNDS = {
    tier: 'arbitrary candidate sets: %s; %s; ambiguous grammars with related words, any pair agreeing or not: %s; up to %d spans at arbitrary unbounded positions' % (
        ', '.join('%d tokens with candidates of up to %d tokens' % x for x in CANDIDATES[tier]),
        '; '.join('%s grammars of %s' % (family, ', '.join(
            'size %d (%d) on 0..%d tokens' % (size, len(FAMILIES[family](size)), top)
            for size, top, _ in rows)) for family, rows in PLAN[tier].items()),
        ', '.join('size %d (%d) on 1..%d tokens' % (size, len(G.related(size)), top)
                  for size, top, _ in FILTERED[tier]),
        SPANS[tier])
    for tier in PLAN
}
COVER = {'all': ['several', 'dropped', 'gap', 'nothing', 'several of grammar', 'agree', 'disagree']}
ASSUMPTIONS = [
    'tokens are fed by a tokenizer that passes them through, each value is one symbolic code point',
    'spans given to the selection are distinct and sorted by start, then by decreasing stop, as findall gives them',
]
