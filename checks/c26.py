"""C26: extract() gives every derivation of every span, each one once."""
from . import grammar as G
from .c05 import FAMILIES, Marked, value


def all_derivations(derive, i, j):
    out = []

    def collect(d):
        out.append(d)
        return False
    derive(i, j, collect)
    return out


def alternatives(node):
    """Alternatives of nested choices."""
    kind = node[0]
    if kind == 'alt':
        return [x for c in node[1] for x in alternatives(c)]
    if kind == 'opt':
        return [G.EMPTY] + alternatives(node[1])
    return [node]


def repeated(g, mode):
    """One rule object is two alternatives of a choice: not told apart."""
    for body in [g[0]] + list(g[1].values()):
        for node in G.walk(body):
            if node[0] in ('alt', 'opt'):
                rules = [id(x) for x in alternatives(node) if mode == 'nodes' or x[0] not in ('lit', 'pred')]
                if len(set(rules)) < len(rules):
                    return True
    return False


def multiset(items):
    return sorted(map(repr, items))


def harness(ctx):
    p = ctx.params
    g = ctx.pick('grammar', FAMILIES[p['family']](p['size'])[p['from']:p['to']])
    mode = ctx.pick('mode', ['leaves', 'all', 'nodes'])
    if repeated(g, mode):
        return
    n = ctx.choice('tokens', p['max']) + 1
    tokens = G.sym_tokens(ctx, n, p.get('domain'))
    predicates, accept = None, None
    if any(x[0] == 'pred' for b in [g[0]] + list(g[1].values()) for x in G.walk(b)):
        truth = [[ctx.flag('p%d_%d' % (k, i)) for i in range(n)] for k in range(2)]
        predicates = [G.TablePredicate(tokens, row) for row in truth]

        def test(node, i):
            return ctx.concrete(truth[node[1]][i])
    else:
        def test(node, i):
            return ctx.concrete(ctx.eq(tokens[i].value, node[1]))
    if p['family'] == 'related':
        relation = G.PairRelation('r', ctx)
        g = G.bind(g, {'r': relation})
        tokens = G.morph_tokens([t.value for t in tokens])
        accept = relation.accepts
    text = G.show_grammar(g)
    marked = Marked(g, mode)
    parser = G.Parser(G.build(marked.grammar, predicates, methods=p['from'] % 2 or p['family'] == 'preds'), tokenizer=G.IdTokenizer())
    got = {}
    index = {t.span.start: i for i, t in enumerate(tokens)}
    for match in parser.extract(tokens):
        i = index[match.tokens[0].span.start]
        got.setdefault((i, i + len(match.tokens)), []).append(value(match.fact))
    whole = [value(_.fact) for _ in parser.extract(tokens, all=False)]
    ctx.observe('grammar', text)
    ctx.check(multiset(whole) == multiset(got.get((0, n), [])),
              'derivations of the whole text by %s: got %s, expected %s' % (text, whole, got.get((0, n), [])))
    ctx.observe('count', sorted((k, len(v)) for k, v in got.items()))
    derive = G.Leftmost(marked.grammar, test, n)
    for i in range(n):
        for j in range(i + 1, n + 1):
            ds = all_derivations(derive, i, j)
            if accept:
                ds = [d for d in ds if accept(d)]
            expected = multiset(map(marked.expected, ds))
            here = multiset(got.get((i, j), []))
            ctx.check(here == expected, 'derivations of tokens %d..%d by %s: got %s, expected %s' % (
                i, j, text, here, expected))
            if len(expected) > 1:
                ctx.cover('ambiguous')
            elif expected:
                ctx.cover('one')
            else:
                ctx.cover('none')


PLAN = {
    'quick': {'plain': [(3, 3, 20), (4, 3, 30)],
              'one': [(3, 3, 10), (4, 3, 20), (5, 3, 30)],
              'recursive': [(3, 3, 10), (4, 3, 20), (5, 3, 20)],
              'related': [(3, 3, 4), (4, 3, 20), (5, 3, 40)],
              'same': [(0, 3, 20)], 'mixed': [(0, 3, 5)], 'preds': [(0, 3, 2)]},
    'thorough': {'plain': [(3, 4, 20), (4, 4, 30), (5, 3, 40)],
                 'one': [(3, 5, 10), (4, 5, 20), (5, 4, 20), (6, 3, 60)],
                 'recursive': [(3, 5, 10), (4, 4, 20), (5, 4, 20)],
                 'related': [(3, 4, 1), (4, 4, 10), (5, 4, 40)],
                 'same': [(0, 5, 10)], 'mixed': [(0, 4, 2)], 'preds': [(0, 4, 1)]},
}


def shards(tier):
    out = []
    for family, rows in PLAN[tier].items():
        for size, top, chunk in rows:
            for a, b in G.chunks(FAMILIES[family](size), chunk):
                params = {'family': family, 'size': size, 'from': a, 'to': b, 'max': top}
                if family in ('one', 'recursive', 'same', 'related'):
                    params['domain'] = 'a'
                out.append(('%s-%d-%d' % (family, size, a), params))
    out.sort(key=lambda s: -s[1]['size'] * 10 - s[1]['max'])
    return out


BOUNDS = {
    tier: '; '.join('%s grammars of %s' % (family, ', '.join(
        'size %d (%d) on 1..%d tokens' % (size, len(FAMILIES[family](size)), top)
        for size, top, _ in rows)) for family, rows in PLAN[tier].items())
    + '. Quantifiers are not nested directly in each other. Derivations are observed as facts: an '
      'interpretation on every literal, on every node, or on every node that is not a literal'
    for tier in PLAN
}
COVER = {'all': ['ambiguous', 'one', 'none']}
ASSUMPTIONS = [
    'tokens are fed by a tokenizer that passes them through, each value is one symbolic code point '
    '(only "a" for the families one, recursive, same and related, where the grammar alone is ambiguous)',
    'one rule object (or nothing) as two alternatives of the same choice is left out',
    'derivations that differ only in parts that match nothing look the same but are counted',
]
