"""C05: ambiguity is resolved to the leftmost derivation, deterministically."""
from functools import lru_cache

from yargy.interpretation import fact, attribute, const

from . import grammar as G
from .grammar import A, B, EMPTY, seq, alt, opt, rep, named, ref

Base = fact('G', [attribute('items').repeatable()])
KINDS = [type('G%d' % i, (Base,), {}) for i in range(40)]


class Marked(object):
    """Grammar annotated so that the fact of a match is its derivation."""

    def __init__(self, grammar, mode):
        self.mode = mode   # leaves only, all but leaves or all the nodes
        self.count = 0
        self.memo = {}
        self.label = {}    # wrapped node -> label
        root, defs = grammar
        self.defs = {k: self.node(v) for k, v in defs.items()}
        self.root = G.interp(self.node(root), Base)
        self.grammar = self.root, self.defs

    def node(self, node):
        if id(node) not in self.memo:
            self.memo[id(node)] = node, self.wrap(node)
        return self.memo[id(node)][1]

    def inner(self, node):
        kind = node[0]
        if kind in ('seq', 'alt'):
            return (kind, tuple(self.node(c) for c in node[1])) + node[2:]
        if kind in ('opt', 'rep', 'named', 'rel'):
            return (kind, self.node(node[1])) + node[2:]
        return node

    def wrap(self, node):
        kind = node[0]
        if kind == 'empty':
            return node
        leaf = kind in ('lit', 'pred')
        inner = self.inner(node)
        if leaf and self.mode == 'nodes' or not leaf and (self.mode == 'leaves' or kind == 'named'):
            return inner
        k = self.count
        self.count += 1
        out = G.interp(G.interp(inner, const(k) if leaf else KINDS[k]), Base.items)
        self.label[id(out)] = k
        return out

    def expected(self, d):
        """Value of the fact for derivation d."""
        out = []
        for c in d.children:
            if c.i == c.j:
                continue
            k = self.label.get(id(c.node))
            if k is None:
                out.extend(self.expected(c))
            else:
                # skip the annotation itself
                x = c.children[0].children[0]
                if x.node[0] in ('lit', 'pred'):
                    out.append(k)
                else:
                    out.append((k, self.expected(x)))
        return out


def value(x):
    if isinstance(x, Base):
        items = [value(_) for _ in x.items]
        if type(x) is Base:
            return items
        return (KINDS.index(type(x)), items)
    return x


def opt_r(x):
    return opt(x, True)


def rep_r(x):
    return rep(x, reverse=True)


def rep_12(x):
    return rep(x, 1, 2)


def direct(node):
    """Quantifiers directly in each other."""
    return any(x[0] in ('opt', 'rep') and x[1][0] in ('opt', 'rep') for x in G.walk(node))


@lru_cache(None)
def plain(size):
    nodes = G.enumerate_nodes(size, [A, B, EMPTY], [opt, opt_r, rep, rep_r], [seq, alt])
    return [(n, {}) for n in nodes
            if G.canonical(n) and not direct(n) and not G.degenerate((n, {}))]


@lru_cache(None)
def one(size):
    """Single letter: the most ambiguous ones."""
    nodes = G.enumerate_nodes(size, [A, EMPTY], [opt, opt_r, rep, rep_r, rep_12], [seq, alt])
    return [(n, {}) for n in nodes
            if not direct(n) and sum(x is A for x in G.walk(n)) > 1 and not G.degenerate((n, {}))]


@lru_cache(None)
def recursive(size):
    E = ref('E')
    out = []
    for n in G.enumerate_nodes(size, [A, E], [opt, opt_r, rep, rep_r], [seq, alt]):
        if E not in list(G.walk(n)) or n is E or direct(n):
            continue
        g = (E, {'E': n})
        if not G.degenerate(g):
            out.append(g)
    return out


@lru_cache(None)
def picked(size=0):
    E, F = ref('E'), ref('F')
    X = alt(A, seq(A, A), seq(A, A, A))
    Y = alt(seq(A, A), A)
    N = alt(EMPTY, A, seq(A, A))
    out = []
    for x in (X, Y, opt(A), opt_r(A), N):
        for y in (X, Y, opt(A), opt_r(A), N):
            out.append(seq(x, y))
            out.append(seq(x, y, x))
            out.append(alt(seq(x, y), seq(y, x)))
    for x in (X, Y, alt(seq(A, opt(A)), A), seq(A, opt_r(A)), seq(opt(A), A), alt(A, A, seq(A, A))):
        for lo, hi in [(None, None), (None, 2), (None, 3), (2, None), (2, 3), (3, None), (2, 2)]:
            for r in (False, True):
                out.append(rep(x, lo, hi, r))
                out.append(seq(rep(x, lo, hi, r), opt(A)))
                out.append(seq(rep(x, lo, hi, r), rep(A, reverse=not r)))
    gs = [(n, {}) for n in out]
    gs += [
        (E, {'E': alt(seq(E, E), A)}),
        (E, {'E': alt(A, seq(E, E))}),
        (E, {'E': alt(seq(A, E), seq(E, A), A)}),
        (E, {'E': alt(seq(E, B, E), seq(E, A, E), A, B)}),
        (E, {'E': alt(seq(F, E), F), 'F': alt(A, seq(A, A))}),
        (seq(E, E), {'E': alt(EMPTY, seq(A, E))}),
        (seq(E, opt(F)), {'E': alt(seq(A, E), A), 'F': alt(seq(F, A), A)}),
        (alt(E, F), {'E': alt(seq(opt(A), A)), 'F': rep(A)}),
        (rep(E), {'E': alt(A, seq(A, E))}),
        (rep_r(E), {'E': alt(seq(E, A), A)}),
        (alt(seq(A, E), E), {'E': alt(A, opt_r(seq(A, A)))}),
    ]
    return [g for g in gs if not G.degenerate(g) and not direct(g[0])]



@lru_cache(None)
def preds(size=0):
    P, Q = ('pred', 0), ('pred', 1)
    out = []
    for x in (P, Q):
        for y in (P, Q):
            out.append(alt(seq(x, Q), seq(P, y), seq(opt(Q), x)))
            out.append(seq(opt(x), opt_r(y), rep(alt(Q, P))))
            out.append(rep(alt(x, y, seq(x, y))))
            out.append(alt(rep(x), rep_r(alt(y, Q, P))))
    return [(n, {}) for n in out if not direct(n)]


@lru_cache(None)
def same(size=0):
    return [g for g in picked() if len(letters(g)) == 1]


@lru_cache(None)
def mixed(size=0):
    return [g for g in picked() if len(letters(g)) > 1]


def letters(g):
    return {x for b in [g[0]] + list(g[1].values()) for x in G.walk(b) if x[0] == 'lit'}


FAMILIES = {'plain': plain, 'one': one, 'recursive': recursive,
            'same': same, 'mixed': mixed, 'preds': preds,
            'related': lru_cache(None)(G.related)}


def harness(ctx):
    p = ctx.params
    g = ctx.pick('grammar', FAMILIES[p['family']](p['size'])[p['from']:p['to']])
    mode = ctx.pick('mode', ['leaves', 'all', 'nodes'])
    n = ctx.choice('tokens', p['max']) + 1
    tokens = G.sym_tokens(ctx, n, p.get('domain'))
    predicates = None
    if any(x[0] == 'pred' for b in [g[0]] + list(g[1].values()) for x in G.walk(b)):
        truth = [[ctx.flag('p%d_%d' % (k, i)) for i in range(n)] for k in range(2)]
        predicates = [G.TablePredicate(tokens, row) for row in truth]

        def test(node, i):
            return ctx.concrete(truth[node[1]][i])
    else:
        def test(node, i):
            return ctx.concrete(ctx.eq(tokens[i].value, node[1]))
    accept = None
    if p['family'] == 'related':
        # the first derivation in which the words agree
        relation = G.PairRelation('r', ctx)
        g = G.bind(g, {'r': relation})
        tokens = G.morph_tokens([t.value for t in tokens])
        accept = relation.accepts
    text = G.show_grammar(g)
    marked = Marked(g, mode)
    parser = G.Parser(G.build(marked.grammar, predicates, methods=p.get('before')), tokenizer=G.IdTokenizer())
    if p.get('before'):
        # another text first
        list(parser.extract(list(reversed(tokens))))
    oracle = G.Leftmost(marked.grammar, test, n)
    match = parser.match(tokens)
    expected = oracle(0, n, accept)
    ctx.observe('grammar', text)
    if match is None:
        ctx.check(expected is None, 'no match of %s' % text)
        ctx.cover('rejected')
    else:
        ctx.check(expected is not None, 'match of %s' % text)
        got = value(match.fact)
        ctx.observe('fact', got)
        ctx.check(got == marked.expected(expected), 'derivation of %s: got %s, expected %s' % (
            text, got, marked.expected(expected)))
        ctx.cover('accepted')
    index = {t.span.start: i for i, t in enumerate(tokens)}
    for m in parser.findall(tokens):
        i = index[m.tokens[0].span.start]
        j = i + len(m.tokens)
        d = oracle(i, j, accept)
        ctx.check(d is not None, 'match of tokens %d..%d of %s' % (i, j, text))
        got = value(m.fact)
        ctx.check(got == marked.expected(d), 'derivation of tokens %d..%d of %s: got %s, expected %s' % (
            i, j, text, got, marked.expected(d)))
        ctx.cover('found')


PLAN = {
    'quick': {'plain': [(3, 3, 20), (4, 3, 30)],
              'one': [(3, 4, 10), (4, 4, 20), (5, 4, 30)],
              'recursive': [(3, 4, 10), (4, 3, 20), (5, 4, 20)],
              'related': [(3, 4, 2), (4, 3, 20), (5, 3, 40)],
              'same': [(0, 4, 20)], 'mixed': [(0, 3, 5)], 'preds': [(0, 3, 2)]},
    'thorough': {'plain': [(3, 5, 20), (4, 4, 30), (5, 3, 40)],
                 'one': [(3, 6, 10), (4, 6, 20), (5, 5, 20), (6, 4, 60)],
                 'recursive': [(3, 6, 10), (4, 5, 20), (5, 5, 20)],
                 'related': [(3, 5, 1), (4, 5, 10), (5, 4, 40)],
                 'same': [(0, 6, 10)], 'mixed': [(0, 5, 2)], 'preds': [(0, 4, 1)]},
}


def shards(tier):
    out = []
    for family, rows in PLAN[tier].items():
        for size, top, chunk in rows:
            for a, b in G.chunks(FAMILIES[family](size), chunk):
                params = {'family': family, 'size': size, 'from': a, 'to': b, 'max': top,
                          'before': a % 2}
                if family in ('one', 'recursive', 'same', 'related'):
                    params['domain'] = 'a'
                out.append(('%s-%d-%d' % (family, size, a), params))
    out.sort(key=lambda s: -s[1]['size'] * 10 - s[1]['max'])
    return out


BOUNDS = {
    tier: '; '.join('%s grammars of %s' % (family, ', '.join(
        'size %d (%d) on 1..%d tokens' % (size, len(FAMILIES[family](size)), top)
        for size, top, _ in rows)) for family, rows in PLAN[tier].items())
    + '. Quantifiers are not nested directly in each other; related: any pair of words agrees or not. Derivations are observed as facts: an '
      'interpretation on every literal, on every node, or on every node that is not a literal'
    for tier in PLAN
}
COVER = {'all': ['accepted', 'rejected', 'found']}
ASSUMPTIONS = [
    'tokens are fed by a tokenizer that passes them through, each value is one symbolic code point '
    '(only "a" for the families one, recursive, same and related, where the grammar alone is ambiguous)',
    'derivations that differ only in parts that match nothing are not told apart',
    'independence of hashing: replays run with different hash seeds',
]
