"""C04: optional() and repeatable(min, max) match exactly the allowed counts."""
import itertools

from . import grammar as G
from .grammar import A, B, EMPTY, seq, alt, opt, rep, named
from yargy import rule
from yargy.predicates import eq

QUICK = [('opt', False), ('opt', True), ('rep', None, None, False), ('rep', None, None, True),
         ('rep', 2, None, False), ('rep', 3, None, True), ('rep', None, 2, False), ('rep', None, 3, True),
         ('rep', 2, 3, False), ('rep', 2, 2, True), ('rep', 1, 2, False), ('rep', 1, None, False),
         ('rep', None, 1, False)]
SMALL = [('opt', False), ('opt', True), ('rep', None, None, False), ('rep', None, None, True),
         ('rep', 2, None, False), ('rep', None, 2, True), ('rep', 2, 3, False)]


def apply(q, node):
    if q[0] == 'opt':
        return opt(node, q[1])
    return rep(node, q[1], q[2], q[3])


def stacks(depth, items):
    return list(itertools.product(items, repeat=depth))


BODIES = {
    'a': lambda: A,
    'ab': lambda: seq(A, B),
    'a|bb': lambda: alt(A, seq(B, B)),
    'a|aa': lambda: alt(A, seq(A, A)),
    'named': lambda: named(A, 'n'),
    'seq': lambda: seq(alt(A, B)),
}
CONTEXTS = {
    'alone': lambda x: x,
    'before': lambda x: seq(x, B),
    'after': lambda x: seq(A, x),
    'same': lambda x: seq(x, A),
    'or': lambda x: alt(B, x),
    'named': lambda x: seq(named(x, 'm'), opt(B)),
}


def min_over_rep(node):
    """A bound of at least 2 directly over an unbounded repetition (known finding)."""
    return node[0] == 'rep' and (node[2] or 1) > 1 and node[1][0] == 'rep' \
        and node[1][2] is None and node[1][3] is None


def has(node, f):
    return any(f(x) for x in G.walk(node))


def drop_bound(node):
    """The grammar as the known finding reads it."""
    kind = node[0]
    if kind in ('seq', 'alt'):
        items = tuple(drop_bound(c) for c in node[1])
        return (kind, items) + node[2:]
    if kind in ('opt', 'rep', 'named'):
        if min_over_rep(node):
            return drop_bound(node[1])
        # other quantifiers in between fold into one repetition
        return (kind, drop_bound(node[1])) + node[2:]
    return node


def check_match(ctx, g, n, domain=None):
    text = G.show_grammar(g)
    tokens = G.sym_tokens(ctx, n, domain)
    test = G.value_test(ctx, tokens)
    match = G.Parser(G.build(g, methods=n % 2), tokenizer=G.IdTokenizer()).match(tokens)
    ctx.observe('grammar', text)
    ctx.observe('match', match and [t.value for t in match.tokens])
    expected = G.Language(ctx, g, test, n)(0, n) if n else False
    if has(g[0], min_over_rep):
        # suspend the check where the answer is that of the known finding
        wrong = drop_bound(g[0])
        while has(wrong, min_over_rep):
            wrong = drop_bound(wrong)
        w = G.Language(ctx, (wrong, {}), test, n)(0, n) if n else False
        if ctx.concrete(w) == (match is not None) and ctx.concrete(expected) != (match is not None):
            ctx.key = 'min bound over repeatable()'
    if match is None:
        ctx.cover('rejected')
        ctx.check(ctx.not_(expected), 'allowed count not matched by %s' % text)
    else:
        ctx.cover('accepted')
        ctx.check(expected, 'count not allowed by %s' % text)
        ctx.check(len(match.tokens) == n, 'match does not cover the text')


def harness(ctx):
    """Quantifiers nested directly in each other."""
    p = ctx.params
    items = QUICK if p['items'] == 'quick' else SMALL
    stack = ctx.pick('stack', stacks(p['depth'], items)[p['from']:p['to']])
    body = ctx.pick('body', p['bodies'])
    context = ctx.pick('context', p['contexts'])
    node = BODIES[body]()
    for q in stack:
        node = apply(q, node)
    n = ctx.choice('tokens', p['max'] + 1)
    check_match(ctx, (CONTEXTS[context](node), {}), n)


def siblings(ctx):
    """Quantified items next to each other, one body object used by both."""
    p = ctx.params
    first, second = ctx.pick('quantifiers', stacks(2, QUICK)[p['from']:p['to']])
    shared = ctx.choice('shared', 2)
    x = A if not shared else ctx.pick('body', [alt(A, B), seq(A, B)])
    node = seq(apply(first, x), apply(second, x))
    kind = ctx.choice('kind', 3)
    if kind == 1:
        node = seq(named(node, 'n'), B)
    elif kind == 2:
        node = alt(seq(apply(second, x), B), node)
    n = ctx.choice('tokens', p['max'] + 1)
    check_match(ctx, (node, {}), n)


def bounds(ctx):
    """Bounds as numbers: rejected or obeyed."""
    top = ctx.params['top']
    lo = ctx.int('min', -top, top) if ctx.choice('has min', 2) else None
    hi = ctx.int('max', -top, top) if ctx.choice('has max', 2) else None
    reverse = bool(ctx.choice('reverse', 2))
    predicate = ctx.choice('predicate', 2)
    kw = {}
    if lo is not None:
        kw['min'] = lo
    if hi is not None:
        kw['max'] = hi
    if reverse:
        kw['reverse'] = True
    wrong = []
    if lo is not None:
        wrong.append(lo < 1)
    if hi is not None:
        wrong.append(hi < 1)
    if lo is not None and hi is not None:
        wrong.append(hi < lo)
    item = eq('a') if predicate else rule('a')
    r = None

    def make():
        return rule(item.repeatable(**kw), 'b')
    try:
        r = make()
    except ValueError:
        ctx.cover('bounds rejected')
        ctx.observe('error', True)
        ctx.check(ctx.or_(*wrong), 'bounds %s, %s rejected', lo, hi)
        return
    ctx.check(ctx.not_(ctx.or_(*wrong)), 'bounds %s, %s not rejected', lo, hi)
    parser = G.Parser(r, tokenizer=G.IdTokenizer())
    n = ctx.choice('tokens', top + 3)
    tokens = [G.Token('a', G.token_span(i), 'OTHER') for i in range(n)]
    tokens.append(G.Token('b', G.token_span(n), 'OTHER'))
    match = parser.match(tokens)
    ctx.observe('match', match is not None)
    allowed = [n >= (1 if lo is None else lo)]
    if hi is not None:
        allowed.append(n <= hi)
    if match is None:
        ctx.check(ctx.not_(ctx.and_(*allowed)), '%d items not matched by bounds %s, %s' % (n, '%s', '%s'), lo, hi)
        ctx.cover('count out of bounds')
    else:
        ctx.check(ctx.and_(*allowed), '%d items matched by bounds %s, %s' % (n, '%s', '%s'), lo, hi)
        ctx.cover('count in bounds')


def plan(tier):
    if tier == 'quick':
        return [
            (1, 'quick', list(BODIES), list(CONTEXTS), 5, 1),
            (2, 'quick', ['a'], ['alone', 'before', 'same'], 4, 10),
            (2, 'quick', ['a|bb'], ['same'], 3, 20),
            (3, 'small', ['a'], ['alone'], 5, 30),
        ], (4, 10), 5
    return [
        (1, 'quick', list(BODIES), list(CONTEXTS), 7, 1),
        (2, 'quick', list(BODIES), list(CONTEXTS), 5, 3),
        (3, 'quick', ['a', 'ab'], ['alone', 'same'], 6, 40),
        (4, 'small', ['a'], ['alone', 'after'], 7, 100),
    ], (6, 4), 8


def shards(tier):
    rows, (top, chunk), bound = plan(tier)
    out = []
    for depth, items, bodies, contexts, size, step in rows:
        total = stacks(depth, QUICK if items == 'quick' else SMALL)
        for a, b in G.chunks(total, step):
            out.append(('nest-%d-%s-%d' % (depth, '_'.join(bodies), a), {
                'depth': depth, 'items': items, 'bodies': bodies, 'contexts': contexts,
                'max': size, 'from': a, 'to': b}))
    for a, b in G.chunks(stacks(2, QUICK), chunk):
        out.append(('siblings-%d' % a, {'h': 'siblings', 'max': top, 'from': a, 'to': b}))
    out.append(('bounds', {'h': 'bounds', 'top': bound}))
    return out


def describe(tier):
    rows, (top, _), bound = plan(tier)
    return '; '.join(
        '%d nested quantifier%s out of %d over %d bodies in %d contexts, 0..%d tokens' % (
            d, 's' if d > 1 else '', len(QUICK if i == 'quick' else SMALL), len(b), len(c), m)
        for d, i, b, c, m, _ in rows
    ) + '; all pairs of quantified neighbours, 0..%d tokens; bounds any integers of -%d..%d on 0..%d items' % (
        top, bound, bound, bound + 2)


BOUNDS = {tier: describe(tier) for tier in ('quick', 'thorough')}
COVER = {'all': ['accepted', 'rejected', 'bounds rejected', 'count in bounds', 'count out of bounds']}
ASSUMPTIONS = [
    'tokens are fed by a tokenizer that passes them through, each value is one symbolic code point',
    'quantified bodies that can be empty by themselves are excluded',
]
