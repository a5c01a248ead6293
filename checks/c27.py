"""C27: the BNF shown for a rule is the grammar that is parsed."""
from functools import lru_cache

from yargy import Parser

from . import grammar as G
from .c01 import plain, recursive, shared, mutual
from .grammar import A, B, seq, alt, opt, rep, named, ref


def name_parts(g):
    """Different names on every other part of a grammar."""
    count = [0]
    memo = {}

    def f(node):
        if id(node) not in memo:
            memo[id(node)] = node, make(node)
        return memo[id(node)][1]

    def make(node):
        kind = node[0]
        if kind in ('seq', 'alt'):
            out = (kind, tuple(f(c) for c in node[1])) + node[2:]
        elif kind in ('opt', 'rep', 'named'):
            out = (kind, f(node[1])) + node[2:]
        else:
            out = node
        count[0] += 1
        if kind != 'named' and count[0] % 2:
            out = named(out, 'N%d' % count[0])
        return out
    root, defs = g
    return f(root), {k: f(v) for k, v in defs.items()}


@lru_cache(None)
def bounded(size=0):
    """Counts and reversed quantifiers."""
    out = []
    X = seq(A, opt(B))
    for x in (A, X, alt(A, seq(B, A))):
        for lo, hi in [(None, 2), (2, None), (2, 3), (1, 3), (3, 3), (None, 1)]:
            for r in (False, True):
                q = rep(x, lo, hi, r)
                out.extend([q, opt(q), seq(q, B), alt(q, seq(B, q)), seq(named(q, 'Q'), opt(q))])
        out.extend([opt(x, True), seq(opt(x, True), rep(x, reverse=True)), named(rep(named(x, 'X')), 'Y'),
                    named(named(x, 'X'), 'Y'), seq(named(x, 'X'), named(x, 'Y'), x)])
    E = ref('E')
    return [(n, {}) for n in out] + [
        (named(E, 'Y'), {'E': named(alt(A, seq(B, E)), 'X')}),
        (seq(named(E, 'Y'), E), {'E': named(alt(A, seq(B, named(E, 'Z'))), 'X')}),
        (rep(E, 2, 3), {'E': alt(A, seq(B, E))}),
    ]


@lru_cache(None)
def named_plain(size):
    return [g for g in map(name_parts, plain(size) + recursive(size)) if not G.degenerate(g)]


FAMILIES = {'plain': plain, 'recursive': recursive, 'shared': shared, 'mutual': lambda size: mutual(),
            'bounded': bounded, 'named': named_plain}


class Malformed(Exception):
    pass


def split_terms(text):
    """Terms and | of the right side."""
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if c == ' ':
            i += 1
            continue
        start = i
        if c == '^':
            i += 1
        if text[i:i + 1] == "'":
            i = text.index("'", i + 1) + 1
        else:
            while i < len(text) and text[i] != ' ':
                i += 1
        out.append(text[start:i])
    return out


def read(lines):
    """Lines of BNF as rules: [(name, [alternatives])], an alternative is a list of terms."""
    rules = []
    for line in lines:
        if ' -> ' not in line:
            raise Malformed(line)
        name, right = line.split(' -> ', 1)
        alternatives = [[]]
        for term in split_terms(right):
            if term == '|':
                alternatives.append([])
            else:
                alternatives[-1].append(term)
        if not all(alternatives):
            raise Malformed(line)
        rules.append((name, alternatives))
    return rules


def as_grammar(rules):
    def node(term):
        term = term.lstrip('^')
        if term[:1] == "'":
            return G.lit(term[1:-1])
        return ref(term)

    def production(terms):
        return G.EMPTY if terms == ['e'] else seq(*map(node, terms))
    return ref(rules[0][0]), {name: alt(*map(production, xs)) for name, xs in rules}


def lines_of(bnf):
    return [str(_) for _ in bnf.source]


def harness(ctx):
    p = ctx.params
    g = ctx.pick('grammar', FAMILIES[p['family']](p['size'])[p['from']:p['to']])
    text = G.show_grammar(g)
    names = [x[2] for body in [g[0]] + list(g[1].values()) for x in G.walk(body) if x[0] == 'named']
    built = G.build(g)
    form = ctx.choice('form', 2)
    bnf = Parser(built, tokenizer=G.IdTokenizer()).rule.as_bnf if form else built.normalized.as_bnf
    lines = lines_of(bnf)
    ctx.observe('lines', lines)
    try:
        rules = read(lines)
    except (Malformed, ValueError):
        ctx.fail('bnf of %s is malformed: %r' % (text, lines))
        return
    defined = [name for name, _ in rules]
    ctx.check(len(set(defined)) == len(defined), 'bnf of %s: a name is defined twice: %r' % (text, lines))
    used = {t.lstrip('^') for _, xs in rules for ts in xs for t in ts} - {'e'}
    used = {t for t in used if t[:1] != "'"}
    ctx.check(used <= set(defined), 'bnf of %s: %s is not defined' % (text, sorted(used - set(defined))))
    ctx.check(set(defined) <= used | {defined[0]}, 'bnf of %s: %s is not used: %r' % (
        text, sorted(set(defined) - used - {defined[0]}), lines))
    ctx.check({x for x in defined if not G.is_auto(x)} == set(names), 'bnf of %s: names %r' % (text, lines))
    shown = as_grammar(rules)
    n = ctx.choice('tokens', p['max'] + 1)
    tokens = G.sym_tokens(ctx, n)
    test = G.value_test(ctx, tokens)
    expected = G.Language(ctx, g, test, n)
    got = G.Language(ctx, shown, test, n)
    parts = [(g[0], shown[0])]
    for body in [g[0]] + list(g[1].values()):
        for x in G.walk(body):
            if x[0] == 'named':
                parts.append((x, ref(x[2])))
    for mine, theirs in parts:
        a, b = expected(0, n, mine), got(0, n, theirs)
        ctx.check(ctx.implies(a, b), 'bnf of %s: a sentence of %s is not one of %r' % (text, G.show(mine), lines))
        ctx.check(ctx.implies(b, a), 'bnf of %s: not a sentence of %s but one of %r' % (text, G.show(mine), lines))
    ctx.cover('names' if names else 'no names')
    if any(ts == ['e'] for _, xs in rules for ts in xs):
        ctx.cover('empty')
    if n:
        match = Parser(built, tokenizer=G.IdTokenizer()).match(tokens)
        if match is None:
            ctx.check(ctx.not_(got(0, n, shown[0])), 'sentence of the bnf of %s is not matched' % text)
        else:
            ctx.check(got(0, n, shown[0]), 'not a sentence of the bnf of %s is matched' % text)
            ctx.cover('matched')


def words(ctx):
    """Literals of any characters (quotes excluded) are shown as they are; main items are marked."""
    from yargy import rule
    from yargy.predicates import eq
    from yargy.relations import main
    k = ctx.choice('items', ctx.params['items']) + 1
    marked = ctx.choice('main', k + 1)   # the last: none
    items, expected = [], []
    for i in range(k):
        n = ctx.choice('length %d' % i, 2) + 1
        word = ctx.string('w%d' % i, n, ctx.params['domain'])
        item = eq(word)
        if i == marked:
            item = main(item)
        items.append(item)
        expected.append(('^' if 0 < i == marked else '') + "'" + word + "'")
    name = ctx.pick('name', [None, 'X', 'имя'])
    r = rule(*items)
    if name:
        r = r.named(name)
    lines = list(r.normalized.as_bnf.source)
    ctx.check(len(lines) == 1, '%d lines' % len(lines))
    line = (name or 'R0') + ' -> '
    for i, x in enumerate(expected):
        line = line + (' ' if i else '') + x
    ctx.check_equal(lines[0], line, 'bnf of words')
    ctx.cover('words')


PLAN = {
    'quick': {'plain': [(2, 3, 20), (3, 3, 20), (4, 3, 30), (5, 3, 40)],
              'recursive': [(3, 3, 10), (4, 3, 20), (5, 3, 40)],
              'shared': [(3, 3, 20), (4, 3, 40)],
              'named': [(3, 3, 20), (4, 3, 40)],
              'mutual': [(0, 4, 4)], 'bounded': [(0, 3, 20)]},
    'thorough': {'plain': [(2, 5, 20), (3, 5, 20), (4, 5, 30), (5, 4, 40), (6, 4, 60)],
                 'recursive': [(3, 5, 10), (4, 4, 20), (5, 4, 40), (6, 4, 60)],
                 'shared': [(3, 5, 20), (4, 4, 40), (5, 4, 80)],
                 'named': [(3, 5, 20), (4, 4, 40), (5, 4, 60)],
                 'mutual': [(0, 6, 2)], 'bounded': [(0, 6, 10)]},
}
DOMAIN = 'a |>^-eR0.'


def shards(tier):
    out = []
    for family, rows in PLAN[tier].items():
        for size, top, chunk in rows:
            for a, b in G.chunks(FAMILIES[family](size), chunk):
                out.append(('%s-%d-%d' % (family, size, a), {
                    'family': family, 'size': size, 'from': a, 'to': b, 'max': top}))
    out.append(('words', {'h': 'words', 'items': 3 if tier == 'quick' else 4, 'domain': DOMAIN}))
    out.append(('words-any', {'h': 'words', 'items': 1 if tier == 'quick' else 2, 'domain': None}))
    return out


BOUNDS = {
    tier: '; '.join('%s grammars of %s' % (family, ', '.join(
        'size %d (%d) on 0..%d tokens' % (size, len(FAMILIES[family](size)), top)
        for size, top, _ in rows)) for family, rows in PLAN[tier].items())
    + '. Each token is any one code point. Words of up to 2 characters, any or of "%s", in rules of up to %d' % (
        DOMAIN, 3 if tier == 'quick' else 4)
    for tier in PLAN
}
COVER = {'all': ['names', 'no names', 'empty', 'matched', 'words']}
ASSUMPTIONS = [
    'names given by the user are different and not of the form R0, R1, ...; words have no quotes',
    'rules without pipelines, interpretations and relations (those change the labels of rules)',
]
