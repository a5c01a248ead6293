"""C06: annotations stay exactly where the user attached them."""
import itertools
from functools import lru_cache

from yargy import or_, rule
from yargy.pipelines import pipeline
from yargy.morph import Form, Grams
from yargy.token import MorphToken

from . import grammar as G
from .grammar import A, B, EMPTY, seq, alt, opt, rep, named, ref, interp, rel

# relations: markers replaced by fresh recording ones on every path
R1, R2 = 'r1', 'r2'


def pipe(*lines):
    return ('pipe', 'pipeline', list(lines), pipeline)


class Fresh(object):
    """Numbers annotations, so that each one has its own label (same: they all have
    the same one, also given to unnamed rules)."""

    def __init__(self, same=False):
        self.same = same
        self.count = 0

    def __call__(self, w, x):
        self.count += 1
        k = 1 if self.same else self.count
        if w == '.':
            return x
        if w == 'n':
            return named(x, 'n%d' % k)
        if w == 'i':
            return interp(x, G.Rec('i%d' % k))
        if w in (R1, R2):
            return rel(x, w)
        if w == '?':
            return opt(x)
        if w == '?r':
            return opt(x, True)
        if w == '+':
            return rep(x)
        if w == '+r':
            return rep(x, reverse=True)
        if w == '2':
            return rep(x, max=2)
        if w == '2-':
            return rep(x, min=2)
        if w == '12':
            return rep(x, 1, 2)
        if w == 's':
            return seq(x)
        raise ValueError(w)

    def stack(self, ws, x):
        for w in reversed(ws):
            x = self(w, x)
        return x


ANNOTATIONS = ['n', 'i', R1, R2]
QUANTIFIERS = ['?', '+', '2', '2-', '12', '?r', '+r']

BODIES = {
    'a': lambda: A,
    'ab': lambda: seq(A, B),
    'a|ab': lambda: alt(A, seq(A, B)),
    'a?b': lambda: seq(opt(A), B),
    'pipe': lambda: pipe('a', 'a b'),
    'alt': lambda: alt(A, B),
    'e|a': lambda: alt(EMPTY, A),
    'pred': lambda: ('pred', 0),
}


def stacks(depth, items):
    """Stacks of annotations and quantifiers, quantifiers not directly in each other."""
    for ws in itertools.product(items, repeat=depth):
        if any(a in QUANTIFIERS and b in QUANTIFIERS for a, b in zip(ws, ws[1:])):
            continue
        yield ws


@lru_cache(None)
def nest(depth, level):
    """Annotations and quantifiers nested on one rule."""
    items = ANNOTATIONS + (QUANTIFIERS if level else QUANTIFIERS[:3]) + (['s'] if level else [])
    out = []
    for ws in stacks(depth, items):
        for body in BODIES:
            for context in (0, 1):
                out.append((ws, body, context))
    return out[::3] if depth == 3 and not level else out


def make_nest(spec, f):
    ws, body, context = spec
    x = f.stack(ws, BODIES[body]())
    if context:
        x = f('i', seq(x, f(R1, f('n', B))))
    return x, {}


WS = ['.', 'n', 'i', R1, '+', '?', 'ni', 'in', 'ii', 'nn', 'rr', 'rq', 'i+', '+i', 'n?', 'ri', 'i2', '2n']


def wrap(f, ws, x):
    return f.stack([{'r': R1, 'q': R2}.get(w, w) for w in ws] if ws != R1 else [R1], x)


SHAPES = {
    'seq': lambda x, y, z: seq(x, y),
    'seq3': lambda x, y, z: seq(x, y, z),
    'alt': lambda x, y, z: alt(seq(x, B), y),
    'mix': lambda x, y, z: seq(alt(x, seq(B, y)), opt(z)),
}


@lru_cache(None)
def shared(level):
    """One rule object X used in two or three places, annotated on its own in each."""
    out = []
    thirds = ['.', 'i'] if level < 2 else ['.', 'i', 'n', R1, '+']
    for base in ['.', 'n', 'i', R1, '+', '2'][:6 if level else 4]:
        for body in (BODIES if level else ['a', 'ab', 'pipe', 'alt', 'a?b']):
            for a, b in itertools.product(WS if level > 1 else WS[:9], repeat=2):
                for shape in SHAPES:
                    cs = thirds if shape in ('seq3', 'mix') else ['.']
                    for c in cs:
                        out.append((base, body, (a, b, c), shape))
    if not level:
        # a deterministic part of it
        out = out[::11]
    return out


def make_shared(spec, f):
    base, body, (a, b, c), shape = spec
    x = wrap(f, base, BODIES[body]())
    return f('i', SHAPES[shape](wrap(f, a, x), wrap(f, b, x), wrap(f, c, x))), {}


@lru_cache(None)
def recursive(level):
    out = []
    ws = ['.', 'n', 'i', R1, 'in', 'ni', 'ii', '?', 's'] if level else ['.', 'n', 'i', R1, '?']
    for body in range(6):
        for inner in ws:
            for outer in ws:
                for whole in (ws[:5] if level else ['.', 'n', 'i']):
                    for root in range(6):
                        out.append((body, inner, outer, whole, root))
    return out if level else out[::4] + out[4::6]


def make_recursive(spec, f):
    body, inner, outer, whole, root = spec
    E, F = ref('E'), ref('F')
    if inner == '?' and body in (2, 3):
        inner = '.'
    x = wrap(f, inner, E)
    bodies = {
        0: lambda: alt(A, seq(B, x)),
        1: lambda: alt(seq(A, opt(x))),
        2: lambda: alt(A, seq(x, B)),
        3: lambda: alt(seq(x, x), A) if inner != '.' else alt(seq(E, E), A),
        4: lambda: seq(B, alt(A, x)),
        5: lambda: alt(seq(B, F), A),
    }
    core = bodies[body]()
    if root == 5:
        core = f('i', core)
    defs = {'E': wrap(f, whole, core)}
    if body == 5:
        defs['F'] = alt(seq(B, x), B)
    if root > 3:
        # the definition of the forward is the root itself, or shares it
        return core if outer == '.' else wrap(f, outer, core), defs
    if root == 0:
        top = wrap(f, outer, E)
    elif root == 1:
        top = seq(wrap(f, outer, E), f('n', E))
    elif root == 2:
        top = alt(seq(B, E), wrap(f, outer, E))
    else:
        y = f('i', E)
        top = seq(y, wrap(f, outer, y))
    if top[0] != 'int':
        top = f('i', top) if root != 0 or outer != '.' else top
    return top, defs


FAMILIES = {'nest1': (lambda level: nest(1, level), make_nest),
            'nest2': (lambda level: nest(2, level), make_nest),
            'nest3': (lambda level: nest(3, level), make_nest),
            'nest4': (lambda level: nest(4, level), make_nest),
            'shared': (shared, make_shared), 'recursive': (recursive, make_recursive)}


def usable(g):
    return not G.degenerate(g)


def harness(ctx):
    p = ctx.params
    enumerate_, make = FAMILIES[p['family']]
    spec = ctx.pick('grammar', enumerate_(p['level'])[p['from']:p['to']])
    g = make(spec, Fresh(p.get('same')))
    if not usable(g):
        return
    relations = {k: G.RecRelation(k) for k in (R1, R2)}
    g = G.bind(g, relations)
    text = G.show_grammar(g)
    n = ctx.choice('tokens', p['max']) + 1
    tokens = [
        MorphToken(ctx.char('t%d' % i), G.token_span(i), 'RU', [Form(str(i), Grams({'NOUN'}))])
        for i in range(n)
    ]
    truth = [ctx.flag('p%d' % i) for i in range(n)]
    predicates = [G.TablePredicate(tokens, truth)]

    def test(node, i):
        if node[0] == 'pred':
            return ctx.concrete(truth[i])
        return ctx.concrete(ctx.eq(tokens[i].value, node[2] if node[0] == 'word' else node[1]))
    r = G.build(g, predicates, methods=p.get('methods'))
    if p.get('decoy'):
        # other annotated uses of the same rule objects
        for other in G.annotate(r, None)[p['from'] // 10 % 3::3]:
            G.Parser(or_(other, rule('decoy')), tokenizer=G.IdTokenizer())
    parser = G.Parser(r, tokenizer=G.IdTokenizer())
    d = G.Leftmost(g, test, n)(0, n)
    match = parser.match(tokens)
    ctx.observe('grammar', text)
    ctx.check((match is None) == (d is None), 'match of %s' % text)
    if match is None:
        ctx.cover('rejected')
        return
    index = {t.span.start: i for i, t in enumerate(tokens)}
    names = G.got_names(match, index)
    ctx.observe('names', names)
    ctx.check(names == G.expected_names(d), 'names in %s: %s, expected %s' % (
        text, names, G.expected_names(d)))
    if names:
        ctx.cover('names')
    for k, relation in relations.items():
        pairs = {frozenset(map(int, _)) for _ in relation.pairs}
        expected = G.expected_pairs(d, relation)
        ctx.check(pairs == expected, 'words related in %s: %s, expected %s' % (
            text, sorted(map(sorted, pairs)), sorted(map(sorted, expected))))
        if pairs:
            ctx.cover('relations')
    root = d
    while root.node[0] in ('named', 'rel', 'ref') and root.children:
        root = root.children[0]
    if root.node[0] == 'int':
        if root is not d:
            # annotations around the interpretation of the root
            pass
        try:
            fact = match.fact
        except ValueError:
            # the root rule is another one, wrapped around
            ctx.check(root is not d, 'no interpretation of %s' % text)
            ctx.cover('wrapped root')
            return
        expected = G.expected_interpretation(root, lambda i: tokens[i].span.start)
        ctx.observe('fact', fact)
        ctx.check(fact == expected, 'interpretation in %s: %s, expected %s' % (text, fact, expected))
        ctx.cover('fact')


PLAN = {
    # family, level, tokens, chunk
    'quick': [('nest1', 1, 3, 10), ('nest2', 1, 3, 20), ('nest3', 0, 2, 60),
              ('shared', 0, 3, 15), ('recursive', 0, 3, 10)],
    'thorough': [('nest1', 1, 5, 5), ('nest2', 1, 4, 15), ('nest3', 1, 3, 60), ('nest4', 0, 2, 100),
                 ('shared', 1, 4, 20), ('recursive', 1, 4, 20)],
}


def shards(tier):
    out = []
    for family, level, top, chunk in PLAN[tier]:
        items = FAMILIES[family][0](level)
        for k, (a, b) in enumerate(G.chunks(items, chunk)):
            out.append(('%s-%d' % (family, a), {
                'family': family, 'level': level, 'from': a, 'to': b, 'max': top, 'decoy': k % 2, 'methods': k % 3 == 1}))
            if tier == 'thorough' or k % 4 == 2:
                out.append(('%s-%d-same' % (family, a), {
                    'family': family, 'level': level, 'from': a, 'to': b, 'max': min(top, 3), 'same': True}))
    return out


BOUNDS = {
    tier: '; '.join('%s: %d grammars on 1..%d tokens' % (
        family, len(FAMILIES[family][0](level)), top) for family, level, top, _ in PLAN[tier])
    + '. nestK: K annotations and quantifiers on one rule; shared: one rule object in 2 or 3 places with its '
      'own annotations; recursive: annotations on uses and definitions of forward. All labels different; and with '
      'all of them equal (a part of the grammars in the quick tier, up to 3 tokens)'
    for tier in PLAN
}
COVER = {'all': ['rejected', 'names', 'relations', 'fact']}
ASSUMPTIONS = [
    'tokens are fed by a tokenizer that passes them through, each value is one symbolic code point',
    'annotations are observed by recording interpretations and relations and by names in the tree of the match',
]
