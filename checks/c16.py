"""C16: normalizers compose as documented."""
import itertools

from yargy.morph import Form, Grams
from yargy.pipelines import pipeline, caseless_pipeline
from yargy.predicates import gram
from yargy.token import MorphToken, MorphTagToken, Token, TagToken
from yargy.span import Span

from . import grammar as G
from .grammar import seq, alt, opt, rep, named, rel, lit
from . import facts
from .facts import F, attr, norm, World
from .c13 import Table

W, P, N = ('pred', 0), ('pred', 1), ('pred', 2)   # any word, some words, gram('NOUN')
LINES = ['a', 'a b', 'b']


def f(value):
    return ('f', value)


def g(value):
    return ('g', value)


def nothing(value):
    return None


def empty(value):
    return ''


def pipe(kind=pipeline):
    return ('pipe', kind.__name__, LINES, kind)


CONTENTS = {
    'w': lambda: W,
    'ww': lambda: seq(W, W),
    'www': lambda: seq(W, W, W),
    'w+': lambda: rep(W),
    'p?w': lambda: seq(opt(P), W),
    'named': lambda: named(seq(seq(W), opt(W)), 'part'),
    'ab': lambda: seq(lit('a'), W),
    'gram': lambda: N,
    'w gram': lambda: seq(W, N),
    'gram+': lambda: rep(N),
    'agree': lambda: seq(rel(N, 'r'), rel(N, 'r')),
    'agree w agree': lambda: seq(rel(W, 'r'), P, rel(N, 'r')),
    'pipe': lambda: pipe(),
    '(pipe)': lambda: named(seq(pipe()), 'part'),
    'pipe+': lambda: rep(pipe()),
    'pipe|ww': lambda: alt(pipe(), seq(W, W)),
    'w pipe': lambda: seq(W, pipe()),
    'pipe w': lambda: seq(pipe(), W),
    'pipe~': lambda: rel(pipe(), 'r'),
    'caseless': lambda: pipe(caseless_pipeline),
}
MORPH = ['gram', 'w gram', 'gram+', 'agree', 'agree w agree', 'pipe~']

GRAMS = frozenset({'plur', 'gent'})
# any of these
ASKED = ['nomn', 'gent', 'sing', 'plur', 'femn', 'NOUN']
CHAINS = [
    (), (('normalized',),), (('inflected', None),), (('inflected', GRAMS),), (('const', 'c'),), (('custom', f),),
    (('normalized',), ('custom', f)), (('inflected', None), ('custom', f)), (('inflected', GRAMS), ('custom', g)),
    (('custom', f), ('custom', g)), (('const', 0),), (('const', None),), (('custom', nothing), ('custom', g)),
    (('custom', empty), ('custom', g)), (('normalized',), ('custom', nothing)), (('custom', nothing),), (('custom', empty),),
    (('const', ''),),
]


def placements(x, ops):
    """The ways to write the same normalization of an attribute or of a whole match."""
    a = lambda x, *ops: F(attr('F.a', x, *ops))
    yield 'attribute', a(x, *ops)
    if ops:
        yield 'below', a(norm(x, *ops))
        yield 'repeatable', F(attr('F.r', norm(x, *ops)))
        yield 'root', norm(x, *ops)
        yield 'wrapped', a(named(seq(norm(x, *ops)), 'n'))
    yield 'root attribute', attr('F.a', x, *ops)
    if len(ops) > 1:
        yield 'split', a(norm(norm(x, *ops[:-1]), ops[-1]))
        yield 'split attribute', a(norm(x, *ops[:-1]), ops[-1])
        yield 'split root', norm(norm(x, *ops[:-1]), ops[-1])
    elif ops and ops[0][0] in ('custom', 'const'):
        yield 'over attribute', a(attr('F.b', x), *ops)
        yield 'over normalizer', a(norm(attr('F.b', x), *ops))
    if not ops:
        yield 'attributes', a(attr('F.b', x))


class Words(facts.Words):
    """Tokens whose forms have or do not have NOUN."""

    def __init__(self, ctx, n, kind, forms, pipe, inflected, distinct):
        self.ctx = ctx
        self.tokens = []
        self.gaps = []
        self.alive = []
        stop = 0
        for i in range(n):
            gap = ctx.flag('gap%d' % i)
            self.gaps.append(gap)
            start = stop + ctx.ite(gap, 3, 0)
            stop = start + 2
            value = ctx.char('t%d' % i, 'aAb' if pipe else ('ЯzQ1' if kind == 'plain' else None))
            span = Span(start, stop)
            if kind == 'morph':
                items = [
                    Form(chr(ord('k') + 3 * i + k) if distinct else ctx.char('n%d.%d' % (i, k)), Grams(ctx.set('g%d.%d' % (i, k), ['NOUN'])),
                         facts.Raw(ctx, 'w%d.%d' % (i, k), ctx.choice('inflected%d' % i, 2) if not k and inflected else True))
                    for k in range(forms)
                ]
                token = (MorphTagToken(value, span, 'RU', 'T', items) if i % 2 else MorphToken(value, span, 'RU', items))
            else:
                items = []
                token = TagToken(value, span, 'OTHER', 'T') if i % 2 else Token(value, span, 'OTHER')
            self.tokens.append(token)
            self.alive.append(list(items))
        self.kind = kind

    def normalized(self, ids):
        return self.join(ids, [
            self.alive[i][0].normalized if self.kind == 'morph' else self.tokens[i].value.lower() for i in ids])

    def inflected(self, ids, grams):
        out = []
        for i in ids:
            if self.kind == 'morph':
                form = self.alive[i][0]
                out.append(form.raw.inflection(grams) if form.raw.able else form.normalized)
            else:
                out.append(self.tokens[i].value.lower())
        return self.join(ids, out)


class Morph(object):
    def check_gram(self, gram):
        pass


def bind_relations(g, r):
    kind = g[0]
    if kind in ('seq', 'alt'):
        return (kind, tuple(bind_relations(c, r) for c in g[1])) + g[2:]
    if kind == 'rel':
        return rel(bind_relations(g[1], r), r)
    if kind in ('opt', 'rep', 'named', 'int'):
        return (kind, bind_relations(g[1], r)) + g[2:]
    return g


def narrow(ctx, words, d, relation):
    """Forms that survive; None when the parse is not returned."""
    for x in d.walk():
        if x.node == N:
            words.alive[x.i] = [_ for _ in words.alive[x.i] if ctx.concrete(ctx.member('NOUN', _.grams.values))]
    related = sorted({G.main_of(x) for x in d.walk() if x.node[0] == 'rel'})
    if len(related) == 2:
        i, j = related
        agree = {(a.normalized_id, b.normalized_id): ctx.concrete(relation.get(a.normalized_id, b.normalized_id))
                 for a in words.alive[i] for b in words.alive[j]}
        first = [a for a in words.alive[i] if any(agree[a.normalized_id, b.normalized_id] for b in words.alive[j])]
        second = [b for b in words.alive[j] if any(agree[a.normalized_id, b.normalized_id] for a in words.alive[i])]
        if not first:
            return False
        words.alive[i], words.alive[j] = first, second
    return True


class Agreement(Table):
    """Forms by their number, their normal forms are symbolic."""

    def __call__(self, form, other):
        return self.get(form.normalized_id, other.normalized_id)


def harness(ctx):
    p = ctx.params
    content = p['content']
    kind = p['kind']
    if p.get('asked'):
        grams = frozenset(_ for _ in ASKED if ctx.choice('asks ' + _, 2))
        if not grams:
            return
        ops = (('inflected', grams),) + ctx.pick('normalizers', [(), (('custom', f),)])
    else:
        ops = ctx.pick('normalizers', CHAINS[1:4] if p['few'] else CHAINS)
    x = CONTENTS[content]()
    ways = list(placements(x, ops))
    way, g = ctx.pick('placement', ways)
    n = ctx.choice('tokens', p['max']) + 1
    world = World()
    words = Words(ctx, n, kind, p['forms'], 'pipe' in content or content in ('caseless', 'ab'),
                  any(_[0] == 'inflected' for _ in ops), 'agree' in content)
    count = itertools.count()
    for token in words.tokens:
        for form in getattr(token, 'forms', ()):
            form.normalized_id = next(count)
    relation = Agreement('r', ctx)
    truth = [ctx.flag('p%d' % i) for i in range(n)]

    def test(node, i):
        value = words.tokens[i].value
        if node[0] == 'word':
            if node[1][1] == 'caseless_pipeline':
                return ctx.concrete(ctx.or_(*[ctx.eq(value, _) for _ in {node[2], node[2].upper()}]))
            return ctx.concrete(ctx.eq(value, node[2]))
        if node[0] == 'lit':
            return ctx.concrete(ctx.eq(value, node[1]))
        if node[1] == 1:
            return ctx.concrete(truth[i])
        if node[1] == 2:
            return ctx.concrete(ctx.or_(*[ctx.member('NOUN', _.grams.values) for _ in words.alive[i]]))
        return True
    g = g, {}
    d = G.Leftmost(g, test, n)(0, n)
    predicates = [facts.BoolTable(words.tokens, [True] * n), facts.BoolTable(words.tokens, truth), gram('NOUN')]
    text = facts.show_grammar(g)
    ctx.observe('grammar', text)
    bound = facts.bind(world, g)
    r = G.build((bind_relations(bound[0], relation), {}), predicates)
    match = G.Parser(r, tokenizer=G.IdTokenizer(Morph())).match(words.tokens)
    if d is not None and not narrow(ctx, words, d, relation):
        # the words do not agree
        ctx.check(match is None, '%s matches' % text)
        return
    ctx.check((match is None) == (d is None), 'match of %s' % text)
    if match is None:
        return
    for alive, token in zip(words.alive, match.tokens):
        # the order of forms that agree is not specified, equal forms are one (C13)
        ids = {_.normalized_id for _ in getattr(token, 'forms', ())}
        ctx.check(ids <= {_.normalized_id for _ in alive} and bool(ids) == bool(alive), 'forms left in %s' % text)
        alive[:] = getattr(token, 'forms', ())
    part = next(_ for _ in d.walk() if _.node is x)
    source = facts.Res('text', ids=list(range(n)), key=facts.key_of(part))
    expected = facts.value_of(words, facts.apply(words, ops, source) if ops else source)
    for _ in range(2):
        got = match.fact
        if 'root' not in way:
            if way == 'repeatable':
                ctx.check(type(got.r) is list and len(got.r) == 1, '%s: not one item in the fact' % text)
                got = got.r[0]
            else:
                got = got.a
        facts.check_value(ctx, world, '%s of %d words' % (text, n), got, expected)
    ctx.cover('-'.join(_[0] for _ in ops) or 'text')
    ctx.cover(way)
    if source.key:
        ctx.cover('line')
    if kind == 'morph' and any(len(a) < p['forms'] for a in words.alive):
        ctx.cover('narrowed')


PLAN = {
    # tokens, forms; with morphology: of these contents, of the others
    'quick': {'agree w agree': (3, 1), 'agree': (2, 2), 'gram+': (2, 2), 'pipe+': (2, 1), 'w pipe': (2, 2), 'pipe w': (2, 2), 'pipe': (3, 1), '(pipe)': (2, 1),
              'pipe~': (2, 1), 'pipe|ww': (2, 2), 'caseless': (2, 1), 'w gram': (2, 2), 'gram': (2, 3), None: (3, 2)},
    'thorough': {'gram+': (3, 2), 'pipe+': (3, 1), 'gram': (1, 4), 'w gram': (3, 3), 'agree': (2, 3),
                 'agree w agree': (3, 2), None: (4, 2)},
}
PLAIN = {'quick': {'pipe+': 2, None: 3}, 'thorough': {'pipe+': 3, None: 4}}


def shards(tier):
    out = []
    for content in CONTENTS:
        top, forms = PLAN[tier].get(content, PLAN[tier][None])
        out.append((content, {'content': content, 'kind': 'morph', 'max': top, 'forms': forms,
                              'few': content == 'agree'}))
        if content not in MORPH:
            top = PLAIN[tier].get(content, PLAIN[tier][None])
            out.append((content + ' plain', {'content': content, 'kind': 'plain', 'max': top, 'forms': 0,
                                             'few': False}))
    for content in ('w', 'gram') if tier == 'quick' else ('w', 'ww', 'gram', 'w gram', 'w+'):
        out.append((content + ' asked', {'content': content, 'kind': 'morph', 'max': 1 if tier == 'quick' else 2,
                                         'forms': 2, 'few': False, 'asked': True}))
    return out


BOUNDS = {
    tier: '%d contents (words, repeated and optional words, words narrowed by gram or agreement, pipelines) , %d chains of '
          'normalizers, up to 9 placements each; values, normal forms, inflections, grammemes, gaps and agreement are '
          'symbolic. (tokens, forms of each) by content: %s; tokens without morphology: %s; inflections by any of %s' % (
              len(CONTENTS), len(CHAINS), plan, PLAIN[tier], ASKED)
    for tier, plan in PLAN.items()
}
COVER = {'all': ['text', 'normalized', 'inflected', 'const', 'custom', 'normalized-custom', 'inflected-custom',
                 'custom-custom', 'line', 'narrowed', 'attribute', 'below', 'repeatable', 'root', 'wrapped', 'split',
                 'split attribute', 'split root', 'over attribute', 'root attribute']}
ASSUMPTIONS = [
    'related words have different normal forms',
    'forms of words come from a stub of the analyzer',
    'functions given to custom() are pure',
]
