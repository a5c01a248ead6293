"""C17: a pipeline means the alternatives it lists."""
import itertools
from functools import lru_cache

from yargy.morph import Form, Grams, MorphAnalyzer
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.token import MorphToken, MorphTagToken, Token
from yargy.tokenizer import Tokenizer, MorphTokenizer

from . import grammar as G
from .grammar import seq, alt, opt, rep, named, lit, ref
from . import facts
from .facts import F, attr, norm, World
from .c11 import RawMorph

KINDS = {'pipeline': pipeline, 'caseless_pipeline': caseless_pipeline, 'morph_pipeline': morph_pipeline}
NORMALIZED = ('normalized',)


def key(x):
    return attr('F.r', norm(x, NORMALIZED))


# pipelines p and q (an equal one) in a grammar, the lines matched are collected in F.r
CONTEXTS = {
    'alone': lambda p, q: F(key(p)),
    'wrapped': lambda p, q: F(key(named(seq(p), 'p'))),
    'seq': lambda p, q: F(seq(lit('a'), key(p))),
    'before': lambda p, q: F(seq(key(p), lit('b'))),
    'repeated': lambda p, q: F(rep(key(p))),
    'repeated below': lambda p, q: F(key(rep(p))),
    'bounded': lambda p, q: F(rep(key(p), min=2)),
    'optional': lambda p, q: F(seq(opt(key(p)), attr('F.a', lit('a')))),
    'twice': lambda p, q: F(seq(key(p), key(p))),
    'both': lambda p, q: F(seq(key(p), opt(key(q)))),
    'alternative': lambda p, q: F(alt(seq(attr('F.a', lit('a')), key(p)), key(p))),
    'after': lambda p, q: F(alt(attr('F.a', lit('a')), key(p))),
    'wrapped twice': lambda p, q: F(seq(key(named(p, 'x')), opt(key(seq(named(p, 'y')))))),
    'recursive': lambda p, q: F(alt(seq(key(p), ref('E')), key(p))),
}


@lru_cache(None)
def dictionaries(kind, lines, words):
    """Ordered lists of lines over the letters a and b."""
    letters = 'aA' if kind == 'caseless_pipeline' else 'ab'
    pool = [' '.join(x) for k in range(1, words + 1) for x in itertools.product(letters + ('b' if 'b' not in letters else ''), repeat=k)]
    if kind == 'caseless_pipeline':
        pool = [x for x in pool if len(x) < 4 or x in ('a b', 'A b', 'a a', 'b A')]
    return list(itertools.product(pool, repeat=lines))


def tokens_of(ctx, n, kind, p):
    out = []
    for i in range(n):
        span = G.token_span(i)
        if kind == 'morph_pipeline':
            value = ctx.char('t%d' % i, 'ab')
            if ctx.choice('plain%d' % i, 2):
                out.append(Token(ctx.char('v%d' % i, 'nmk'), span, 'OTHER'))
                continue
            forms = [Form(ctx.char('n%d.%d' % (i, k), 'nmk'), Grams(frozenset()))
                     for k in range(ctx.choice('forms%d' % i, p['forms']) + 1)]
            make = MorphToken if i % 2 else (lambda v, s, t, f: MorphTagToken(v, s, t, 'T', f))
            out.append(make(value, span, 'RU', forms))
        else:
            value = ctx.char('t%d' % i, 'abAB' if kind == 'caseless_pipeline' else p['domain'])
            out.append(Token(value, span, 'OTHER') if i % 2 else MorphToken(value, span, 'RU', [Form('n', Grams(frozenset()))]))
    return out


NORMALS = {'a': [['n'], ['n', 'm'], ['m', 'n', 'm']], 'b': [['k'], ['m'], ['n', 'k']]}


def harness(ctx):
    p = ctx.params
    kind = p['kind']
    lines = list(ctx.pick('lines', dictionaries(kind, p['lines'], p['words'])[p['from']:p['to']]))
    name = ctx.pick('context', p['contexts'])
    n = ctx.choice('tokens', p['max']) + 1
    normals = {}
    if kind == 'morph_pipeline':
        normals = {w: ctx.pick('normal forms of %s' % w, NORMALS[w][:p['normals']]) for w in 'ab'}
        normals.update({w.upper(): x for w, x in normals.items()})
    tokens = tokens_of(ctx, n, kind, p)
    first, second = ('pipe', kind, lines, KINDS[kind]), ('pipe', kind, lines, KINDS[kind])
    root = CONTEXTS[name](first, second)
    defs = {'E': root} if name == 'recursive' else {}

    def test(node, i):
        token = tokens[i]
        if node[0] == 'lit':
            return ctx.concrete(ctx.eq(token.value, node[1]))
        word = node[2]
        if kind == 'pipeline':
            return ctx.concrete(ctx.eq(token.value, word))
        if kind == 'caseless_pipeline':
            return ctx.concrete(ctx.or_(*[ctx.eq(token.value, _) for _ in {word.lower(), word.upper()}]))
        own = [_.normalized for _ in token.forms] if isinstance(token, MorphToken) else [token.value]
        return ctx.concrete(ctx.or_(*[ctx.eq(a, b) for a in own for b in normals[word]]))
    g = root, defs
    text = facts.show_grammar(g)
    d = G.Leftmost(g, test, n)(0, n)
    world = World()
    bound = facts.bind(world, g)
    if defs:
        # the definition is the root itself
        bound = bound[0], {'E': bound[0]}
    r = G.build(bound)
    morph = MorphAnalyzer(RawMorph(normals))
    match = G.Parser(r, tokenizer=G.IdTokenizer(morph)).match(tokens)
    ctx.observe('matched', match is not None)
    ctx.check((match is None) == (d is None), 'match of %s' % text)
    if match is None:
        ctx.cover('rejected')
        return
    ctx.check(len(match.tokens) == n, 'tokens of the match')
    lines_found = []
    for x in d.walk():
        if x.node[0] == 'int' and x.node[2] == ('norm', (NORMALIZED,)):
            line = facts.key_of(x)
            if line is not None:
                lines_found.append(line)
            else:
                # several of them under one normalizer
                out = ''
                for i in range(x.i, x.j):
                    out = out + (' ' if i > x.i else '') + tokens[i].normalized
                lines_found.append(out)
    fact = match.fact
    got = fact.r
    ctx.check(len(got) == len(lines_found), '%s: %d lines' % (text, len(got)))
    for a, b in zip(got, lines_found):
        ctx.check_equal(a, b, '%s: line' % text)
    ctx.cover(kind)
    if len(lines_found) > 1:
        ctx.cover('several')


LETTERS = ['a', 'K', '\u212a', '\xdf', '\u1e9e', 'ss', '\u03a3', '\u03c2', '\u03c3', 'a\u03a3', 'a\u03c2', '\u0130', 'i', 'i\u0307', '\u0131', '\u017f', 's',
           '\u0401', '\u0451', '\u01c5', '\ufb01', 'fi', '\u0390', '\u1fd3']


def cases(ctx):
    """Lines and tokens with letters whose lower case is unusual."""
    p = ctx.params
    make = KINDS[p['kind']]
    word = ctx.pick('line', LETTERS)
    more = ctx.choice('more', 2)
    if p['any']:
        value = ctx.char('token')
    else:
        value = ctx.string('token', ctx.choice('length', 2) + 1, ''.join(sorted(set(''.join(LETTERS)))))
    tokens = [Token(value, G.token_span(0), 'OTHER'), Token('x', G.token_span(1), 'OTHER')]
    lines = ([word + ' x', 'yy'], [word, 'yy'])[more]
    parser = G.Parser(make(lines).interpretation(facts.normalized()), tokenizer=G.IdTokenizer())
    match = parser.match(tokens[:2 - more])
    if p['kind'] == 'pipeline':
        same = ctx.eq(value, word)
    else:
        same = ctx.eq(value.lower(), word.lower())
    ctx.check_equal(same, match is not None, 'match of line %s' % ascii(lines))
    if match:
        ctx.check_equal(match.fact, lines[0], 'line')
        ctx.cover('letters')


TEXT_LINES = ['a-b', 'a - b', 'Ab', 'a', '-', 'ab-', 'A B', 'b a-', 'a  b']


def texts(ctx):
    """Lines are split as the text is."""
    p = ctx.params
    kind = p['kind']
    lines = [ctx.pick('line %d' % k, TEXT_LINES) if k else TEXT_LINES[p['first']] for k in range(p['lines'])]
    n = ctx.choice('length', p['max']) + 1
    text = ctx.string('c', n, p['domain'])
    tokenizer = Tokenizer()
    make = KINDS[kind]
    parser = G.Parser(make(lines).interpretation(facts.normalized()), tokenizer=tokenizer)
    words = [_.value for _ in tokenizer(text)]
    expected = None
    for line in lines:
        parts = [_.value for _ in tokenizer(line)]
        if len(parts) != len(words):
            continue
        if kind == 'pipeline':
            same = ctx.and_(*[ctx.eq(a, b) for a, b in zip(words, parts)])
        else:
            same = ctx.and_(*[ctx.eq(a.lower(), b.lower()) for a, b in zip(words, parts)])
        if ctx.concrete(same):
            expected = line
            break
    match = parser.match(text)
    ctx.check((match is None) == (expected is None), 'match of lines %s' % lines)
    if match:
        ctx.check_equal(match.fact, expected, 'line of %s' % lines)
        ctx.cover('text')


PLAN = {
    'quick': [(1, 2, 3, list(CONTEXTS), 6), (2, 2, 3, ['alone', 'repeated', 'twice', 'after', 'wrapped twice', 'optional'], 6),
              (3, 1, 2, ['alone', 'both'], 10)],
    'thorough': [(1, 3, 4, list(CONTEXTS), 2), (2, 2, 4, list(CONTEXTS), 2), (3, 2, 3, ['alone', 'wrapped', 'repeated', 'twice'], 10)],
}
TEXTS = {'quick': [(1, 4), (2, 3)], 'thorough': [(1, 6), (2, 4), (3, 3)]}


def shards(tier):
    out = []
    for kind in KINDS:
        for lines, words, top, contexts, size in PLAN[tier]:
            if kind == 'morph_pipeline':
                top = min(top, 2 if tier == 'quick' else 3)
                size = max(size // 3, 1)
                if lines > 1 and tier == 'quick':
                    contexts = contexts[:1] if lines > 2 else ['alone', 'twice']
            for a, b in G.chunks(dictionaries(kind, lines, words), size):
                out.append(('%s-%d-%d' % (kind, lines, a), {
                    'kind': kind, 'lines': lines, 'words': words, 'from': a, 'to': b, 'max': top, 'contexts': contexts,
                    'forms': 2, 'normals': 2 if tier == 'quick' else 3, 'domain': 'abAc' if lines > 1 else None}))
        if kind != 'morph_pipeline':
            for any_ in (True, False):
                out.append(('%s-letters-%s' % (kind, 'any' if any_ else 'listed'), {'h': 'cases', 'kind': kind, 'any': any_}))
            for lines, top in TEXTS[tier]:
                for first in range(len(TEXT_LINES)):
                    out.append(('%s-text-%d-%d' % (kind, lines, first), {
                        'h': 'texts', 'kind': kind, 'lines': lines, 'max': top, 'first': first, 'domain': 'abA- '}))
    return out


BOUNDS = {
    tier: '; '.join('%s lines of up to %s words over two letters on 1..%s tokens (morphology: 1..%d, fewer contexts) in contexts %s' % (x[:3] + (2 if tier == 'quick' else 3, x[3])) for x in plan) +
          '. Tokens: one symbolic code point (any, of "abAc" for several lines, of "abAB" for caseless), with morphology '
          '1..2 forms with normal forms of three, words of lines with 1..3 normal forms; and %s '
          'lines of %s on texts of that many characters of "abA- ", tokenized by the real tokenizer'
          '; letters whose lower case is unusual, in lines and tokens' % (TEXTS[tier], TEXT_LINES)
    for tier, plan in PLAN.items()
}
COVER = {'all': ['rejected', 'several', 'text', 'letters'] + list(KINDS)}
ASSUMPTIONS = ['the analyzer is a stub', 'a line has at least one token']
