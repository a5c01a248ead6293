"""C11: predicate combinators and morphological predicates are exact."""
import itertools
from functools import lru_cache

from yargy import Parser, rule, and_, or_, not_
from yargy import predicates as P
from yargy.morph import Form, Grams, MorphAnalyzer
from yargy.parser import Context
from yargy.predicates.constructors import Predicate, PredicateScheme
from yargy.span import Span
from yargy.tagger import PassTagger
from yargy.token import Token, MorphToken, TagToken, MorphTagToken

from .grammar import IdTokenizer, chunks


class Atom(Predicate):
    __attributes__ = ['k']

    def __init__(self, k, truth):
        self.k = k
        self.truth = truth

    def __call__(self, token):
        return self.truth[token.span.start]


class Scheme(PredicateScheme):
    """Can be called after activation only."""
    __attributes__ = ['k']

    def __init__(self, k, truth, contexts):
        self.k = k
        self.truth = truth
        self.contexts = contexts

    def activate(self, context):
        self.contexts.append(context)
        return Atom(self.k, self.truth)


OPS = {'and': and_, 'or': or_, 'not': not_}


@lru_cache(None)
def formulas(level):
    """Formulas over atoms 0..2."""
    atoms = [0, 1, 2]
    one = [('not', a) for a in atoms[:1]]
    one += [(op, a, b) for op in ('and', 'or') for a, b in itertools.product(atoms[:2], repeat=2)]
    one += [(op, 0, 1, 2) for op in ('and', 'or')] + [(op, 1) for op in ('and', 'or')]
    out = list(atoms[:1]) + list(one)
    pool = one[:1] + [('and', 0, 1), ('or', 0, 1), ('and', 0, 1, 2), ('or', 1, 2)]
    for x in one:
        out.append(('not', x))
    for op in ('and', 'or'):
        for x in pool:
            out += [(op, x, 2), (op, 2, x), (op, 1, x, 0)]
            for y in pool:
                out.append((op, x, y))
    deep = [('not', ('not', ('and', 0, ('not', 1)))), ('or', ('and', ('or', 0, 1), 2), ('not', ('or', 1, ('not', 0)))),
            ('and', ('not', ('and', ('not', 0), 1)), ('or', 2, ('not', 2))), ('not', ('or', ('and', 0, 1), ('and', 1, 2), 2))]
    out += deep
    if level:
        for op in ('and', 'or'):
            for x in deep:
                for y in pool + deep:
                    out.append((op, x, y))
                    out.append(('not', (op, y, x)))
    return out


def build(f, atoms):
    if isinstance(f, int):
        return atoms[f]
    return OPS[f[0]](*[build(x, atoms) for x in f[1:]])


def truth_of(ctx, f, values):
    if isinstance(f, int):
        return values[f]
    items = [truth_of(ctx, x, values) for x in f[1:]]
    return {'and': ctx.and_, 'or': ctx.or_, 'not': ctx.not_}[f[0]](*items)


def boolean(ctx):
    p = ctx.params
    f = ctx.pick('formula', formulas(p['level'])[p['from']:p['to']])
    n = 2
    tokens = [Token('x', Span(i, i + 1), 'OTHER') for i in range(n)]
    values = [[ctx.flag('a%d_%d' % (k, i)) for i in range(n)] for k in range(3)]
    schemes = ctx.choice('schemes', 3)   # how many of the atoms need activation
    contexts = []
    atoms = [Scheme(k, values[k], contexts) if k < schemes else Atom(k, values[k]) for k in range(3)]
    predicate = build(f, atoms)
    context = Context(IdTokenizer(), PassTagger())
    if not schemes:
        # as it is
        for i in range(n):
            ctx.check_equal(predicate(tokens[i]), truth_of(ctx, f, [v[i] for v in values]),
                            'formula %s before activation' % (f,))
            ctx.cover('inactive')
    active = predicate.activate(context)
    for c in contexts:
        ctx.check(c is context, 'activated for another context')
    again = active.activate(context)
    for i in range(n):
        expected = truth_of(ctx, f, [v[i] for v in values])
        ctx.check_equal(active(tokens[i]), expected, 'formula %s' % (f,))
        ctx.check_equal(again(tokens[i]), expected, 'formula %s activated twice' % (f,))
        if ctx.concrete(expected):
            ctx.cover('true')
        else:
            ctx.cover('false')
    match = Parser(rule(predicate, predicate), tokenizer=IdTokenizer()).match(tokens)
    both = ctx.and_(*[truth_of(ctx, f, [v[i] for v in values]) for i in range(n)])
    ctx.check((match is not None) == ctx.concrete(both), 'formula %s in a rule' % (f,))


# ------------------------------------------------------------------ morphology

class Parse(object):
    def __init__(self, normal_form, grammemes=()):
        self.normal_form = normal_form
        self.tag = type('Tag', (), {'grammemes': frozenset(grammemes)})()

    def inflect(self, grams):
        return None


class RawMorph(object):
    """Underlying analyzer with a given dictionary."""

    class TagClass(object):
        @staticmethod
        def grammeme_is_known(gram):
            return gram in GRAMS

    def __init__(self, words):
        self.words = words

    def parse(self, word):
        return [Parse(x) for x in self.words[word]]


GRAMS = ['NOUN', 'sing', 'Sgtm', 'plur']


def make_token(ctx, value, forms, i=0):
    kind = ctx.pick('kind', ['morph', 'morphtag', 'plain', 'tag'])
    span = Span(5 * i + 2, 5 * i + 4)
    if kind == 'morph':
        return kind, MorphToken(value, span, 'RU', forms)
    if kind == 'morphtag':
        return kind, MorphTagToken(value, span, 'RU', 'T', forms)
    if kind == 'plain':
        return kind, Token(value, span, 'RU')
    return kind, TagToken(value, span, 'RU', 'T')


def check_kept(ctx, what, before, after, kept):
    """Forms kept: (form, condition)."""
    ctx.check(type(after) is type(before), '%s changes the class of the token' % what)
    ctx.check_equal(after.value, before.value, '%s changes the value' % what)
    ctx.check_equal((after.span.start, after.span.stop), (before.span.start, before.span.stop), what + ' changes the span')
    ctx.check(after.type == before.type, '%s changes the type' % what)
    ctx.check(getattr(after, 'tag', None) == getattr(before, 'tag', None), '%s changes the tag' % what)
    expected = [form for form, condition in kept if ctx.concrete(condition)]
    got = list(after.forms)
    ctx.check(len(got) == len(expected) and all(a is b for a, b in zip(got, expected)),
              '%s keeps %d forms, expected %d' % (what, len(got), len(expected)))


def grams(ctx):
    p = ctx.params
    what = ctx.params['what']
    size = ctx.choice('forms', p['max']) + 1
    forms = [Form(ctx.string('n%d' % k, 1, 'ab'), Grams(ctx.set('g%d' % k, GRAMS))) for k in range(size)]
    given = list(forms)
    kind, token = make_token(ctx, 'слово', forms)
    tokenizer = IdTokenizer(MorphAnalyzer(RawMorph({})))
    context = Context(tokenizer, PassTagger())
    if what == 'is_single':
        predicate = P.is_single()

        def holds(form):
            return ctx.or_(ctx.member('sing', form.grams.values), ctx.member('Sgtm', form.grams.values))
    else:
        g = ctx.pick('gram', GRAMS)
        predicate = P.gram(g)

        def holds(form):
            return ctx.member(g, form.grams.values)
    active = predicate.activate(context)
    morph = kind.startswith('morph')
    conditions = [holds(form) for form in given]
    expected = ctx.and_(morph, ctx.or_(*conditions))
    ctx.check_equal(ctx.or_(active(token), False), expected, what)
    match = Parser(rule(predicate), tokenizer=tokenizer).match([token])
    ctx.check((match is not None) == ctx.concrete(expected), what + ' in a rule')
    if match is not None:
        ctx.cover(what + ' true')
        ctx.observe('kept', len(match.tokens[0].forms))
        check_kept(ctx, what, token, match.tokens[0], list(zip(given, conditions)))
    else:
        ctx.cover(what + ' false')
    if morph:
        ctx.check(len(token.forms) == size and all(a is b for a, b in zip(token.forms, given)),
                  'forms of the given token are changed')
        # a token matched by another predicate keeps all
        other = Parser(rule(P.true()), tokenizer=tokenizer).match([token])
        ctx.check(len(other.tokens[0].forms) == size, 'true() drops forms')


DICTIONARY = {
    'x': ['a'], 'y': ['a', 'b'], 'z': ['c', 'c'], 'w': ['d'],
}


def normals(ctx):
    """normalized(w) and dictionary(ws)."""
    p = ctx.params
    what = p['what']
    size = ctx.choice('forms', p['max']) + 1
    forms = [Form(ctx.string('n%d' % k, 1, 'abcde'), Grams(frozenset())) for k in range(size)]
    value = ctx.string('v', 1, 'aBCde')
    kind, token = make_token(ctx, value, forms)
    tokenizer = IdTokenizer(MorphAnalyzer(RawMorph(DICTIONARY)))
    context = Context(tokenizer, PassTagger())
    if what == 'normalized':
        word = ctx.pick('word', sorted(DICTIONARY))
        words = [word]
        predicate = P.normalized(word)
    else:
        words = ctx.pick('words', [[], ['x'], ['y'], ['x', 'z'], ['w', 'y', 'z'], ['z', 'z']])
        predicate = P.dictionary(ctx.pick('collection', [list, set, tuple])(words))
    wanted = sorted({n for w in words for n in DICTIONARY[w]})
    active = predicate.activate(context)
    if kind.startswith('morph'):
        expected = ctx.or_(*[ctx.eq(f.normalized, n) for f in forms for n in wanted])
    else:
        low = value.lower()
        expected = ctx.or_(*[ctx.eq(low, n) for n in wanted])
    ctx.check_equal(ctx.or_(active(token), False), expected, what)
    match = Parser(rule(predicate), tokenizer=tokenizer).match([token])
    ctx.check((match is not None) == ctx.concrete(expected), what + ' in a rule')
    if match is not None:
        ctx.cover(what + ' true')
        if kind.startswith('morph'):
            ctx.check(len(match.tokens[0].forms) == size, '%s drops forms' % what)
    else:
        ctx.cover(what + ' false')


PLAN = {'quick': {'level': 1, 'chunk': 20, 'forms': 4, 'normals': 3},
        'thorough': {'level': 1, 'chunk': 5, 'forms': 7, 'normals': 5}}


def shards(tier):
    plan = PLAN[tier]
    out = []
    for a, b in chunks(formulas(plan['level']), plan['chunk']):
        out.append(('boolean-%d' % a, {'h': 'boolean', 'level': plan['level'], 'from': a, 'to': b}))
    for what in ('gram', 'is_single'):
        out.append((what, {'h': 'grams', 'what': what, 'max': plan['forms']}))
    for what in ('normalized', 'dictionary'):
        out.append((what, {'h': 'normals', 'what': what, 'max': plan['normals']}))
    return out


BOUNDS = {
    tier: '%d formulas of and_, or_, not_ over 3 arbitrary predicates (0..2 of them schemes) on 2 tokens; tokens of 4 '
          'classes with 1..%d forms of arbitrary subsets of %s; 1..%d normal forms' % (
              len(formulas(plan['level'])), plan['forms'], GRAMS, plan['normals'])
    for tier, plan in PLAN.items()
}
COVER = {'all': ['inactive', 'true', 'false'] + ['%s %s' % (w, r) for w in ('gram', 'is_single', 'normalized', 'dictionary')
                                                for r in ('true', 'false')]}
ASSUMPTIONS = ['words are analysed by a stub analyzer behind the real MorphAnalyzer']
