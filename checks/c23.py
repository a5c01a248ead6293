"""C23: tags assigned by a tagger are what tag() sees."""
import itertools

from yargy import Parser, rule, or_, and_, not_
from yargy import predicates as P
from yargy.interpretation import fact
from yargy.morph import Form, Grams, MorphAnalyzer
from yargy.parser import Context
from yargy.predicates import tag
from yargy.relations.constructors import Relation
from yargy.tagger import Tagger, PassTagger, TaggersComposition
from yargy.token import Token, MorphToken, TagToken, MorphTagToken, is_tag_token, is_morph_token

from . import grammar as G
from .grammar import A, seq, alt, opt, rep, named

TAGS = 'BIO'


class SequenceTagger(Tagger):
    """Given tags in order, None leaves a token as it is."""
    tags = list(TAGS)

    def __init__(self, tags):
        self.given = tags
        self.calls = []

    def __call__(self, tokens):
        self.calls.append(1)
        for i, token in enumerate(tokens):
            yield token if self.given[i] is None else token.tagged(self.given[i])


class AnyGrams(object):
    class TagClass(object):
        @staticmethod
        def grammeme_is_known(gram):
            return True


def make_tokens(ctx, n, domain='ab'):
    tokens = []
    for i in range(n):
        value = ctx.char('v%d' % i, domain)
        if ctx.choice('morph %d' % i, 2):
            tokens.append(MorphToken(value, G.token_span(i), 'RU', [Form('n', Grams({'NOUN'})), Form('m', Grams(set()))]))
        else:
            tokens.append(Token(value, G.token_span(i), 'OTHER'))
    return tokens


def make_tags(ctx, n):
    return [ctx.char('g%d' % i, TAGS) if ctx.choice('tagged %d' % i, 2) else None for i in range(n)]


p = lambda k: ('pred', k)

# predicates: (predicate, condition of it by tag test and value)
PREDICATES = [
    (lambda: tag('B'), lambda c, t, v: t('B')),
    (lambda: tag('I'), lambda c, t, v: t('I')),
    (lambda: not_(tag('O')), lambda c, t, v: c.not_(t('O'))),
    (lambda: or_(tag('B'), P.eq('a')), lambda c, t, v: c.or_(t('B'), c.eq(v, 'a'))),
    (lambda: and_(tag('I'), P.caseless('B')), lambda c, t, v: c.and_(t('I'), c.eq(v, 'b'))),
    (lambda: and_(not_(tag('B')), not_(tag('I'))), lambda c, t, v: c.and_(c.not_(t('B')), c.not_(t('I')))),
]
GRAMMARS = [
    p(0), p(2), p(3), p(4), p(5),
    seq(p(0), rep(p(1))),
    seq(p(0), opt(rep(p(1)))),
    seq(opt(p(5)), p(0), A),
    alt(seq(p(0), p(1)), seq(p(3), p(5))),
    rep(alt(p(0), p(4))),
    named(seq(p(2), named(rep(p(1), 1, 2), 'n')), 'm'),
    seq(p(1), rep(p(2))),
]


def check_tagged(ctx, what, given, tag, got):
    """got is given with the tag."""
    if tag is None:
        ctx.check(got is given or type(got) is type(given), what + ': class of an untagged token')
        ctx.check(not is_tag_token(got), what + ': tag of an untagged token')
    else:
        ctx.check(is_tag_token(got), what + ': not a tagged token')
        ctx.check_equal(got.tag, tag, what + ': tag')
    ctx.check(ctx.and_(ctx.eq(got.value, given.value), ctx.eq(got.type, given.type)), what + ': value or type')
    ctx.check(got.span == given.span, what + ': span')
    ctx.check(is_morph_token(got) == is_morph_token(given), what + ': morphology')
    if is_morph_token(given):
        ctx.check(len(got.forms) == len(given.forms) and all(x is y for x, y in zip(got.forms, given.forms)), what + ': forms')
    ctx.check_equal(got.normalized, given.normalized, what + ': normalized')


def harness(ctx):
    """Grammars over tags."""
    params = ctx.params
    g = ctx.pick('grammar', GRAMMARS[params['from']:params['to']]), {}
    n = ctx.choice('tokens', params['max']) + 1
    tokens = make_tokens(ctx, n)
    tags = make_tags(ctx, n)
    predicates = [f() for f, _ in PREDICATES]
    tagger = SequenceTagger(tags)
    parser = Parser(G.build(g, predicates), tokenizer=G.IdTokenizer(), tagger=tagger)

    def test(node, i):
        if node[0] == 'lit':
            return ctx.eq(tokens[i].value, node[1])

        def has(x):
            return False if tags[i] is None else ctx.eq(tags[i], x)
        return PREDICATES[node[1]][1](ctx, has, tokens[i].value)
    language = G.Language(ctx, g, test, n)
    text = G.show_grammar(g)
    match = parser.match(tokens)
    ctx.check(len(tagger.calls) == 1, 'the tagger is run %d times' % len(tagger.calls))
    ctx.check_equal(language(0, n), match is not None, 'match of %s' % text)
    if match is None:
        ctx.cover('rejected')
    else:
        ctx.cover('matched')
        ctx.check(len(match.tokens) == n, 'tokens of the match of %s' % text)
        for i, token in enumerate(match.tokens):
            check_tagged(ctx, 'token %d' % i, tokens[i], tags[i], token)
            ctx.cover('tagged' if tags[i] is not None else 'untagged')
    got = {}
    for match in parser.extract(tokens):
        i = [t.span for t in tokens].index(match.tokens[0].span)
        got[i, i + len(match.tokens)] = match
    for i in range(n):
        for j in range(i + 1, n + 1):
            ctx.check_equal(language(i, j), (i, j) in got, 'span %d %d of %s' % (i, j, text))
    for token in tokens:
        ctx.check(not is_tag_token(token), 'given tokens are tagged')


def known():
    """Predicates in no need of a tag."""
    return [
        ('eq', P.eq('a')), ('caseless', P.caseless('A')), ('in_', P.in_({'a', '1'})), ('in_caseless', P.in_caseless({'A'})),
        ('length_eq', P.length_eq(1)), ('is_lower', P.is_lower()), ('is_upper', P.is_upper()), ('is_title', P.is_title()),
        ('is_capitalized', P.is_capitalized()), ('is_single', P.is_single()), ('gte', P.gte(1)), ('lte', P.lte(0)),
        ('type RU', P.type('RU')), ('type INT', P.type('INT')), ('gram', P.gram('NOUN')), ('normalized', P.normalized('n')),
        ('dictionary', P.dictionary({'n', 'a'})), ('custom', P.custom(lambda x: x == 'b', types='RU')), ('true', P.true()),
        ('composed', and_(not_(P.eq('b')), or_(P.gram('NOUN'), P.is_upper()))),
    ]


class Parsed(object):
    """Analyzer for normalized() and dictionary()."""
    class TagClass(object):
        @staticmethod
        def grammeme_is_known(gram):
            return True

    class Raw(object):
        def __init__(self, word):
            self.normal_form = word
            self.tag = type('Tag', (), {'grammemes': frozenset()})

    def parse(self, word):
        return [Parsed.Raw(word)]


def preserved(ctx):
    """A tagged token satisfies what it satisfied."""
    name, predicate = ctx.pick('predicate', known())
    type_ = ctx.pick('type', ['RU', 'INT', 'OTHER'])
    value = ctx.string('v', ctx.choice('length', 2) + 1, '01' if type_ == 'INT' else 'aAbn')
    morph = ctx.choice('morph', 3)
    if morph:
        forms = [Form(ctx.char('n%d' % i, 'na'), Grams(ctx.set('g%d' % i, ['NOUN', 'sing', 'plur', 'Sgtm'])))
                 for i in range(morph)]
        token = MorphToken(value, G.token_span(0), type_, forms)
    else:
        token = Token(value, G.token_span(0), type_)
    tagger = SequenceTagger(['B'])
    context = Context(G.IdTokenizer(MorphAnalyzer(Parsed())), tagger)
    active = predicate.activate(context)
    tagged = token.tagged(ctx.char('tag'))
    again = tagged.tagged('O')
    before = ctx.or_(active(token), False)
    ctx.check_equal(ctx.or_(active(tagged), False), before, 'predicate %s of a tagged token' % name)
    ctx.check_equal(ctx.or_(active(again), False), before, 'predicate %s of a token tagged twice' % name)
    ctx.cover('preserved')
    for t, given in ((tagged, token), (again, tagged)):
        check_tagged(ctx, 'tagged()', given, t.tag, t)
    ctx.check_equal(again.tag, 'O', 'new tag')


def tag_of(ctx):
    """tag() on single tokens, tagged or not, with arbitrary tags."""
    value = ctx.string('tag', ctx.choice('length', 2) + 1)
    given = ctx.string('given', ctx.choice('length of given', 2) + 1)
    tagger = SequenceTagger([given])
    tagger.tags = [value]
    token = make_tokens(ctx, 1)[0]
    active = tag(value).activate(Context(G.IdTokenizer(), tagger))
    tagged = token.tagged(given)
    ctx.check_equal(ctx.or_(active(tagged), False), ctx.eq(value, given), 'tag of a tagged token')
    ctx.check(not active(token), 'tag of an untagged token')
    retagged = tagged.tagged(value)
    ctx.check(active(retagged), 'new tag of a tagged token')
    # with a relation
    if is_morph_token(token):
        ctx.check_equal(ctx.or_(active(tagged.constrained(token.forms[:1])), False), ctx.eq(value, given), 'narrowed token')
    ctx.cover('tag of')


TABLES = [(None, None, None), ('B', 'I', None), ('B', 'I', 'B'), (None, 'I', 'B'), ('I', None, 'B'), ('B', 'B', 'B'), ('I', 'B', 'B')]


class Table(Tagger):
    """Retags by the tag a token has."""

    def __init__(self, ctx, name, log, table):
        # new tag for none, B and I; None: leave it
        self.table = dict(zip(('', 'B', 'I'), TABLES[table]))
        self.known = [t for t in 'BI' if ctx.choice('%s knows %s' % (name, t), 2)]
        self.log = log
        self.name = name

    @property
    def tags(self):
        return self.known

    def __call__(self, tokens):
        for token in tokens:
            self.log.append((self.name, token))
            t = self.table[token.tag if is_tag_token(token) else '']
            yield token if t is None else token.tagged(t)


def composition(ctx):
    """Taggers one after another."""
    size = ctx.choice('taggers', ctx.params['taggers'] + 1)
    log = []
    taggers = []
    for i in range(size):
        table = ctx.params['table'] if i == 0 else ctx.choice('table %d' % i, len(TABLES))
        taggers.append(Table(ctx, 't%d' % i, log, table))
    # one of the tokens is tagged already
    n = 3
    tokens = [Token('a', G.token_span(0), 'OTHER'), MorphToken('b', G.token_span(1), 'RU', [Form('n', Grams(set()))]),
              MorphTagToken('c', G.token_span(2), 'RU', 'B', [Form('m', Grams(set()))])]
    nested = ctx.choice('nested', 2) if size > 1 else 0
    if nested:
        whole = TaggersComposition([taggers[0], TaggersComposition(taggers[1:])])
    else:
        whole = TaggersComposition(taggers)
    result = list(whole(iter(tokens)))
    ctx.check(len(result) == n, 'number of tokens')
    expected = []
    for token in tokens:
        t = token.tag if is_tag_token(token) else None
        for tagger in taggers:
            new = tagger.table[t or '']
            t = t if new is None else new
        expected.append(t)
    for token, t, got in zip(tokens, expected, result):
        check_tagged(ctx, 'composition', token, t, got)
    for k, tagger in enumerate(taggers):
        seen = [token for name, token in log if name == tagger.name]
        ctx.check([t.span for t in seen] == [t.span for t in tokens], 'tokens given to tagger %d' % k)
    for t in 'BIX':
        knows = any(t in tagger.known for tagger in taggers)
        ctx.check(bool(whole.check_tag(t)) == knows, 'composition knows %s' % t)
        e = ctx.raises(ValueError, lambda: Parser(rule(tag(t)), tokenizer=G.IdTokenizer(), tagger=whole))
        ctx.check((e is None) == knows, 'parser with a composition, tag %s' % t)
        if knows:
            parser = Parser(rule(tag(t)), tokenizer=G.IdTokenizer(), tagger=whole)
            found = [[x.span for x in m.tokens] for m in parser.findall(tokens)]
            ctx.check(found == [[x.span] for x, g in zip(tokens, expected) if g == t], 'tag %s after a composition' % t)
            ctx.cover('found' if found else 'not found')


def without(ctx):
    """No tagger: no tags, tokens pass as they are."""
    n = ctx.choice('tokens', 4)
    tokens = make_tokens(ctx, n)
    tagger = [None, PassTagger(), TaggersComposition([]), TaggersComposition([PassTagger()] * 2)][ctx.choice('tagger', 4)]
    e = ctx.raises(ValueError, lambda: Parser(rule(tag('B')), tokenizer=G.IdTokenizer(), tagger=tagger))
    ctx.check(e is not None, 'tag without a tagger')
    if tagger is not None:
        got = list(tagger(iter(tokens)))
        ctx.check(len(got) == n and all(x is y for x, y in zip(got, tokens)), 'tokens without a tagger')
    match = Parser(rule(P.true()).repeatable(), tokenizer=G.IdTokenizer(), tagger=tagger).match(tokens)
    ctx.check((match is None) == (n == 0), 'match without a tagger')
    ctx.cover('without')


class Agree(Relation):
    label = 'agree'

    def __init__(self, ctx):
        self.truth = {}
        self.ctx = ctx

    def __call__(self, form, other):
        key = tuple(sorted((form.normalized, other.normalized)))
        if key not in self.truth:
            self.truth[key] = self.ctx.flag('%s %s' % key)
        return self.truth[key]


def together(ctx):
    """Tags with agreement and facts: words keep their tags when narrowed."""
    F = fact('F', ['a', 'b'])
    r = Agree(ctx)
    tokens = [MorphToken(v, G.token_span(i), 'RU', [Form('%d.%d' % (i, k), Grams(set())) for k in range(2)])
              for i, v in enumerate('xyz')]
    tags = make_tags(ctx, 3)
    tagger = SequenceTagger(tags)
    grammar = rule(
        rule(tag('B')).match(r).interpretation(F.a),
        rule(not_(tag('B'))),
        and_(tag('I'), P.eq('z')).match(r).interpretation(F.b),
    ).interpretation(F)
    match = Parser(grammar, tokenizer=G.IdTokenizer(), tagger=tagger).match(tokens)
    agree = ctx.or_(*[r(f, g) for f in tokens[0].forms for g in tokens[2].forms])

    def has(i, x):
        return False if tags[i] is None else ctx.eq(tags[i], x)
    ctx.check_equal(ctx.and_(has(0, 'B'), ctx.not_(has(1, 'B')), has(2, 'I'), agree), match is not None, 'match')
    if match is None:
        return
    ctx.check(len(match.tokens) == 3, 'tokens')
    for i, token in enumerate(match.tokens):
        ctx.check(is_tag_token(token) == (tags[i] is not None), 'tag of a related word %d' % i)
        if tags[i] is not None:
            ctx.check_equal(token.tag, tags[i], 'tag of word %d' % i)
        ctx.check(token.value == tokens[i].value and token.type == 'RU' and token.span == tokens[i].span, 'word %d' % i)
    ctx.check(match.fact.a == 'x' and match.fact.b == 'z', 'fact')
    ctx.cover('together')


PLAN = {'quick': {'max': 3, 'taggers': 2}, 'thorough': {'max': 4, 'taggers': 3}}


def shards(tier):
    plan = PLAN[tier]
    out = [('grammars-%d' % i, {'from': i, 'to': i + 1, 'max': plan['max']}) for i in range(len(GRAMMARS))]
    out.append(('preserved', {'h': 'preserved'}))
    out.append(('tag of', {'h': 'tag_of'}))
    for k in range(len(TABLES)):
        out.append(('composition-%d' % k, {'h': 'composition', 'taggers': plan['taggers'], 'table': k}))
    out.append(('without', {'h': 'without'}))
    out.append(('together', {'h': 'together'}))
    return out


BOUNDS = {
    tier: '%d grammars over tags on 1..%d tokens, each with morphology or without, tagged or not; %d predicates on a token and '
          'on it tagged; tags of up to 2 arbitrary code points; compositions of 0..%d taggers, each retagging by one of %d tables over two tags, '
          'also nested' % (len(GRAMMARS), plan['max'], len(known()), plan['taggers'], len(TABLES))
    for tier, plan in PLAN.items()
}
COVER = {'all': ['rejected', 'matched', 'tagged', 'untagged', 'preserved', 'tag of', 'found', 'not found', 'without', 'together']}
ASSUMPTIONS = [
    'a tagger gives each token its tag by Token.tagged and changes nothing else',
]
