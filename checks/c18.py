"""C18: parsers, rules and matches do not affect each other."""
import itertools

from yargy import Parser, rule, or_, and_, not_, forward, empty
from yargy.interpretation import fact, attribute, normalized, inflected, const
from yargy.morph import Form, Grams, MorphAnalyzer
from yargy.pipelines import pipeline, morph_pipeline, caseless_pipeline
from yargy.predicates import gram, eq, is_single, normalized as normalized_, dictionary, tag, true, caseless
from yargy.relations import main
from yargy.relations.constructors import Relation
from yargy.tagger import Tagger
from yargy.token import Token, MorphToken, MorphTagToken, is_morph_token

from . import grammar as G
from .c11 import RawMorph


class Table(Relation):
    """Symmetric relation, depends on the grammemes of the forms."""

    label = 'table'

    def __init__(self, truth):
        self.truth = truth

    def __call__(self, form, other):
        return self.truth(form, other)


class TableTagger(Tagger):
    tags = ['T', 'U']

    def __init__(self, tags):
        self.values = tags

    def __call__(self, tokens):
        for i, token in enumerate(tokens):
            yield token.tagged(self.values[i % len(self.values)])


class World(object):
    """What the user defined: rules and tokenizers, made anew on every call
    of rules()."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.F = fact('F', ['a', attribute('r').repeatable(), attribute('g')])
        self.S = fact('S', ['x', attribute('y').repeatable()])
        self.relation = Table(self.agree)
        normals = [{'a': ['n'], 'b': ['m']}, {'a': ['m'], 'b': ['m', 'n']}]
        self.tokenizers = [G.IdTokenizer(MorphAnalyzer(RawMorph(x))) for x in normals]
        self.taggers = [TableTagger(['T', 'U']), TableTagger(['U', 'T'])]
        self.agreement = {}

    def agree(self, a, b):
        key = tuple(sorted((a.normalized, b.normalized)))
        if key not in self.agreement:
            if self.ctx.params['grammar'] == 'grammemes':
                return a.normalized[-1:] == b.normalized[-1:]
            self.agreement[key] = self.ctx.flag('agree %s %s' % key)
        return self.agreement[key]

    def rules(self, name):
        return getattr(self, name)(self.F, self.S, self.relation)

    # two rules that share parts

    def quantifiers(self, F, S, r):
        a = rule('a').interpretation(F.r)
        b = a.optional()
        c = rule('b').repeatable(max=2)
        x = rule(b, c.interpretation(F.a)).interpretation(F)
        return [x, or_(rule(x, a), a.repeatable(min=2)).interpretation(F)]

    def recursion(self, F, S, r):
        E = forward()
        part = or_(rule(eq('a').interpretation(S.x)), rule(eq('b').interpretation(S.y), E))
        E.define(part.interpretation(S))
        return [rule(E.interpretation(F.g)).interpretation(F), or_(rule('a', E), E).interpretation(S)]

    def nested(self, F, S, r):
        # forward as the root
        E = forward()
        E.define(or_(rule('a').interpretation(F.a), rule(E, E.optional(), eq('b').interpretation(F.r))).interpretation(F))
        return [E, E.optional().named('n')]

    def relations(self, F, S, r):
        w = true().match(r)
        first = rule(w, w).interpretation(F.a).interpretation(F)
        return [or_(first, rule(true(), true()).interpretation(F.g).interpretation(F)), first]

    def grammemes(self, F, S, r):
        noun = gram('NOUN').interpretation(F.a.normalized())
        single = is_single().interpretation(F.g.normalized())
        x = or_(rule(noun, single), rule(single, noun), rule(noun, true().optional())).interpretation(F)
        return [x, or_(rule(gram('NOUN').match(r), is_single().match(r)),
                       rule(is_single().match(r), gram('NOUN').match(r)),
                       rule(true(), true())).interpretation(F.a.normalized())]

    def words(self, F, S, r):
        p = pipeline(['a', 'a b', 'b'])
        return [rule(p.interpretation(normalized()).interpretation(F.a)).repeatable().interpretation(F),
                p.optional(reverse=True).interpretation(normalized())]

    def morphology(self, F, S, r):
        p = morph_pipeline(['a', 'b a'])
        q = rule(or_(normalized_('a'), dictionary({'b'})))
        return [rule(p.interpretation(normalized()).interpretation(F.a), q.repeatable().optional()).interpretation(F),
                or_(rule(q, p), rule(not_(normalized_('a')))).interpretation(const(1))]

    def tags(self, F, S, r):
        t = rule(and_(tag('T'), not_(eq('b'))))
        return [rule(t.interpretation(F.r), tag('U').optional().interpretation(F.a)).interpretation(F),
                or_(t, rule(tag('U'), tag('T'))).repeatable().interpretation(F.a)]

    def caseless(self, F, S, r):
        p = caseless_pipeline(['A', 'a b'])
        main_ = rule(main(p), caseless('B')).match(r)
        return [or_(rule(main_.interpretation(F.a)), p.repeatable(reverse=True)).interpretation(F), main_.interpretation(F.g)]


GRAMMARS = ['quantifiers', 'recursion', 'nested', 'relations', 'grammemes', 'words', 'morphology', 'tags', 'caseless']


def plain(value):
    """Fact or value as data."""
    if isinstance(value, list):
        return [plain(_) for _ in value]
    if hasattr(value, 'as_json'):
        return (type(value).__name__, [(k, plain(getattr(value, k))) for k in type(value).__attributes__])
    return value


def summary(match, read=True):
    """What a match says."""
    if match is None:
        return None
    tokens = []
    for t in match.tokens:
        forms = [(f.normalized, id(f)) for f in t.forms] if is_morph_token(t) else None
        tokens.append((type(t).__name__, t.value, (t.span.start, t.span.stop), t.type, getattr(t, 'tag', None), forms))
    out = [tokens, (match.span.start, match.span.stop)]
    if read:
        try:
            out.append(plain(match.fact))
        except ValueError:
            # the root has no interpretation
            out.append('ValueError')
    return out


def same(ctx, what, got, expected):
    ctx.check((got is None) == (expected is None), '%s: %s, %s when fresh' % (
        what, 'no match' if got is None else 'match', 'no match' if expected is None else 'match'))
    if got is not None:
        ctx.check_equal(got, expected, what)


class Run(object):
    def __init__(self, ctx, name, texts):
        self.ctx = ctx
        self.name = name
        self.texts = texts
        self.world = World(ctx)
        self.user = self.world.rules(name)
        self.parsers = []
        self.matches = []  # (what, match, summary when fresh)
        self.iterators = []
        self.fresh_ = {}

    def fresh(self, k, env, method, text):
        """Results of rules, parser and tokens used for the first time."""
        key = k, env, method, text
        if key not in self.fresh_:
            parser = Parser(self.world.rules(self.name)[k], tokenizer=self.world.tokenizers[env],
                            tagger=self.world.taggers[env] if self.name == 'tags' else None)
            self.fresh_[key] = [summary(m) for m in self.call(parser, method, copy(self.texts[text]))]
        return self.fresh_[key]

    def call(self, parser, method, tokens):
        out = getattr(parser, method)(tokens)
        return [out] if method in ('match', 'find') else list(out)

    def build(self, k, env):
        self.parsers.append((k, env, Parser(
            self.user[k], tokenizer=self.world.tokenizers[env],
            tagger=self.world.taggers[env] if self.name == 'tags' else None)))

    def parse(self, what, index, method, text, read=True):
        k, env, parser = self.parsers[index]
        found = self.call(parser, method, self.texts[text])
        expected = self.fresh(k, env, method, text)
        self.ctx.check(len(found) == len(expected), '%s: %d matches, %d when fresh' % (what, len(found), len(expected)))
        for m, x in zip(found, expected):
            if m is not None:
                self.matches.append((what, m, x))
            same(self.ctx, what, summary(m, read), x if read or x is None else x[:2])

    def begin(self, index, text):
        """extract() stopped after the first match, continued at the end."""
        k, env, parser = self.parsers[index]
        iterator = iter(parser.extract(self.texts[text]))
        first = next(iterator, None)
        expected = self.fresh(k, env, 'extract', text)
        same(self.ctx, 'first of extract', summary(first), expected[0] if expected else None)
        self.iterators.append((iterator, expected[1:]))

    def read(self, reverse=False):
        for what, m, x in (reversed(self.matches) if reverse else self.matches):
            same(self.ctx, what + ', again', summary(m), x)

    def finish(self):
        for iterator, expected in self.iterators:
            rest = list(iterator)
            self.ctx.check(len(rest) == len(expected), 'rest of extract: %d matches, %d when fresh' % (len(rest), len(expected)))
            for m, x in zip(rest, expected):
                same(self.ctx, 'rest of extract', summary(m), x)
        # every parser and the rules still mean the same
        for index in range(len(self.parsers)):
            for text in range(len(self.texts)):
                self.parse('parser %d at the end' % index, index, 'match', text)
        for k in range(2):
            self.build(k, 1)
            self.parse('rule %d at the end' % k, -1, 'match', 0)
        self.read()


def copy(tokens):
    out = []
    for t in tokens:
        if is_morph_token(t):
            out.append(MorphToken(t.value, t.span, t.type, list(t.forms)))
        else:
            out.append(Token(t.value, t.span, t.type))
    return out


OPS = ['build 0', 'build 1', 'build 0 other', 'match 0', 'match 1', 'extract 0', 'extract 1', 'findall 0', 'begin 0', 'read',
       'read back', 'first match 0', 'unread 1']


def harness(ctx):
    p = ctx.params
    name = p['grammar']
    # two texts, words in the same place share their forms
    shared = [
        [Form('%d.%d' % (i, k), Grams(ctx.set('g%d.%d' % (i, k), ['NOUN', 'sing']) if name == 'grammemes' and (i, k) == (0, 0)
                                      else frozenset({'NOUN', 'sing'}))) for k in range(p['forms'])]
        for i in range(p['max'])
    ]
    if name == 'morphology':
        shared = [[Form(ctx.char('n%d' % i, 'nmk'), Grams(frozenset()))] for i in range(p['max'])]
    texts = []
    for k in range(2):
        n = p['max'] if not k else p['second']
        tokens = []
        for i in range(n):
            value = ctx.char('t%d.%d' % (k, i), p['domain'])
            plain_token = name in ('quantifiers', 'recursion', 'nested') and i % 2
            tokens.append(Token(value, G.token_span(i), 'OTHER') if plain_token
                          else MorphToken(value, G.token_span(i), 'RU', shared[i]))
        texts.append(tokens)
    given = [list(_) for _ in shared]
    run = Run(ctx, name, texts)
    run.build(*p['first'])
    for step in range(p['steps']):
        op = ctx.pick('step%d' % step, OPS if step else OPS[p['from']:p['to']])
        ctx.cover(op)
        if op.startswith('build'):
            run.build(int(op[6]), int(op.endswith('other')))
        elif op.startswith('begin'):
            run.begin(-1, 0)
        elif op == 'read':
            run.read()
        elif op == 'read back':
            run.read(True)
        elif op == 'first match 0':
            run.parse('first parser', 0, 'match', 0)
        elif op == 'unread 1':
            run.parse('match', -1, 'match', 1, read=False)
        else:
            method, text = op.split()
            run.parse(op, -1, method, int(text))
    run.finish()
    if run.matches:
        ctx.cover('matches')
    for forms, before in zip(shared, given):
        ctx.check(len(forms) == len(before) and all(a is b for a, b in zip(forms, before)), 'forms of the words are changed')
    for tokens in texts:
        for i, t in enumerate(tokens):
            if is_morph_token(t):
                ctx.check(t.forms is shared[i], 'given token is changed')
    ctx.observe('matches', len(run.matches))


def alone(ctx):
    """Other candidates of the text do not matter: what is found in a part of
    the text is what is found when there is only this part."""
    p = ctx.params
    name = p['grammar']
    shared = [
        [Form('%d.%d' % (i, k), Grams(ctx.set('g%d.%d' % (i, k), ['NOUN', 'sing']) if name == 'grammemes' and k == 0
                                      else frozenset({'NOUN', 'sing'}))) for k in range(p['forms'])]
        for i in range(p['max'])
    ]
    if name == 'morphology':
        shared = [[Form(ctx.char('n%d' % i, 'nmk'), Grams(frozenset()))] for i in range(p['max'])]
    tokens = [MorphToken(ctx.char('t%d' % i, p['domain']), G.token_span(i), 'RU', shared[i]) for i in range(p['max'])]
    index = {t.span.start: i for i, t in enumerate(tokens)}
    world = World(ctx)
    k = p['first']

    def build():
        return Parser(world.rules(name)[k], tokenizer=world.tokenizers[0])
    fresh = {}

    def expected(i, j):
        if (i, j) not in fresh:
            found = build().extract(copy(tokens[i:j]), all=False)
            fresh[i, j] = [summary(m) for m in found]
        return fresh[i, j]
    found = {}
    for m in list(build().extract(copy(tokens))):
        i = index[m.tokens[0].span.start]
        found.setdefault((i, i + len(m.tokens)), []).append(summary(m))
    for i in range(len(tokens)):
        for j in range(i + 1, len(tokens) + 1):
            rest = list(expected(i, j))
            here = found.get((i, j), [])
            what = 'tokens %d..%d' % (i, j)
            ctx.check(len(here) == len(rest), '%s: %d matches, %d alone' % (what, len(here), len(rest)))
            for x in here:
                for y in rest:
                    if ctx.concrete(ctx.eq(x, y)):
                        rest.remove(y)
                        break
                else:
                    ctx.check(False, '%s: %s is not among the matches alone' % (what, 'match'))
            if here:
                ctx.cover('matches')
    for m in list(build().findall(copy(tokens))):
        i = index[m.tokens[0].span.start]
        j = i + len(m.tokens)
        same(ctx, 'findall, tokens %d..%d' % (i, j), summary(m), summary(build().match(copy(tokens[i:j]))))
    ctx.observe('matches', sorted((k, len(v)) for k, v in found.items()))


PLAN = {
    'quick': {'steps': 2, 'max': 2, 'second': 1, 'forms': 2},
    'thorough': {'steps': 3, 'max': 3, 'second': 2, 'forms': 2},
}


DOMAIN = {'caseless': 'aAb', 'grammemes': 'a', 'relations': 'a'}


def shards(tier):
    out = []
    for name in GRAMMARS:
        for first in ((0, 0), (1, 1)):
            for a, b in G.chunks(OPS, 7 if tier == 'quick' else 1):
                if tier == 'quick' and first == (1, 1) and a:
                    continue
                out.append(('%s-%d-%d' % (name, first[0], a), dict(PLAN[tier], **{
                    'from': a, 'to': b, 'grammar': name, 'first': first, 'domain': DOMAIN.get(name, 'ab')})))
            if name != 'tags':
                out.append(('alone-%s-%d' % (name, first[0]), {
                    'h': 'alone', 'grammar': name, 'first': first[0], 'max': 3 if name in ('relations', 'grammemes') else 4 if tier == 'quick' else 5,
                    'forms': 2 if tier == 'thorough' or name != 'grammemes' else 1, 'domain': DOMAIN.get(name, 'ab')}))
    return out


BOUNDS = {
    tier: '%(what)s histories of %(steps)d steps (build another parser from the same rules, with the same or another tokenizer and '
          'tagger, match, extract, findall, abandoned extract, reading facts in either order, two texts of up to %(max)d tokens) '
          'on 9 pairs of rules that share parts; token values, grammemes, normal forms, agreement symbolic; every match of extract and findall in texts of %(alone)s tokens (3 for words with agreement or grammemes) compared with those of its tokens alone' % dict(plan, alone=4 if tier == 'quick' else 5, what='nearly all' if tier == 'quick' else 'all')
    for tier, plan in PLAN.items()
}
COVER = {'all': ['matches'] + OPS}
ASSUMPTIONS = ['custom predicates, relations and taggers given by the user are pure']
