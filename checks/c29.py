"""C29: a parser (and rules) used in several threads at once."""
from yargy import Parser, rule, or_, and_
from yargy.morph import Form, Grams, MorphAnalyzer
from yargy.pipelines import morph_pipeline
from yargy.predicates import type as type_, gte, normalized as normalized_
from yargy.token import MorphToken
from yargy.tokenizer import MorphTokenizer

from . import grammar as G
from .c11 import RawMorph, Parse
from .c18 import World, summary, same, GRAMMARS, DOMAIN
from .threads import interleave, interrupted

METHODS = ['findall', 'extract', 'match']


def words(ctx, name, n, domain, other):
    """Two texts (symbolic and given), words in the same place share their forms."""
    shared = [
        [Form('%d.%d' % (i, k), Grams(frozenset({'NOUN', 'sing'} if k else {'NOUN', 'plur'}))) for k in range(2)]
        for i in range(max(n, len(other)))
    ]
    if name == 'morphology':
        shared = [[Form(ctx.char('n%d' % i, 'nmk') if i < n else 'n', Grams(frozenset()))] for i in range(len(shared))]
    texts = []
    for values in [[ctx.char('t%d' % i, domain) for i in range(n)], other]:
        texts.append([MorphToken(x, G.token_span(i), 'RU', shared[i]) for i, x in enumerate(values)])
    return texts


def results(parser, method, tokens):
    found = getattr(parser, method)(tokens)
    out = [summary(_) for _ in ([found] if method == 'match' else found)]
    if isinstance(tokens, list):
        return out
    # forms are new every time
    return [x and [[(t[:-1], t[-1] and [f for f, _ in t[-1]]) for t in x[0]]] + x[1:] for x in out]


class Raw(RawMorph):
    """Analyzes words by the first letter."""

    def __init__(self, ctx):
        self.ctx = ctx

    def parse(self, word):
        return [Parse(x) for x in (['n'] if self.ctx.concrete(self.ctx.eq(word[0], 'я')) else ['m', 'n'])]


class Texts(World):
    """Texts are strings, the tokenizer is shared too."""

    def __init__(self, ctx):
        super(Texts, self).__init__(ctx)
        self.tokenizers = [MorphTokenizer(morph=MorphAnalyzer(Raw(ctx)))]

    def text(self, F, S, r):
        word = or_(rule(normalized_('я').interpretation(F.a.normalized())), rule(type_('LATIN')))
        p = morph_pipeline(['я', 'б 1'])
        return [rule(word, type_('INT').interpretation(F.r).optional()).interpretation(F),
                or_(rule(p.interpretation(F.g.normalized())), rule(and_(type_('INT'), gte(1)), p)).interpretation(F)]


def harness(ctx):
    p = ctx.params
    name = p['grammar']
    if name == 'text':
        texts = [ctx.string('s', p['max'], p['domain']), p['other']]
        world = Texts(ctx)
    else:
        texts = words(ctx, name, p['max'], p['domain'], p['other'])
        world = World(ctx)
    method = ctx.pick('method', p['methods'])

    def build(rules, k):
        return Parser(rules[k], tokenizer=world.tokenizers[0], tagger=world.taggers[0] if name == 'tags' else None)

    def tasks():
        """Tasks of the threads and what they share."""
        rules = world.rules(name)
        first, second = p['rules']
        if p['shared'] == 'parser':
            parser = build(rules, first)
            return [lambda: results(parser, method, texts[0]), lambda: results(parser, 'findall', texts[1])]
        return [lambda: results(build(rules, first), method, texts[0]),
                lambda: results(build(rules, second), 'findall', texts[1])]
    alone = [interleave([tasks()[i]])[0] for i in range(2)]
    runs = [0]

    def check(i, found):
        what = 'thread %d' % i
        expected = alone[i].result
        ctx.check(len(found) == len(expected), '%s: %d matches, %d alone' % (what, len(found), len(expected)))
        for x, y in zip(found, expected):
            same(ctx, what, x, y)

    def run(task):
        check(1, task())
        runs[0] += 1
    if p['switches'] == 'many':
        task, other = tasks()
        first = p['offset'] + p['skip'] * ctx.choice('first', p['step'] // p['skip'])
        check(0, interrupted(task, lambda: run(other), first, p['step']).result)
    else:
        slices = []
        for i in range(2):
            stops = range(p['offset'], alone[i].total, p['step'])
            slices.append((i, p['offset'] + p['step'] * ctx.choice('stop %d' % i, max(1, len(stops)))))
        for i, w in enumerate(interleave(tasks(), slices + [(0, None)])):
            check(i, w.result)
        runs[0] += 1
    if runs[0]:
        ctx.cover('switched')
    for a in alone:
        ctx.cover('matches' if a.result and a.result[0] else 'nothing')
    ctx.observe('matches', [len(_.result) for _ in alone])


NAMES = GRAMMARS + ['text']
OTHER = {'caseless': ['A', 'b'], 'grammemes': ['a', 'a'], 'text': 'б 1'}
# what is shared, tokens, switches, stops (every, of those), methods
PLAN = {
    'quick': [('parser', 2, 'many', 16, 1, METHODS[:1]), ('rules', 1, 'many', 48, 6, METHODS[:1]),
              ('parts', 1, 'many', 48, 6, METHODS[:1])],
    'thorough': [('parser', 3, 'many', 16, 1, METHODS), ('rules', 2, 'many', 48, 1, METHODS[:1]),
                 ('parts', 2, 'many', 48, 1, METHODS[:1]), ('parser', 1, 'two', 5, 1, METHODS[:1]),
                 ('rules', 1, 'two', 31, 1, METHODS[:1])],
}


def shards(tier):
    out = []
    for k, name in enumerate(NAMES):
        for shared, n, switches, step, skip, methods in PLAN[tier]:
            for first in (0, 1):
                if shared == 'parts' and first:
                    continue
                out.append(('%s-%s-%d-%s-%d' % (name, shared, n, switches, first), {
                    'grammar': name, 'shared': shared, 'rules': [first, first ^ (shared == 'parts')],
                    'max': max(2, n) if name == 'relations' else n, 'step': step, 'skip': skip, 'switches': switches,
                    'offset': k % (skip if switches == 'many' else step), 'methods': methods,
                    'domain': DOMAIN.get(name, 'ab') if name != 'text' else 'яб1 a', 'other': OTHER.get(name, ['a', 'b'])}))
    return out


def describe(row):
    shared, n, switches, step, skip, methods = row
    return '%s shared, texts of %d tokens, %s' % (shared, n, (
        'stopped at calls p, p + %d, ... for %s p, each time the other thread runs to its end' % (
            step, 'all' if skip == 1 else 'every %dth' % skip)
        if switches == 'many' else 'both stopped once, at any two calls on a grid of %d' % step))


BOUNDS = {
    tier: 'two threads on 10 pairs of rules, one parses any text, the other a given one; a thread is stopped before calls '
          'of functions of yargy: ' + '; '.join(map(describe, rows))
    for tier, rows in PLAN.items()
}
COVER = {'all': ['matches', 'nothing', 'switched']}
ASSUMPTIONS = [
    'threads are switched where a function of yargy is called or continued, not between other instructions',
    'user functions, relations, taggers and the analyzer are pure',
]
