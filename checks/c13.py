"""C13: agreement accepts exactly consistent words and narrows their forms."""
import itertools

from yargy import Parser, rule, or_
from yargy.interpretation.interpretator import Interpretator, InterpretatorResult
from yargy.morph import Form, Grams
from yargy.predicates import eq
from yargy.relations.constructors import Relation
from yargy.token import Token, MorphToken, MorphTagToken, is_token

from .grammar import IdTokenizer, token_span


class Table(Relation):
    """Arbitrary symmetric relation between forms (known by normal form)."""

    def __init__(self, name, ctx):
        self.name = name
        self.ctx = ctx
        self.truth = {}

    label = 'table'

    def __call__(self, form, other):
        return self.get(form.normalized, other.normalized)

    def get(self, a, b):
        key = tuple(sorted((a, b)))
        if key not in self.truth:
            self.truth[key] = self.ctx.flag('%s %s %s' % ((self.name,) + key))
        return self.truth[key]


class Tokens(Interpretator):
    """Fact: the tokens it is made of."""
    label = 'tokens'

    def __call__(self, input):
        return Result(input.items)


class Result(InterpretatorResult):
    def __init__(self, items):
        self.items = items

    @property
    def normalized(self):
        return self.items


def w(k):
    return rule('w%d' % k)


# name: (words in the text, rule of relations r and q, [(relation, token, token)])
def structures(r, q):
    return {
        'pair': ('01', rule(w(0).match(r), w(1).match(r)), [(r, 0, 1)]),
        'apart': ('021', rule(w(0).match(r), w(2), w(1).match(r)), [(r, 0, 2)]),
        'predicates': ('01', rule(eq('w0').match(r), eq('w1').match(r)), [(r, 0, 1)]),
        'both': ('01', rule(w(0).match(r).match(q), w(1).match(q).match(r)), [(r, 0, 1), (q, 0, 1)]),
        'two': ('01', rule(rule(w(0).match(r), w(1).match(r))), [(r, 0, 1)]),
        'alone': ('01', rule(w(0).match(r), w(1)), []),
        'alone twice': ('01', rule(w(0).match(r).match(q), w(1)), []),
        'one of two': ('01', rule(w(0).match(r).match(q), w(1).match(r)), [(r, 0, 1)]),
        'other relations': ('01', rule(w(0).match(r), w(1).match(q)), []),
        'three': ('012', rule(w(0).match(r), w(1).match(r), w(2).match(r)),
                  [(r, 0, 1), (r, 0, 2), (r, 1, 2)]),
        'chain': ('012', rule(w(0).match(r), w(1).match(r).match(q), w(2).match(q)), [(r, 0, 1), (q, 1, 2)]),
        'phrase': ('012', rule(rule(w(0).match(r), w(1).match(r)).match(q), w(2).match(q)), [(r, 0, 1), (q, 0, 2)]),
        'last phrase': ('012', rule(w(2).optional(), w(0).match(q), rule(w(1).match(r), w(2).match(r)).match(q)),
                        [(q, 0, 1), (r, 1, 2)]),
        'optional': ('02', rule(w(0).match(r), w(1).match(r).optional(), w(2).match(r)), [(r, 0, 1)]),
        'optional there': ('012', rule(w(0).match(r), w(1).match(r).optional(), w(2).match(r)),
                           [(r, 0, 1), (r, 0, 2), (r, 1, 2)]),
        'repeated': ('000', w(0).match(r).repeatable(), [(r, 0, 1), (r, 0, 2), (r, 1, 2)]),
        'repeated pair': ('00', w(0).match(r).repeatable(max=3), [(r, 0, 1)]),
        'alternatives': ('01', rule(or_(w(0).match(r), w(1)), or_(w(1).match(r), w(0))), [(r, 0, 1)]),
        'named': ('01', rule(w(0).match(r).named('a'), w(1).named('b').match(r)).named('c'), [(r, 0, 1)]),
        'four': ('0123', rule(w(0).match(r), w(1).match(r), w(2).match(q), w(3).match(q)), [(r, 0, 1), (q, 2, 3)]),
        'long chain': ('0123', rule(w(0).match(r), rule(w(1).match(r), w(2)).match(q), w(3).match(q)),
                       [(r, 0, 1), (q, 1, 3)]),
    }


STRUCTURES = ['pair', 'apart', 'predicates', 'both', 'two', 'alone', 'alone twice', 'one of two', 'other relations', 'three', 'chain', 'phrase',
              'last phrase', 'optional', 'optional there', 'repeated', 'repeated pair', 'alternatives', 'named',
              'four', 'long chain']


# no part of the text matches alone
FIND = ['both', 'three', 'phrase', 'last phrase', 'named']


def make_tokens(ctx, words, sizes, tagged):
    tokens = []
    for i, (word, size) in enumerate(zip(words, sizes)):
        forms = [Form('%d.%d' % (i, k), Grams(frozenset({'NOUN', str(k)}))) for k in range(size)]
        if tagged and i % 2:
            token = MorphTagToken('w' + word, token_span(i), 'RU', 'T', forms)
        else:
            token = MorphToken('w' + word, token_span(i), 'RU', forms)
        tokens.append(token)
    return tokens


def check_narrowed(ctx, what, tokens, match, edges):
    """The forms of the match, or of no match, are right."""
    forms = [[f.normalized for f in t.forms] for t in tokens]
    agree = {}
    for r, i, j in edges:
        for a in forms[i]:
            for b in forms[j]:
                agree[r.name, a, b] = agree[r.name, b, a] = r.get(a, b)
    related = {i for _, i, j in edges} | {j for _, i, j in edges}
    near = {i: [(r, j) for r, a, j in edges if a == i] + [(r, j) for r, j, a in edges if a == i] for i in related}
    # full choices of forms, consistent under a condition
    words = sorted(related)
    consistent = []
    for choice in itertools.product(*[forms[i] for i in words]):
        form = dict(zip(words, choice))
        consistent.append((form, ctx.and_(*[agree[r.name, form[i], form[j]] for r, i, j in edges])))
    if match is None:
        ctx.cover('rejected')
        for form, condition in consistent:
            ctx.check(ctx.not_(condition), '%s: words agree in %s, not matched' % (what, sorted(form.values())))
        return
    ctx.cover('accepted')
    got = [[f.normalized for f in t.forms] for t in match.tokens]
    ctx.observe('forms', got)
    ctx.check(len(match.tokens) == len(tokens), what + ': tokens of the match')
    for i, (before, after) in enumerate(zip(tokens, match.tokens)):
        ctx.check(type(after) is type(before) and after.value == before.value and after.span == before.span
                  and after.type == before.type and getattr(after, 'tag', 0) == getattr(before, 'tag', 0),
                  '%s: word %d is changed' % (what, i))
        ctx.check(all(any(f is x for x in before.forms) for f in after.forms), '%s: forms of word %d' % (what, i))
        if i not in related:
            ctx.check(got[i] == forms[i], '%s: forms of unrelated word %d' % (what, i))
            continue
        ctx.check(len(got[i]) > 0, '%s: word %d without forms' % (what, i))
        ctx.check(len(set(got[i])) == len(got[i]), '%s: forms of word %d repeat' % (what, i))
        if len(got[i]) < len(forms[i]):
            ctx.cover('narrowed')
        for a in got[i]:
            for r, j in near[i]:
                ctx.check(ctx.or_(*[agree[r.name, a, b] for b in got[j]]),
                          '%s: form %s kept, it agrees with no form of word %d' % (what, a, j))
        for a in forms[i]:
            if a not in got[i]:
                for form, condition in consistent:
                    if form[i] == a:
                        ctx.check(ctx.not_(condition), '%s: form %s dropped, %s agree' % (what, a, sorted(form.values())))
    if len(edges) == 1:
        # two words: exactly those which agree
        (r, i, j), = edges
        for x, y in ((i, j), (j, i)):
            for a in forms[x]:
                some = ctx.or_(*[agree[r.name, a, b] for b in forms[y]])
                ctx.check_equal(some, a in got[x], '%s: form %s of word %d kept' % (what, a, x))
    fact = match.fact
    ctx.check([[f.normalized for f in t.forms] for t in fact] == got, what + ': forms in the fact')


def harness(ctx):
    p = ctx.params
    r, q = Table('r', ctx), Table('q', ctx)
    words, rules, edges = structures(r, q)[p['structure']]
    top = p['forms']
    # sizes: each word has 1..top forms
    sizes = [ctx.choice('forms of %d' % i, top) + 1 if top > 1 else 1 for i in range(len(words))]
    if sum(sizes) > p['total']:
        return
    tokens = make_tokens(ctx, words, sizes, p['tagged'])
    before = [list(t.forms) for t in tokens]
    parser = Parser(rules.interpretation(Tokens()), tokenizer=IdTokenizer())
    match = getattr(parser, p['method'])(tokens)
    ctx.observe('matched', match is not None)
    check_narrowed(ctx, p['structure'], tokens, match, edges)
    for t, forms in zip(tokens, before):
        ctx.check(len(t.forms) == len(forms) and all(a is b for a, b in zip(t.forms, forms)), 'given tokens are changed')


def fallback(ctx):
    """When the words of one parse do not agree, the next one is taken."""
    p = ctx.params
    r, q = Table('r', ctx), Table('q', ctx)
    kind = ctx.choice('kind', 4)
    tokens = make_tokens(ctx, '01', [2, 2], 0)

    def agree(table):
        return ctx.or_(*[table.get(a.normalized, b.normalized) for a in tokens[0].forms for b in tokens[1].forms])
    first = rule(w(0).match(r), w(1).match(r))
    second = [rule('w0', 'w1'), rule(w(0).match(q), w(1).match(q)), rule(w(0), w(1).match(r)),
              rule(w(0).match(q).optional(), w(1).match(q))][kind]
    options = [[(r, 0, 1)], [[], [(q, 0, 1)], [], [(q, 0, 1)]][kind]]
    rules = or_(first, second).interpretation(Tokens())
    match = Parser(rules, tokenizer=IdTokenizer()).match(tokens)
    first_ok = ctx.concrete(agree(r))
    if first_ok:
        check_narrowed(ctx, 'first parse', tokens, match, options[0])
        ctx.check(match is not None, 'first parse is not taken')
    else:
        if options[1]:
            check_narrowed(ctx, 'second parse', tokens, match, options[1])
        else:
            ctx.check(match is not None, 'second parse is not taken')
            ctx.check([len(t.forms) for t in match.tokens] == [2, 2], 'second parse lost forms of the first')
        ctx.cover('second')
    if first_ok:
        ctx.cover('first')


PLAN = {
    'quick': {'default': (2, 6), 'pair': (3, 6), 'apart': (3, 5), 'both': (2, 4), 'three': (2, 5), 'repeated': (2, 5),
              'optional there': (2, 5), 'repeated pair': (3, 6), 'four': (2, 8)},
    'thorough': {'default': (3, 7), 'pair': (4, 8), 'apart': (4, 7), 'both': (2, 4), 'three': (3, 6), 'repeated': (2, 6),
                 'optional there': (2, 6), 'repeated pair': (4, 7), 'four': (2, 8), 'two': (4, 7)},
}


def shards(tier):
    out = []
    for k, name in enumerate(STRUCTURES):
        forms, total = PLAN[tier].get(name, PLAN[tier]['default'])
        out.append((name, {'structure': name, 'forms': forms, 'total': total, 'tagged': k % 2,
                           'method': 'find' if name in FIND else 'match'}))
    out.append(('fallback', {'h': 'fallback'}))
    return out


BOUNDS = {
    tier: '%d structures of 2..4 words related by one or two arbitrary symmetric relations (each pair of forms agrees or '
          'not, symbolically): %s' % (len(STRUCTURES) + 4, '; '.join(
              '%s: up to %d forms a word, %d in all' % ((name,) + x) for name, x in plan.items()))
    for tier, plan in PLAN.items()
}
COVER = {'all': ['accepted', 'rejected', 'narrowed', 'first', 'second']}
ASSUMPTIONS = [
    'all the words have morphology, forms of one word are different',
    'a word is not related to itself',
    'relations are symmetric, as the built-in ones (C12)',
]
