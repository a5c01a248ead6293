"""C08: tokenizer reconfiguration is local and respects precedence."""
import itertools

from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule, RULES

from .c07 import StubMorph, kind

ORIGINAL = list(RULES)
DEFAULT = ['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER']


class Text(object):
    """Reference view of a text."""

    def __init__(self, ctx, text, n):
        self.ctx = ctx
        self.text = text
        self.n = n
        self.memo = {}

    def kind(self, i):
        if i not in self.memo:
            self.memo[i] = kind(self.ctx, self.text[i])
        return self.memo[i]

    def is_(self, i, chars):
        key = i, chars
        if key not in self.memo:
            self.memo[key] = i < self.n and self.ctx.concrete(
                self.ctx.or_(*[self.ctx.eq(self.text[i], c) for c in chars]))
        return self.memo[key]

    def run(self, i, f):
        j = i
        while j < self.n and f(j):
            j += 1
        return j if j > i else None


def of_kind(name, run):
    def f(t, i):
        if run:
            return t.run(i, lambda j: t.kind(j) == name)
        if name == 'OTHER':
            # any visible character
            return i + 1 if t.kind(i) is not None and t.kind(i) != 'EOL' else None
        return i + 1 if t.kind(i) == name else None
    return f


MATCHERS = {name: of_kind(name, name in ('RU', 'LATIN', 'INT', 'EOL')) for name in DEFAULT}


def pairs(t, i):
    # ab|b.
    if t.is_(i, 'aA') and t.is_(i + 1, 'bB'):
        return i + 2
    if t.is_(i, 'bB') and i + 1 < t.n and not t.is_(i + 1, '\n'):
        return i + 2


def number(t, i):
    # \d+[.]\d*
    j = t.run(i, lambda k: t.kind(k) == 'INT')
    if j and t.is_(j, '.'):
        return t.run(j + 1, lambda k: t.kind(k) == 'INT') or j + 1


ADDED = {
    'pairs': (TokenRule('PAIR', r'ab|b.'), pairs),
    'number': (TokenRule('NUM', r'\d+[.]\d*'), number),
    'digit': (TokenRule('DIGIT', r'\d'), lambda t, i: i + 1 if t.kind(i) == 'INT' else None),
    'letter': (TokenRule('RU', r'[a-z]'), lambda t, i: i + 1 if t.kind(i) == 'LATIN' else None),
    'word': (TokenRule('WORD', r'[a-z\d]+'), lambda t, i: t.run(i, lambda j: t.kind(j) in ('LATIN', 'INT'))),
    'blank': (TokenRule('BLANK', r'( )+'), lambda t, i: t.run(i, lambda j: t.is_(j, ' '))),
    'int2': (TokenRule('INT', r'[.]'), lambda t, i: i + 1 if t.is_(i, '.') else None),
}

ADDS = [('add', 'pairs'), ('add', 'number'), ('add', 'digit'), ('add', 'letter'), ('add', 'word'),
        ('add', 'blank'), ('add', 'int2'), ('add', 'word', 'digit'), ('add', 'digit', 'word'),
        ('add', 'number', 'pairs')]
REMOVES = [('remove', 'RU'), ('remove', 'LATIN'), ('remove', 'INT'), ('remove', 'OTHER'), ('remove', 'PUNCT', 'EOL'),
           ('remove', 'EOL', 'OTHER', 'RU', 'LATIN', 'INT', 'PUNCT'), ('remove', 'INT', 'INT')]
WRONG = [('remove', 'NO'), ('remove', 'OTHER', 'NO'), ('remove',)]
OPS = ADDS + REMOVES + WRONG
FEW = [('add', 'pairs'), ('add', 'digit'), ('add', 'word', 'digit'), ('add', 'letter'), ('remove', 'RU'),
       ('remove', 'INT'), ('remove', 'OTHER', 'EOL'), ('remove', 'DIGIT'), ('remove', 'NO')]


def spec(rule):
    """Reference matcher of a rule."""
    for r, f in ADDED.values():
        if r is rule:
            return rule.type, f
    for r, name in zip(ORIGINAL, DEFAULT):
        if r is rule:
            return rule.type, MATCHERS[name]


def reference(rules, t):
    rules = [spec(r) for r in rules]
    out = []
    i = 0
    while i < t.n:
        for type, f in rules:
            j = f(t, i)
            if j:
                out.append((type, i, j))
                i = j
                break
        else:
            i += 1
    return out


def shown(tokens):
    return [(t.type, t.span.start, t.span.stop) for t in tokens]


def apply(ctx, tokenizer, model, op, made=()):
    """New model: the list of rules."""
    types = {r.type for r in model}
    if op[0] == 'add':
        rules = [ADDED[x][0] for x in op[1:]]
        if any(r in model for r in rules):
            return None   # the same rule twice is no rule list
        result = tokenizer.add_rules(*rules)
        ctx.check(result is tokenizer, 'add_rules returns the tokenizer')
        ctx.cover('added')
        return rules + model
    names = op[1:]
    if all(x in types for x in names):
        result = tokenizer.remove_types(*names)
        ctx.check(result is tokenizer, 'remove_types returns the tokenizer')
        ctx.cover('removed')
        return [r for r in model if r.type not in names]
    error = ctx.raises(Exception, tokenizer.remove_types, *names)
    ctx.check(type(error) is ValueError, 'unknown type in remove_types%s: %r' % (names, error))
    ctx.cover('unknown type')
    return model


def check_tokenizer(ctx, what, tokenizer, model, text, view, history):
    tokens = list(tokenizer(text))
    got = shown(tokens)
    expected = reference(model, view)
    ctx.check(got == expected, '%s after %s: tokens %s, expected %s' % (what, history, got, expected))
    for t in tokens:
        ctx.check_equal(t.value, text[t.span.start:t.span.stop], 'value of a token')
    types = {r.type for r in model}
    for name in set(DEFAULT) | {r.type for r, _ in ADDED.values()} | {'NO'}:
        error = ctx.raises(Exception, tokenizer.check_type, name)
        if name in types:
            ctx.check(error is None, 'type %s is rejected by %s after %s' % (name, what, history))
        else:
            ctx.check(type(error) is ValueError, 'type %s is not rejected by %s after %s' % (name, what, history))
    return got


def make(morph, *args):
    return MorphTokenizer(*args, morph=StubMorph()) if morph else Tokenizer(*args)


def harness(ctx):
    p = ctx.params
    ops = OPS if p['ops'] == 'all' else FEW
    history = [ctx.pick('op%d' % k, ops) if k else ops[p['first']] for k in range(p['depth'])]
    start = ctx.choice('start', 2)   # of the default rules or of a list given
    n = ctx.choice('length', p['max']) + 1
    text = ctx.string('c', n, p['domain'])
    view = Text(ctx, text, n)
    mine = [ADDED['int2'][0], RULES[1], RULES[2]]
    given = list(mine)
    before = make(p['morph'])
    tokenizer = make(p['morph'], given) if start else make(p['morph'])
    other = make(p['morph'])
    model = list(mine) if start else list(ORIGINAL)
    # the other one is changed in between
    other_model = apply(ctx, other, list(ORIGINAL), ('add', 'digit'))
    for k, op in enumerate(history):
        model = apply(ctx, tokenizer, model, op)
        if model is None:
            return
        if not k:
            other_model = apply(ctx, other, other_model, ('remove', 'OTHER'))
    ctx.observe('history', history)
    got = check_tokenizer(ctx, 'tokenizer', tokenizer, model, text, view, history)
    ctx.observe('tokens', got)
    fresh = make(p['morph'], list(model))
    ctx.check(shown(fresh(text)) == got, 'tokenizer of the rules left after %s' % (history,))
    check_tokenizer(ctx, 'other tokenizer', other, other_model, text, view, history)
    check_tokenizer(ctx, 'default tokenizer', make(p['morph']), ORIGINAL, text, view, history)
    check_tokenizer(ctx, 'earlier default tokenizer', before, ORIGINAL, text, view, history)
    ctx.check(len(given) == 3 and all(a is b for a, b in zip(given, mine)), 'list of rules given is changed')
    ctx.check(len(RULES) == 6 and all(a is b for a, b in zip(RULES, ORIGINAL)), 'default rules are changed')


PLAN = {
    # ops, depth, text, alphabet
    'quick': [('all', 1, 3, 'abя1. \n'), ('all', 2, 2, 'ab1. '), ('few', 3, 1, 'aя1\n')],
    'thorough': [('all', 1, 4, 'aBя1. \n'), ('all', 2, 3, 'abя1.'), ('few', 3, 3, 'ab1 '), ('few', 4, 1, 'aя1\n')],
}


def shards(tier):
    out = []
    for ops, depth, top, domain in PLAN[tier]:
        for first in range(len(OPS if ops == 'all' else FEW)):
            out.append(('%s-%d-%d' % (ops, depth, first), {
                'ops': ops, 'depth': depth, 'max': top, 'domain': domain, 'first': first,
                'morph': (first + depth) % 2}))
    return out


BOUNDS = {
    tier: '; '.join('all sequences of %d calls out of %d on a tokenizer of the default or of given rules, texts of '
                    '1..%d characters of %r' % (depth, len(OPS if ops == 'all' else FEW), top, domain)
                    for ops, depth, top, domain in plan)
    + '. Two other tokenizers (one reconfigured in between) and the default rules are checked along'
    for tier, plan in PLAN.items()
}
COVER = {'all': ['added', 'removed', 'unknown type']}
ASSUMPTIONS = [
    'the re module is replaced by a matcher with its semantics; character sets are asked from re itself',
    'the same rule object is not added twice to one tokenizer',
]
