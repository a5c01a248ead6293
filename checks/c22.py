"""C22: ill-typed grammar and fact definitions are rejected when built."""
import itertools

from yargy import Parser, rule, or_, and_, not_, empty, forward
from yargy.interpretation import fact, attribute, normalized as normalized_, const
from yargy.morph import Form, Grams, MorphAnalyzer
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.predicates import eq, gram, type as type_, tag, is_predicate, normalized, dictionary, caseless, true
from yargy.relations import main, is_relation
from yargy.relations.constructors import Relation
from yargy.rule import is_rule
from yargy.tagger import Tagger, TaggersComposition
from yargy.token import Token, MorphToken
from yargy.tokenizer import Tokenizer, TokenRule, RULES

from . import grammar as G


class Agree(Relation):
    label = 'agree'

    def __call__(self, form, other):
        return True


F = fact('F', ['a', attribute('b', 1), attribute('r').repeatable()])

# name: (kind, make)
ITEMS = [
    ('predicate', lambda: eq('a')),
    ('predicate', lambda: and_(caseless('a'), not_(eq('b')))),
    ('predicate', lambda: gram('NOUN')),
    ('relation', lambda: Agree()),
    ('relation', lambda: not_(Agree())),
    ('rule', lambda: rule('a')),
    ('rule', lambda: rule('a').optional()),
    ('rule', lambda: forward()),
    ('rule', lambda: empty()),
    ('rule', lambda: pipeline(['a'])),
    ('rule', lambda: rule('a').interpretation(F.a)),
    ('word', lambda: 'a'),
    ('none', lambda: None),
    ('number', lambda: 1),
    ('main', lambda: main(eq('a'))),
    ('list', lambda: [eq('a')]),
    ('class', lambda: F),
]


def harness(ctx):
    """or_, and_ and not_ of items of any kinds."""
    p = ctx.params
    n = ctx.choice('items', p['items']) + 1
    chosen = [ITEMS[ctx.choice('item %d' % i, len(ITEMS))] for i in range(n)]
    kinds = {k for k, _ in chosen}
    items = [make() for _, make in chosen]
    kind, = kinds if len(kinds) == 1 else ('mixed',)
    for name, f, allowed in (('or_', or_, ('predicate', 'relation', 'rule')),
                             ('and_', and_, ('predicate', 'relation'))):
        check_kind(ctx, '%s of %s' % (name, [k for k, _ in chosen]), f, items, kind if kind in allowed else None)
    if n == 1:
        check_kind(ctx, 'not_ of %s' % kind, not_, items, kind if kind in ('predicate', 'relation') else None)


def check_kind(ctx, what, f, items, kind):
    try:
        result = f(*items)
    except TypeError:
        ctx.cover('TypeError')
        ctx.check(kind is None, what + ' is rejected')
        return
    ctx.check(kind is not None, what + ' is accepted')
    for k, test in (('predicate', is_predicate), ('relation', is_relation), ('rule', is_rule)):
        ctx.check(bool(test(result)) == (k == kind), what + ' is not a %s' % kind)
    ctx.cover('accepted ' + kind)


# ------------------------------------------------------------------ definitions of rules and facts

def methods(ctx):
    """Arguments of the methods of rules and others."""
    kind = ctx.choice('method', 9)
    item, make = ctx.pick('argument', ITEMS)
    x = make()
    more = ctx.choice('more', 3)
    base = [lambda: rule('a'), lambda: or_(rule('a'), rule('b')).optional(), lambda: rule('a').named('n')][more]()
    fs = [
        ('named', lambda: base.named(x), item == 'word'),
        ('match', lambda: base.match(x), item == 'relation'),
        ('interpretation', lambda: base.interpretation(x), item == 'class'),
        ('main', lambda: main(x), item in ('rule', 'predicate')),
        ('pipeline', lambda: [pipeline, caseless_pipeline, morph_pipeline][more](['b', x]), item == 'word'),
        ('parser', lambda: Parser(base, tokenizer=x), item == 'none'),
        ('tagger', lambda: Parser(base, tokenizer=G.IdTokenizer(), tagger=x), item == 'none'),
        ('rules of a tokenizer', lambda: Tokenizer(RULES[:more] + [x]), False),
        ('rules added', lambda: Tokenizer().add_rules(TokenRule('X', 'x'), x), False),
    ]
    if kind == 5 and item == 'none':
        # the default tokenizer needs morphology
        return
    what, f, valid = fs[kind]
    try:
        result = f()
    except TypeError:
        ctx.cover('argument rejected')
        ctx.check(not valid, '%s(%s) is rejected' % (what, item))
    else:
        ctx.cover('argument accepted')
        ctx.check(valid, '%s(%s) is accepted' % (what, item))
        ctx.check(result is not None, '%s(%s)' % (what, item))


def quantifiers(ctx):
    """Bounds and direction of quantifiers."""
    kind = ctx.choice('kind', 4)
    # how the bounds are given
    low = ctx.int('min', -2, 3) if kind in (1, 3) else None
    high = ctx.int('max', -2, 3) if kind in (2, 3) else None
    kwargs = {}
    if low is not None:
        kwargs['min'] = low
    if high is not None:
        kwargs['max'] = high
    reverse = ctx.pick('reverse', ['not given', False, True, None, 1, 0, 'yes', []])
    if reverse != 'not given':
        kwargs['reverse'] = reverse
    base = ctx.pick('rule', [lambda: rule('a'), lambda: or_(rule('a'), rule('b')).optional(), lambda: forward(),
                             lambda: pipeline(['a'])])()
    optional = not kind and ctx.choice('optional', 2)
    what = 'optional' if optional else 'repeatable'
    typed = reverse == 'not given' or reverse is True or reverse is False
    bounded = ctx.concrete(ctx.and_(low is None or low >= 1, high is None or high >= 1,
                                    low is None or high is None or high >= low))
    try:
        result = getattr(base, what)(**kwargs)
    except TypeError:
        ctx.check(not typed, '%s with reverse %r is rejected' % (what, reverse))
        ctx.cover('reverse rejected')
    except ValueError:
        ctx.check(not bounded, '%s: bounds are rejected' % what)
        ctx.cover('bounds rejected')
    else:
        ctx.check(typed, '%s with reverse %r is accepted' % (what, reverse))
        ctx.check(bounded, '%s: bounds are accepted' % what)
        ctx.check(is_rule(result), '%s is not a rule' % what)
        ctx.cover('quantifier')


def interpretations(ctx):
    """What can be an interpretation."""
    kind = ctx.choice('kind', 12)
    valid = kind < 6
    x = [F, F.a, F.r, F.a.normalized(), normalized_(), const(1),
         'F', None, F(), dict, int, lambda x: x][kind]
    base = ctx.choice('base', 4)
    r = [rule('a'), rule('a').optional(), eq('a'), normalized('a')][base]
    if base > 1:
        # of a predicate: attributes and normalizers only
        valid = 0 < kind < 6
    e = ctx.raises(TypeError, lambda: r.interpretation(x))
    ctx.check((e is None) == valid, 'interpretation %d of %d' % (kind, base))
    ctx.cover('interpretation')


def words(ctx):
    """Other items of rule(...) are literal words."""
    n = ctx.choice('items', ctx.params['items']) + 1
    items, expected = [], []
    for i in range(n):
        kind = ctx.choice('item %d' % i, 4)
        v = ctx.char('v%d' % i, 'ab')
        items.append([lambda: v, lambda: eq(v), lambda: rule(v), lambda: main(rule(v))][kind]()
                     if kind < 3 or not any(k == 3 for k, _ in expected) else v)
        expected.append((kind, v))
    tokens = G.sym_tokens(ctx, n, 'abc')
    match = Parser(rule(*items), tokenizer=G.IdTokenizer()).match(tokens)
    ctx.check_equal(ctx.and_(*[ctx.eq(t.value, v) for t, (_, v) in zip(tokens, expected)]), match is not None,
                    'words of a rule')
    ctx.cover('words')


def facts(ctx):
    """Facts take declared attributes only."""
    declared = [n for n in 'abc' if ctx.choice('declared ' + n, 2)]
    kinds = {n: ctx.choice('kind of ' + n, 3) for n in declared}
    G_ = fact('G', [[n, attribute(n, 'default ' + n), attribute(n).repeatable()][kinds[n]]
                    if kinds[n] else n for n in declared])
    cls = G_
    if ctx.choice('subclass', 2):
        class Sub(G_):
            @property
            def label(self):
                return 1
        cls = Sub
    given = {n: i for i, n in enumerate(['a', 'b', 'c', 'd', 'label']) if ctx.choice('given ' + n, 2)}
    bad = [n for n in given if n not in declared]
    try:
        result = cls(**given)
    except KeyError:
        ctx.cover('KeyError')
        ctx.check(bad, 'fact of declared attributes is rejected')
        return
    ctx.check(not bad, 'fact with undeclared attributes %s' % bad)
    ctx.cover('fact')
    for n in declared:
        default = [None, 'default ' + n, []][kinds[n]]
        ctx.check(getattr(result, n) == (given[n] if n in given else default), 'attribute %s' % n)
    # of a repeatable attribute there is no default
    ctx.check(ctx.raises(ValueError, lambda: attribute('a', 1).repeatable()) is not None, 'default of repeatable')


# ------------------------------------------------------------------ forwards

CONTEXTS = [
    lambda x: x,
    lambda x: rule('a', x),
    lambda x: rule(x, 'a'),
    lambda x: or_(rule('a'), x),
    lambda x: or_(x, rule('a', x)),
    lambda x: x.optional(),
    lambda x: x.repeatable(),
    lambda x: x.repeatable(min=2, max=3),
    lambda x: x.named('n'),
    lambda x: x.interpretation(F.a),
    lambda x: x.match(Agree()),
    lambda x: rule('a', main(x)),
    lambda x: rule(rule(rule('a'), or_(rule('b'), rule('c', x)))),
    lambda x: rule('a', forward().define('b', x)),
    lambda x: rule('a', forward().define(or_(rule('b'), x.optional()))),
    lambda x: rule(empty(), x.repeatable(max=2).optional()),
]


def undefined(ctx):
    """A forward without a definition, anywhere in a grammar."""
    depth = ctx.params['depth']
    contexts = [ctx.choice('context %d' % i, len(CONTEXTS)) for i in range(ctx.choice('depth', depth) + 1)]
    defined = ctx.choice('defined', 3)
    # 0: undefined, 1: defined before use, 2: after
    x = forward()
    if defined == 1:
        x.define('a')
    r = x
    for k in reversed(contexts):
        r = CONTEXTS[k](r)
    if defined == 2:
        x.define(or_(rule('a'), rule('b', 'c')))
    if ctx.choice('another', 2):
        y = forward()
        y.define(or_(rule('z'), rule('y', y)))
        r = or_(rule(y), r)
    e = ctx.raises(TypeError, lambda: Parser(r, tokenizer=G.IdTokenizer()))
    ctx.check((e is not None) == (not defined), '%s forward in %s' % (
        'defined' if defined else 'undefined', contexts))
    ctx.cover('undefined' if not defined else 'defined')
    if not defined:
        # defined later it is accepted
        x.define('a')
        Parser(r, tokenizer=G.IdTokenizer())


def bare(ctx):
    """A forward defined as a bare forward."""
    x, y = forward(), forward()
    if ctx.choice('y is defined', 2):
        y.define('a')
    if ctx.choice('x is defined', 2):
        x.define('b')
    kind = ctx.choice('kind', 11)
    wrap = ctx.choice('through', 3)
    target = [x, x.named('n'), x.optional().interpretation(F.a)][wrap]
    definition = [
        (y,), (x,), (forward(),),
        (y, 'a'), ('a', y), (y.optional(),), (y.named('n'),), (rule(y),), (or_(y, rule('a')),), ('a',), (empty(),)
    ][kind]
    bad = kind < 3
    e = ctx.raises(ValueError, lambda: target.define(*definition))
    ctx.check((e is not None) == bad, 'definition %d' % kind)
    ctx.cover('bare' if bad else 'not bare')


# ------------------------------------------------------------------ interpretation of the root

ROOTS = [
    # rule, is it interpreted as a whole
    (lambda: rule('a'), 0),
    (lambda: rule(rule('a').interpretation(F.a)), 0),
    (lambda: rule('a', rule('b').interpretation(F.a).optional()), 0),
    (lambda: rule('a').named('n'), 0),
    (lambda: or_(rule('a').interpretation(F), rule('b').interpretation(F)), 0),
    (lambda: rule('a').interpretation(F).repeatable(), 0),
    (lambda: rule(rule('a').interpretation(F.a).interpretation(F)), 0),
    (lambda: pipeline(['a', 'b']), 0),
    (lambda: forward().define(rule('a', rule('b').interpretation(F).optional())), 0),
    (lambda: rule('a').interpretation(F), 1),
    (lambda: rule('a').interpretation(F.a), 1),
    (lambda: rule('a').interpretation(normalized_()), 1),
    (lambda: rule(rule('a').interpretation(F.a)).interpretation(F), 1),
    (lambda: or_(rule('a'), rule('b')).interpretation(F), 1),
    (lambda: pipeline(['a', 'b']).interpretation(F.a), 1),
    (lambda: rule('a').repeatable().interpretation(F), 1),
    (lambda: rule('a').interpretation(F.a).interpretation(F), 1),
    (lambda: rule('a', 'b').named('n').interpretation(F), 1),
]


def root(ctx):
    make, interpreted = ctx.pick('root', ROOTS)
    n = ctx.choice('tokens', 2) + 1
    tokens = G.sym_tokens(ctx, n, 'ab')
    parser = Parser(make(), tokenizer=G.IdTokenizer())
    matches = [getattr(parser, ctx.pick('method', ['match', 'find']))(tokens)]
    matches += list(parser.extract(tokens)) + list(parser.findall(tokens))
    for match in matches:
        if match is not None:
            e = ctx.raises(ValueError, lambda: match.fact)
            ctx.check((e is None) == bool(interpreted), 'fact of a match, interpreted: %d' % interpreted)
            ctx.cover('fact of a match' if interpreted else 'no interpretation')


# ------------------------------------------------------------------ parameters

class TagClass(object):
    """Grammemes known: symbolic."""

    def __init__(self, known):
        self.known = known

    def grammeme_is_known(self, gram):
        return self.known[gram]


class RawMorph(object):
    def __init__(self, known):
        self.TagClass = TagClass(known)


class Tags(Tagger):
    def __init__(self, tags):
        self.tags = tags

    def __call__(self, tokens):
        return tokens


PLACES = [
    lambda f, x: f(x),
    lambda f, x: not_(f(x)),
    lambda f, x: and_(true(), f(x)),
    lambda f, x: or_(f(x), eq('a')),
    lambda f, x: or_(eq('a'), not_(and_(f(x), eq('b')))),
    lambda f, x: rule('a', f(x)),
    lambda f, x: rule(f(x), 'a').optional().named('n'),
    lambda f, x: or_(rule('a'), rule(f(x)), rule('b')),
    lambda f, x: rule(rule(f(x)).repeatable(min=2), 'a'),
    lambda f, x: rule('a', rule(or_(rule('b'), rule('c', main(f(x))))).interpretation(F)),
    lambda f, x: rule('a', forward().define('b', rule(f(x)).optional())),
    lambda f, x: rule(empty(), rule('a', f(x)).match(Agree())),
    lambda f, x: rule(f(x).interpretation(F.a)),
    lambda f, x: rule(f(x).match(Agree()), 'a'),
    lambda f, x: rule(f(x).optional(), f(x).repeatable()),
]


def parameters(ctx):
    """Grammemes, types and tags that are not known, anywhere in a grammar."""
    kind = ctx.params['kind']
    place = ctx.choice('place', len(PLACES))
    tokenizer = G.IdTokenizer()
    tagger = None
    if kind == 'gram':
        x = ctx.pick('gram', ['NOUN', 'VERB', 'xxx'])
        known = {g: ctx.flag('knows ' + g) for g in ('NOUN', 'VERB', 'xxx')}
        tokenizer = G.IdTokenizer(MorphAnalyzer(RawMorph(known)))
        f, ok = gram, known[x]
    elif kind == 'type':
        x = ctx.string('type', 1, 'XYZ')
        removed = [t for t in 'XY' if ctx.choice('remove ' + t, 2)]
        tokenizer.remove_types('INT').add_rules(TokenRule('X', 'x'), TokenRule('Y', 'y'))
        if removed:
            tokenizer.remove_types(*removed)
        f = type_
        ok = ctx.and_(ctx.not_(ctx.eq(x, 'Z')), *[ctx.not_(ctx.eq(x, t)) for t in removed])
    elif kind == 'default type':
        x = ctx.pick('type', ['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER', 'ru', 'WORD', ''])
        f, ok = type_, x in ('RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER')
    else:
        x = ctx.string('tag', 1, 'BIO')
        f = tag
        how = ctx.choice('tagger', 4)
        first, second = Tags([ctx.char('t0', 'BIO')]), Tags([ctx.char('t1', 'BIO'), 'B'])
        tagger = [None, first, second, TaggersComposition([first, second])][how]
        ok = ctx.or_(False, *[ctx.eq(x, t) for t in [[], first.tags, second.tags, first.tags + second.tags][how]])
    r = PLACES[place](f, x)
    if not is_rule(r):
        r = rule(r)
    e = ctx.raises(ValueError, lambda: Parser(r, tokenizer=tokenizer, tagger=tagger))
    ctx.check_equal(ok, e is None, 'parser with %s known, place %d' % (kind, place))
    ctx.cover('known' if e is None else 'unknown')


PLAN = {'quick': {'items': 3, 'words': 2, 'depth': 2}, 'thorough': {'items': 4, 'words': 3, 'depth': 3}}


def shards(tier):
    p = PLAN[tier]
    out = [('kinds', {'items': p['items']})]
    for name in ('methods', 'quantifiers', 'interpretations', 'facts', 'bare', 'root'):
        out.append((name, {'h': name}))
    out.append(('words', {'h': 'words', 'items': p['words']}))
    out.append(('undefined', {'h': 'undefined', 'depth': p['depth']}))
    for kind in ('gram', 'type', 'default type', 'tag'):
        out.append((kind, {'h': 'parameters', 'kind': kind}))
    return out


BOUNDS = {
    tier: 'or_, and_ of 1..%d arguments of %d kinds each; all subsets of 3 declared and 5 given attributes; '
          'forwards in up to %d of %d nested contexts; grammemes, types and tags in %d places; rules of up to %d literal words; bounds of quantifiers -2..3, symbolic; %d '
          'roots with and without interpretation' % (
              p['items'], len(ITEMS), p['depth'], len(CONTEXTS), len(PLACES), p['words'], len(ROOTS))
    for tier, p in PLAN.items()
}
COVER = {'all': ['TypeError', 'accepted predicate', 'accepted relation', 'accepted rule', 'argument rejected',
                 'argument accepted', 'interpretation', 'words', 'KeyError', 'fact', 'undefined', 'defined', 'bare',
                 'not bare', 'reverse rejected', 'bounds rejected', 'quantifier', 'fact of a match', 'no interpretation', 'known', 'unknown']}
ASSUMPTIONS = [
    'or_() and and_() without arguments are not covered',
    'the analyzer says of each grammeme whether it is known (symbolically)',
]
