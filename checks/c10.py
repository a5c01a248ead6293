"""C10: value predicates decide exactly what they document."""
from yargy import Parser, rule
from yargy import predicates as P
from yargy.morph import Form, Grams
from yargy.parser import Context
from yargy.span import Span
from yargy.tagger import PassTagger
from yargy.token import Token, MorphToken, TagToken, MorphTagToken
from yargy.tokenizer import Tokenizer

from .grammar import IdTokenizer

TYPES = ['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER']
DOMAINS = {
    'letters': 'aAzЯяё1.ǅ',   # with a titlecase letter
    'digits': '0189٣a',
    'words': 'abAB',
    'folding': 'ßſsSΣσςİi',   # where lower case, upper case and case folding differ
}


def make_token(ctx, value, type, name='class'):
    k = ctx.choice(name, 4)
    forms = [Form('n', Grams({'NOUN'}))]
    span = Span(3, 7)
    if k == 0:
        return Token(value, span, type)
    if k == 1:
        return MorphToken(value, span, type, forms)
    if k == 2:
        return TagToken(value, span, type, 'T')
    return MorphTagToken(value, span, type, 'T', forms)


def get_value(ctx, name='v'):
    """String of arbitrary length up to a bound over the alphabet of the shard."""
    p = ctx.params
    n = ctx.choice('length of ' + name, p['max']) + 1
    return ctx.string(name, n, p.get('domain'))


def decide(ctx, predicate, token, expected, what):
    context = Context(IdTokenizer(), PassTagger())
    active = predicate.activate(context)
    got = active(token)
    ctx.observe(what, ctx.or_(got, False))
    if ctx.concrete(expected):
        ctx.cover('%s true' % what)
        ctx.check(got, what + ' rejects %s', token.value)
    else:
        ctx.cover('%s false' % what)
        ctx.check(ctx.not_(got), what + ' accepts %s', token.value)
    # the same in a parser
    match = Parser(rule(predicate), tokenizer=IdTokenizer()).match([token])
    ctx.check((match is not None) == ctx.concrete(expected), what + ' in a rule')


FOLDING = [{'ß', 'İ'}, {'ss', 'sß', 'i̇'}, {'Σ', 'Ss', 'i'}, {'ſ', 'ς', 'ßΣ'}, {'I', 'K', 'ǅ'}]


def strings(ctx):
    what = ctx.params['what']
    value = get_value(ctx)
    token = make_token(ctx, value, ctx.pick('type', ['RU', 'OTHER', 'INT']))
    if what == 'eq':
        x = get_value(ctx, 'x')
        decide(ctx, P.eq(x), token, ctx.eq(value, x), what)
    elif what == 'caseless':
        x = get_value(ctx, 'x')
        decide(ctx, P.caseless(x), token, ctx.eq(value.lower(), x.lower()), what)
    elif what == 'in_':
        x, y = get_value(ctx, 'x'), get_value(ctx, 'y')
        collection = ctx.pick('collection', [list, tuple])((x, y))
        decide(ctx, P.in_(collection), token, ctx.or_(ctx.eq(value, x), ctx.eq(value, y)), what)
    elif what == 'in_ set':
        items = ctx.pick('items', FOLDING if ctx.params['domain'] == DOMAINS['folding'] else [{'a', 'bA'}, {'ab'}, set(), {'A', 'B', 'aB'}, {'abb', 'b'}])
        collection = ctx.pick('collection', [set, frozenset, sorted, dict.fromkeys])(items)
        decide(ctx, P.in_(collection), token, ctx.or_(*[ctx.eq(value, x) for x in sorted(items)]), what)
    elif what == 'in_caseless':
        items = ctx.pick('items', FOLDING if ctx.params['domain'] != DOMAINS['words'] else [
            {'a', 'bA'}, {'AB'}, set(), {'A', 'b', 'aB'}, {'Abb', 'B'}])
        collection = ctx.pick('collection', [set, sorted])(items)
        low = value.lower()
        decide(ctx, P.in_caseless(collection), token,
               ctx.or_(*[ctx.eq(low, x.lower()) for x in sorted(items)]), what)
    elif what == 'length_eq':
        k = ctx.int('k', -1, 5)
        decide(ctx, P.length_eq(k), token, ctx.eq(k, len(value)), what)


def cases(ctx):
    what = ctx.params['what']
    value = get_value(ctx)
    token = make_token(ctx, value, ctx.pick('type', ['RU', 'OTHER']))
    if what == 'is_lower':
        decide(ctx, P.is_lower(), token, value.islower(), what)
    elif what == 'is_upper':
        decide(ctx, P.is_upper(), token, value.isupper(), what)
    elif what == 'is_title':
        decide(ctx, P.is_title(), token, value.istitle(), what)
    elif what == 'is_capitalized':
        decide(ctx, P.is_capitalized(), token, value[0].isupper(), what)
    elif what == 'true':
        decide(ctx, P.true(), token, True, what)
        ctx.cover('true false')


DIGITS = dict([(str(d), d) for d in range(10)] + [('٣', 3)])


def numbers(ctx):
    """gte, lte on digits and on anything that is not INT."""
    what = ctx.params['what']
    type = ctx.pick('type', TYPES)
    n = ctx.choice('length', ctx.params['max']) + 1
    # tokens of other types hold anything
    value = ctx.string('v', n, '0189٣' if type == 'INT' else DOMAINS['digits'])
    token = make_token(ctx, value, type)
    k = ctx.int('k', -5, 10 ** ctx.params['max'])
    expected = False
    if type == 'INT':
        number = 0
        for i in range(n):
            digit = 0
            for c, d in DIGITS.items():
                digit = ctx.ite(ctx.eq(value[i], c), d, digit)
            number = number * 10 + digit
        expected = number >= k if what == 'gte' else number <= k
    decide(ctx, P.gte(k) if what == 'gte' else P.lte(k), token, expected, what)


def types(ctx):
    type = ctx.pick('type', TYPES)
    wanted = ctx.pick('wanted', TYPES)
    token = make_token(ctx, get_value(ctx), type)
    decide(ctx, P.type(wanted), token, type == wanted, 'type')


def customs(ctx):
    type = ctx.pick('type', TYPES)
    value = get_value(ctx)
    token = make_token(ctx, value, type)
    result = ctx.flag('result')
    given = ctx.pick('types', [None, 'RU', ['INT'], ('RU', 'OTHER'), ['LATIN', 'RU', 'INT'], ('PUNCT',)])
    calls = []

    def f(x):
        calls.append(x)
        return result
    predicate = P.custom(f, types=given) if given is not None else P.custom(f)
    names = [given] if isinstance(given, str) else given
    applied = names is None or type in names
    decide(ctx, predicate, token, ctx.and_(applied, result), 'custom')
    if applied:
        ctx.check(len(calls) > 0, 'function is not called')
        for x in calls:
            ctx.check_equal(x, value, 'argument of the function')
    else:
        ctx.check(not calls, 'function is called on a token of another type')


def truthy(ctx):
    """Any kind of answer of the function counts as true or false."""
    answer = ctx.pick('answer', [None, 0, 1, '', 'x', [], [0], True, False])
    token = make_token(ctx, 'a', 'RU')
    predicate = P.custom(lambda x: answer, types=ctx.pick('types', [None, 'RU']))
    match = Parser(rule(predicate), tokenizer=IdTokenizer()).match([token])
    ctx.check((match is not None) == bool(answer), 'answer %r of the function' % (answer,))
    ctx.cover('truthy')


PLAN = {'quick': {'words': 2, 'folding': 2, 'letters': 2, 'any': 1, 'numbers': 3},
        'thorough': {'words': 3, 'folding': 3, 'letters': 4, 'any': 1, 'numbers': 5}}
STRINGS = ['eq', 'caseless', 'in_', 'in_ set', 'in_caseless', 'length_eq']
CASES = ['is_lower', 'is_upper', 'is_title', 'is_capitalized', 'true']


def shards(tier):
    plan = PLAN[tier]
    out = []
    for what in STRINGS:
        out.append(('%s-words' % what, {'h': 'strings', 'what': what, 'max': plan['words'], 'domain': DOMAINS['words']}))
        out.append(('%s-any' % what, {'h': 'strings', 'what': what, 'max': plan['any'], 'domain': None}))
    for what in ('eq', 'caseless', 'in_caseless', 'in_ set'):
        out.append(('%s-folding' % what, {'h': 'strings', 'what': what, 'max': plan['folding'], 'domain': DOMAINS['folding']}))
    for what in CASES:
        out.append(('%s-letters' % what, {'h': 'cases', 'what': what, 'max': plan['letters'], 'domain': DOMAINS['letters']}))
        out.append(('%s-any' % what, {'h': 'cases', 'what': what, 'max': plan['any'], 'domain': None}))
    for what in ('gte', 'lte'):
        out.append((what, {'h': 'numbers', 'what': what, 'max': plan['numbers']}))
    out.append(('type', {'h': 'types', 'max': 1, 'domain': None}))
    out.append(('custom', {'h': 'customs', 'max': 1, 'domain': None}))
    out.append(('truthy', {'h': 'truthy'}))
    return out


BOUNDS = {
    tier: 'values and parameters: any single code point, up to %d characters of "%s" and %d of "%s", case tests up to %d characters of '
          '"%s"; numbers of up to %d digits against any integer of -5..10^%d; all pairs of token types; four token classes' % (
              plan['words'], DOMAINS['words'], plan['folding'], DOMAINS['folding'], plan['letters'], DOMAINS['letters'], plan['numbers'], plan['numbers'])
    for tier, plan in PLAN.items()
}
COVER = {'all': ['%s %s' % (what, r) for what in STRINGS + CASES + ['gte', 'lte', 'type', 'custom']
                 for r in ('true', 'false')] + ['truthy']}
ASSUMPTIONS = [
    'values are non-empty, as every token has',
    'str methods on symbolic strings follow the tables of this interpreter',
]
