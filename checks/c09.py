"""C09: joining tokens restores the text up to the size of gaps."""
from yargy.morph import Form, Grams
from yargy.span import Span
from yargy.token import (
    Token, MorphToken, TagToken, MorphTagToken,
    join_tokens, join_normalized_tokens, join_inflected_tokens, get_tokens_span
)
from yargy.interpretation.interpretator import Chain
from yargy.interpretation.normalizer import NormalizedNormalizer, InflectedNormalizer


class Record(object):
    def __init__(self, word):
        self.word = word


class Raw(object):
    """Analysis of pymorphy2."""

    def __init__(self, word, log):
        self.word = word   # None: can not be inflected
        self.log = log

    def inflect(self, grams):
        self.log.append(grams)
        return None if self.word is None else Record(self.word)


KINDS = ['plain', 'morph', 'tag', 'morphtag']


def make(ctx, i, span, kind, size, log, domain):
    """Token, its normal form and inflection."""
    value = ctx.string('v%d' % i, size, domain)
    if kind in ('plain', 'tag'):
        token = Token(value, span, 'OTHER') if kind == 'plain' else TagToken(value, span, 'OTHER', 'T')
        low = value.lower()
        return token, value, low, low
    forms = []
    for k in range(2):
        word = ctx.string('w%d_%d' % (i, k), 1) if not k and ctx.choice('inflected%d' % i, 2) else (
            'other' if k else None)
        forms.append(Form(ctx.string('n%d_%d' % (i, k), 1), Grams({'NOUN'}), raw=Raw(word, log)))
    normal = forms[0].normalized
    word = forms[0].raw.word
    if kind == 'morph':
        token = MorphToken(value, span, 'RU', forms)
    else:
        token = MorphTagToken(value, span, 'RU', 'T', forms)
    return token, value, normal, normal if word is None else word


def joined(gaps, values):
    out = ''
    for k, value in enumerate(values):
        if k and gaps[k]:
            out = out + ' '
        out = out + value
    return out


def harness(ctx):
    p = ctx.params
    n = ctx.choice('tokens', p['max'] + 1)
    kinds = [ctx.pick('kind%d' % i, p['kinds']) if i else p['kinds'][p['first']] for i in range(n)]
    log = []
    tokens, values, normals, words, gaps = [], [], [], [], []
    stop = ctx.int('before', 0)
    for i in range(n):
        start = stop + ctx.int('gap%d' % i, 0)
        gaps.append(ctx.concrete(start > stop))
        stop = start + ctx.int('size%d' % i, 1)
        token, value, normal, word = make(ctx, i, Span(start, stop), kinds[i], p['size'], log,
                                          p.get('domain'))
        tokens.append(token)
        values.append(value)
        normals.append(normal)
        words.append(word)
    grams = {'plur', 'gent'}
    given = ctx.choice('input', 2)

    def items():
        return iter(tokens) if given else list(tokens)
    plain = join_tokens(items())
    ctx.observe('joined', plain)
    ctx.check_equal(plain, joined(gaps, values), 'joined tokens')
    ctx.check_equal(join_normalized_tokens(items()), joined(gaps, normals), 'joined normal forms')
    del log[:]
    ctx.check_equal(join_inflected_tokens(items(), grams), joined(gaps, words), 'joined inflections')
    ctx.check(len(log) == sum(k.startswith('morph') for k in kinds) and all(g == grams for g in log),
              'inflected to other grammemes')
    if n:
        span = get_tokens_span(tokens)
        ctx.check_equal((span.start, span.stop), (tokens[0].span.start, tokens[-1].span.stop), 'span')
        for chain, key in ((Chain(tokens, None), None), (Chain(tokens, 'line'), 'line')):
            ctx.check_equal(chain.normalized, joined(gaps, values), 'text of the words')
            ctx.check_equal(NormalizedNormalizer()(chain), key or joined(gaps, normals), 'normalized()')
            ctx.check_equal(InflectedNormalizer(grams)(chain), joined(gaps, words), 'inflected()')
    # nothing happens to the tokens
    for token, value, kind in zip(tokens, values, kinds):
        ctx.check_equal(token.value, value, 'value of the token afterwards')
    if any(gaps[1:]):
        ctx.cover('gap')
    if n > 1 and not all(gaps[1:]):
        ctx.cover('adjacent')
    for kind in kinds:
        ctx.cover(kind)


def lines(ctx):
    """Words cut from a text: joining gives it back with single spaces."""
    from yargy.tokenizer import Tokenizer
    p = ctx.params
    n = ctx.choice('length', p['max'] + 1)
    text = ctx.string('c', n, p['domain'])
    tokens = list(Tokenizer()(text))
    out = ''
    blank = False
    for i in range(n):
        c = text[i]
        if ctx.concrete(ctx.eq(c, ' ')):
            blank = bool(len(out))
        else:
            if blank:
                out = out + ' '
            blank = False
            out = out + c
    ctx.observe('text', out)
    ctx.check_equal(join_tokens(tokens), out, 'text joined')
    ctx.cover('text')


PLAN = {
    'quick': [('one', 1, KINDS, 1), ('all', 3, KINDS, 2), ('two', 4, ['plain', 'morph'], 1), ('text', 6, 'aя, .', None)],
    'thorough': [('one', 2, KINDS, 1), ('all', 4, KINDS, 2), ('two', 6, ['plain', 'morphtag'], 1), ('text', 8, 'aя, .\n', None)],
}


def shards(tier):
    out = []
    for name, top, what, size in PLAN[tier]:
        if name == 'text':
            out.append((name, {'h': 'lines', 'max': top, 'domain': what.replace('\n', '')}))
        else:
            for first in range(len(what)):
                out.append(('%s-%d' % (name, first), {
                    'max': top, 'kinds': what, 'size': size, 'first': first,
                    'domain': None if name == 'one' else 'ЯzQ1'}))
    return out


BOUNDS = {
    tier: '; '.join(
        'texts of up to %d characters of %r' % (top, what) if name == 'text' else
        '0..%d tokens of kinds %s, values of %d %scharacters, any spans in order' % (
            top, what, size, 'arbitrary ' if name == 'one' else '("ЯzQ1") ')
        for name, top, what, size in plan)
    for tier, plan in PLAN.items()
}
COVER = {'all': ['gap', 'adjacent', 'text'] + KINDS}
ASSUMPTIONS = ['forms come from a stub of the underlying analyzer with arbitrary normal forms and inflections']
