"""C07: default tokenization is a faithful, ordered partition of the text."""
from yargy.morph import Form, Grams
from yargy.token import MorphToken
from yargy.tokenizer import Tokenizer, MorphTokenizer

# the documented punctuation marks
MARKS = '-\\/!#$%&()[]*+,.:;<=>?@^_`{|}~№…"\'«»„“ʼʻ”'

PLAIN = {chr(p) for p in list(range(ord('а'), ord('я') + 1)) + list(range(ord('А'), ord('Я') + 1))
         + list(range(ord('a'), ord('z') + 1)) + list(range(ord('A'), ord('Z') + 1))} | {'ё', 'Ё'}
# characters that fold to a Cyrillic or Latin letter without being one
EXOTIC = [chr(p) for p in range(0x110000)
          if not 0xd800 <= p <= 0xdfff and chr(p) not in PLAIN
          and {chr(p).lower(), chr(p).upper(), chr(p).casefold(), chr(p).lower()[:1]} & PLAIN]


class StubMorph(object):
    def __init__(self):
        self.words = []

    def __call__(self, word):
        forms = [Form(word, Grams({'NOUN', str(len(self.words))}))]
        self.words.append((word, forms))
        return forms


def kind(ctx, c):
    """Class of a character, decided on the path."""
    def decide(cond):
        return ctx.concrete(cond)
    if decide(ctx.or_(ctx.eq(c, '\n'), ctx.eq(c, '\r'))):
        return 'EOL'
    if decide(c.isspace()):
        return None
    if decide(ctx.or_(ctx.between(c, 'а', 'я'), ctx.between(c, 'А', 'Я'),
                      ctx.eq(c, 'ё'), ctx.eq(c, 'Ё'))):
        return 'RU'
    if decide(ctx.or_(ctx.between(c, 'a', 'z'), ctx.between(c, 'A', 'Z'))):
        return 'LATIN'
    if decide(c.isdecimal()):
        return 'INT'
    if decide(ctx.or_(*[ctx.eq(c, x) for x in MARKS])):
        return 'PUNCT'
    return 'OTHER'


RUNS = {'RU', 'LATIN', 'INT', 'EOL'}


def reference(ctx, text, n):
    """(type, start, stop) of the tokens."""
    out = []
    for i in range(n):
        k = kind(ctx, text[i])
        if k is None:
            continue
        if k in RUNS and out and out[-1][0] == k and out[-1][2] == i:
            out[-1] = k, out[-1][1], i + 1
        else:
            out.append((k, i, i + 1))
    return out


def get_text(ctx):
    p = ctx.params
    n = ctx.choice('length', p['max'] + 1)
    return ctx.string('c', n, p.get('domain')), n


def exotic(ctx, text, n):
    return ctx.or_(*[ctx.eq(text[i], x) for i in range(n) for x in EXOTIC])


def check_values(ctx, tokens, text):
    for t in tokens:
        start, stop = t.span
        ctx.check_equal(t.value, text[start:stop], 'value of the token at %d..%d' % (start, stop))


def types(ctx):
    """Tokens are exactly those of the reference."""
    p = ctx.params
    text, n = get_text(ctx)
    if 'first' in p:
        # this part: texts that start with this kind of character
        if not n or kind(ctx, text[0]) != p['first']:
            return
    if not p.get('domain'):
        ctx.assume(ctx.not_(exotic(ctx, text, n)))
    morph = StubMorph()
    tokenizer = MorphTokenizer(morph=morph) if p['morph'] else Tokenizer()
    tokens = list(tokenizer(text))
    got = [(t.type, t.span.start, t.span.stop) for t in tokens]
    ctx.observe('tokens', got)
    expected = reference(ctx, text, n)
    ctx.check(got == expected, 'tokens %s, expected %s' % (got, expected))
    for t in expected:
        ctx.cover(t[0])
    check_values(ctx, tokens, text)
    if p['morph']:
        used = 0
        for t in tokens:
            if t.type == 'RU':
                ctx.check(type(t) is MorphToken, 'RU token without forms')
                word, forms = morph.words[used]
                ctx.check(t.forms == forms and t.forms[0] is forms[0], 'forms of another word')
                ctx.check_equal(word, t.value, 'word analysed')
                used += 1
            else:
                ctx.check(not isinstance(t, MorphToken), '%s token has forms' % t.type)
        ctx.check(used == len(morph.words), 'words analysed')
    else:
        ctx.check_equal(tokenizer.split(text), [text[a:b] for _, a, b in expected], 'split')


def partition(ctx):
    """Any code points, case folding oddities included."""
    text, n = get_text(ctx)
    tokenizer = MorphTokenizer(morph=StubMorph()) if ctx.params['morph'] else Tokenizer()
    tokens = list(tokenizer(text))
    ctx.observe('tokens', [(t.type, t.span.start, t.span.stop) for t in tokens])
    inside = [0] * n
    previous = 0
    for t in tokens:
        start, stop = t.span
        ctx.check(previous <= start < stop <= n, 'tokens out of order or empty')
        previous = stop
        for i in range(start, stop):
            inside[i] += 1
    check_values(ctx, tokens, text)
    for i in range(n):
        c = text[i]
        needed = ctx.or_(ctx.not_(c.isspace()), ctx.eq(c, '\n'), ctx.eq(c, '\r'))
        if inside[i]:
            ctx.check(needed, 'blank at %d in a token' % i)
            ctx.cover('inside')
        else:
            ctx.check(ctx.not_(needed), 'character at %d in no token' % i)
            ctx.cover('outside')


DOMAINS = {
    'letters': 'бЁzZ',
    'digits': '7٣x-',
    'lines': '\n\r я',
    'mixed': 'я1\n. \x85',
    'signs': '.._+@№',
    'exotic': ''.join(EXOTIC[:4]) + 'aя',
}
PLAN = {
    'quick': {'any': 4, 'partition': 3, 'letters': 6, 'digits': 6, 'lines': 6, 'mixed': 5, 'signs': 5, 'exotic': 4},
    'thorough': {'any': 5, 'partition': 5, 'letters': 9, 'digits': 9, 'lines': 9, 'mixed': 7, 'signs': 8, 'exotic': 6},
}


def shards(tier):
    out = []
    plan = PLAN[tier]
    for morph in (0, 1):
        for first in ('RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER', None):
            out.append(('any-%d-%s' % (morph, first), {
                'h': 'types', 'max': plan['any'] - morph, 'morph': morph, 'first': first}))
        out.append(('partition-%d' % morph, {'h': 'partition', 'max': plan['partition'] - morph, 'morph': morph}))
        for name, domain in DOMAINS.items():
            h = 'partition' if name == 'exotic' else 'types'
            out.append(('%s-%d' % (name, morph), {
                'h': h, 'max': plan[name] - morph, 'morph': morph, 'domain': domain}))
    return out


BOUNDS = {
    tier: 'texts of up to %d characters over all code points (one less with morphology), up to %s characters over '
          'the alphabets %s' % (plan['any'], '/'.join(str(plan[d]) for d in DOMAINS), list(DOMAINS.values()))
    for tier, plan in PLAN.items()
}
COVER = {'all': ['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER', 'inside', 'outside']}
ASSUMPTIONS = [
    'the re module is replaced by a matcher with its semantics; character sets are asked from re itself',
    'for the %d characters that only fold to Cyrillic or Latin letters (%s) the type is not claimed, just the '
    'partition' % (len(EXOTIC), ' '.join('U+%04X' % ord(c) for c in EXOTIC)),
    'lone surrogates are excluded',
]
