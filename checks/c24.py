"""C24: the morphology wrapper reports the analyzer faithfully."""
from contextlib import contextmanager

import pymorphy2
from yargy import morph as module
from yargy.morph import MorphAnalyzer, CachedMorphAnalyzer, Form, Grams
from yargy.span import Span
from yargy.token import Token, MorphToken, TagToken
from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule

GENDER = {'male': ['masc'], 'female': ['femn'], 'neutral': ['neut'], 'bi': ['Ms-f', 'ms-f'], 'general': ['GNdr']}
NUMBER = {'single': ['sing'], 'plural': ['plur'], 'only_single': ['Sgtm'], 'only_plural': ['Pltm']}
CASES = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct']


# ------------------------------------------------ arbitrary underlying analyzer

class Tag(object):
    def __init__(self, grammemes):
        self.grammemes = grammemes

    def __contains__(self, gram):
        return gram in self.grammemes


class Inflected(object):
    def __init__(self, word):
        self.word = word
        self.normal_form = None


class Parse(object):
    def __init__(self, raw, name, word):
        ctx = raw.ctx
        self.raw = raw
        self.name = name
        self.word = word
        self.normal_form = ctx.string(name + ' normal', raw.length, raw.domain)
        self.tag = Tag(ctx.set(name + ' grams', raw.grams))
        self.inflected = {}

    def answer(self, grams):
        # arbitrary for each set of grammemes
        key = ','.join(sorted(grams))
        if key not in self.inflected:
            ctx = self.raw.ctx
            name = '%s %s' % (self.name, key)
            self.inflected[key] = Inflected(ctx.char(name)) if ctx.choice(name + ' exists', 2) else None
        return self.inflected[key]

    def inflect(self, grams):
        return self.answer(grams)


class Raw(object):
    """Answers are a function of the word, otherwise arbitrary."""

    def __init__(self, ctx, name, most, grams, length=1, domain=None, known=()):
        self.ctx = ctx
        self.name = name
        self.most = most
        self.grams = grams
        self.length = length
        self.domain = domain
        self.words = []
        self.TagClass = type('TagClass', (), {'grammeme_is_known': staticmethod(
            lambda gram: ctx.concrete(ctx.or_(*[ctx.eq(gram, x) for x in known])))})

    def records(self, word):
        ctx = self.ctx
        for other, records in self.words:
            if len(other) == len(word) and ctx.concrete(ctx.eq(other, word)):
                return records
        name = '%s%d' % (self.name, len(self.words))
        records = [Parse(self, '%s.%d' % (name, k), word) for k in range(ctx.choice(name + ' analyses', self.most + 1))]
        self.words.append((word, records))
        return records

    def parse(self, word):
        return list(self.records(word))


@contextmanager
def installed(raw):
    """Analyzers without arguments use raw."""
    def create(*args, **kwargs):
        return raw
    previous = pymorphy2.MorphAnalyzer
    own = getattr(module, 'PymorphyAnalyzer', None)
    pymorphy2.MorphAnalyzer = create
    if own is not None:
        module.PymorphyAnalyzer = create
    try:
        yield
    finally:
        pymorphy2.MorphAnalyzer = previous
        if own is not None:
            module.PymorphyAnalyzer = own


def make(kind, raw):
    if kind == 'given':
        return MorphAnalyzer(raw)
    with installed(raw):
        return MorphAnalyzer() if kind == 'default' else CachedMorphAnalyzer()


def check_form(ctx, what, form, record, inflections=()):
    ctx.check(isinstance(form, Form), '%s: not a form' % what)
    ctx.check_equal(form.normalized, record.normal_form, '%s: normal form' % what)
    for gram in record.raw.grams:
        ctx.check_equal(ctx.member(gram, form.grams.values), ctx.member(gram, record.tag.grammemes),
                        '%s: grammeme %s' % (what, gram))
        ctx.check_equal(ctx.or_(form.grams.__contains__(gram), False), ctx.member(gram, record.tag.grammemes), '%s: %s in grams' % (what, gram))
    for grams in inflections:
        got = form.inflect() if grams is None else form.inflect(grams)
        if grams is None:
            grams = {'nomn', 'sing'}
        expected = record.answer(grams)
        if expected is None:
            ctx.check_equal(got, record.normal_form, '%s: inflected where it can not be' % what)
            ctx.cover('not inflected')
        else:
            ctx.check_equal(got, expected.word, '%s: inflected' % what)
            ctx.cover('inflected')


def check_forms(ctx, what, forms, records, inflections=()):
    forms = list(forms)
    ctx.observe('forms', len(forms))
    ctx.check(len(forms) == len(records), '%s: %d forms of %d analyses' % (what, len(forms), len(records)))
    for k, (form, record) in enumerate(zip(forms, records)):
        check_form(ctx, '%s: form %d' % (what, k), form, record, inflections)
    ctx.cover('%d analyses' % len(records))


INFLECTIONS = [None, {'gent'}, frozenset({'plur', 'datv'})]


def single(ctx):
    """One word."""
    p = ctx.params
    kind = ctx.pick('kind', ['given', 'default', 'cached'])
    raw = Raw(ctx, 'a', p['analyses'], ['NOUN', 'sing', 'plur'])
    analyzer = make(kind, raw)
    word = ctx.string('word', p['length'])
    what = ctx.choice('operation', 2)
    if what:
        check_forms(ctx, kind, analyzer(word), raw.records(word), [ctx.pick('grams', INFLECTIONS)])
    else:
        check_normalized(ctx, kind, analyzer.normalized(word), raw.records(word))


def check_normalized(ctx, what, got, records):
    got = list(got)
    for record in records:
        ctx.check(ctx.or_(*[ctx.eq(x, record.normal_form) for x in got]), '%s: normal form is missing' % what)
    for i, x in enumerate(got):
        ctx.check(ctx.or_(*[ctx.eq(x, record.normal_form) for record in records]), '%s: no such normal form' % what)
        for y in got[:i]:
            ctx.check(ctx.not_(ctx.eq(x, y)), '%s: normal form repeats' % what)
    ctx.cover('normalized')


ASKED = ['nomn', 'gent', 'sing', 'plur', 'femn', 'NOUN']


def inflections(ctx):
    """Inflections of a word by any grammemes, twice."""
    raw = Raw(ctx, 'a', 1, ctx.params['grams'])
    analyzer = make(ctx.pick('kind', ['given', 'cached']), raw)
    word = ctx.string('word', 1)
    forms = analyzer(word)
    asked = [None] + [
        (frozenset if i else ctx.pick('type', [set, frozenset]))(_ for _ in ASKED if ctx.choice('asks %d %s' % (i, _), 2))
        for i in range(ctx.params['asked'])]
    check_forms(ctx, 'inflections', forms, raw.records(word), asked + asked[1:])


def history(ctx):
    """Several questions to two analyzers."""
    p = ctx.params
    raws = [Raw(ctx, name, p['analyses'], ['NOUN'], domain='xy') for name in 'ab']
    analyzers = [make(kind, raw) for kind, raw in zip(p['kinds'], raws)]
    domain = p['domain']
    words = []
    for i in range(p['n']):
        which = ctx.choice('analyzer%d' % i, 2)
        word = ctx.string('word%d' % i, ctx.choice('length%d' % i, p['length']) + 1, domain)
        what = ctx.choice('operation%d' % i, 2)
        records = raws[which].records(word)
        if what:
            forms = analyzers[which](word)
            check_forms(ctx, 'question %d' % i, forms, records)
            words.append((forms, records))
        else:
            check_normalized(ctx, 'question %d' % i, analyzers[which].normalized(word), records)
        for forms, records in words:
            check_forms(ctx, 'after question %d' % i, forms, records)
    for which in range(2):
        seen = raws[which].words
        if len(seen) < p['n']:
            ctx.cover('repeated')


def views(ctx):
    """Gender, number, case of grammemes."""
    what = ctx.params['what']
    table = {'gender': GENDER, 'number': NUMBER, 'case': dict({c: [c] for c in CASES}, fixed=['Fixd'])}[what]
    names = sorted({x for xs in table.values() for x in xs})
    others = ['NOUN', 'masculine', 'SING', 'Gndr', 'gen2', 'fixd', 'MS-F']
    values = ctx.set('grams', names + others[:ctx.params['others']])
    kind = ctx.pick('kind', ['grams', 'form', 'analyzer'])
    if kind == 'grams':
        grams = Grams(values)
    elif kind == 'form':
        grams = Form('x', Grams(values)).grams
    else:
        raw = Raw(ctx, 'a', 1, [])
        record = Parse(raw, 'r', 'x')
        record.tag = Tag(values)
        raw.words = [('x', [record])]
        grams = MorphAnalyzer(raw)('x')[0].grams
    for attempt in range(2):
        got = getattr(grams, what)
        if what == 'case':
            ctx.check(len(got.mask) == len(CASES), 'number of cases')
            for c, x in zip(CASES, got.mask):
                ctx.check_equal(ctx.or_(x, False), ctx.member(c, values), 'case %s' % c)
            ctx.check_equal(ctx.or_(got.fixed, False), ctx.member('Fixd', values), 'fixed')
        else:
            for name, xs in table.items():
                ctx.check_equal(ctx.or_(getattr(got, name), False), ctx.or_(*[ctx.member(x, values) for x in xs]),
                                '%s %s' % (what, name))
    for gram in names + others:
        ctx.check_equal(ctx.or_(grams.__contains__(gram), False), ctx.member(gram, values), 'grammeme %s' % gram)
    ctx.cover(what)


def known(ctx):
    """check_gram"""
    known = ['NOUN', 'sing', 'ms-f', 'a'][:ctx.choice('known', 5)]
    raw = Raw(ctx, 'a', 1, [], known=known)
    analyzer = make(ctx.pick('kind', ['given', 'default', 'cached']), raw)
    ctx.universe(known)
    gram = ctx.string('gram', ctx.pick('length', [0, 1, 4, 5]))
    expected = ctx.concrete(ctx.or_(*[ctx.eq(gram, x) for x in known]))
    for attempt in range(2):
        rejected = ctx.raises(ValueError, analyzer.check_gram, gram) is not None
        ctx.check(rejected == (not expected), 'grammeme is %s' % ('rejected' if rejected else 'accepted'))
    ctx.cover('known' if expected else 'unknown')


RU = TokenRule('RU', r'[а-яё]+')
RULES = {
    'default': None,
    'latin': [TokenRule('RU', r'[a-z]+'), TokenRule('OTHER', r'\S')],
    'word': [TokenRule('WORD', r'[а-яё]+'), TokenRule('OTHER', r'\S')],
    'both': [TokenRule('RU', r'[a-z]'), TokenRule('Ru', r'\d'), RU, TokenRule('OTHER', r'\S')],
    'none': [TokenRule('OTHER', r'\S')],
}


KINDS = ['given', 'cached', 'own']


def tokenizer(ctx):
    """Forms of tokens."""
    p = ctx.params
    rules = RULES[p['rules']]
    args = () if rules is None else (rules,)
    kind = p['kind'] if 'kind' in p else ctx.pick('kind', KINDS)
    raw = Raw(ctx, 'a', p['analyses'], ['NOUN'], domain='xy')
    if kind == 'own':
        with installed(raw):
            real = MorphTokenizer(*args)
    else:
        real = MorphTokenizer(*args, morph=make(kind, raw))
    plain = Tokenizer(*args)
    change = p['change'] if 'change' in p else ctx.choice('change', 3)
    if change == 1:
        digit = TokenRule('RU', r'[\d]')
        real = real.add_rules(digit)
        plain.add_rules(digit)
    elif change == 2:
        real = real.remove_types('OTHER')
        plain.remove_types('OTHER')
    for i in range(p['texts']):
        text = ctx.string('text%d' % i, p['n'], p['domain'])
        tokens = list(real(text))
        expected = list(plain(text))
        ctx.check(len(tokens) == len(expected), 'text %d: number of tokens' % i)
        for token, other in zip(tokens, expected):
            ctx.check_equal(token.value, other.value, 'value')
            ctx.check_equal((token.span.start, token.span.stop), (other.span.start, other.span.stop), 'span')
            ctx.check(token.type == other.type, 'type')
            ctx.check(isinstance(token, MorphToken) == (other.type == 'RU'), '%s token' % other.type)
            ctx.check(not isinstance(token, TagToken), 'tagged')
            if other.type == 'RU':
                ctx.cover('RU')
                records = raw.records(other.value)
                check_forms(ctx, 'text %d' % i, token.forms, records)
                if records:
                    ctx.check_equal(token.normalized, records[0].normal_form, 'normalized')
            else:
                ctx.cover('other')
                ctx.check_equal(token.normalized, other.value.lower(), 'normalized')


TEXT = 'аЁa1.'
PLAN = {
    'quick': {'single': (4, 3), 'history': (3, 1, 1), 'tokenizer': (2, 1, 1), 'others': 7},
    'thorough': {'single': (6, 6), 'history': (4, 1, 2), 'tokenizer': (3, 2, 1), 'others': 7},
}


def shards(tier):
    plan = PLAN[tier]
    out = [('single', {'h': 'single', 'analyses': plan['single'][0], 'length': plan['single'][1]})]
    out.append(('inflections', {'h': 'inflections', 'grams': [], 'asked': 1}))
    if tier == 'thorough':
        out.append(('inflections of 2', {'h': 'inflections', 'grams': [], 'asked': 2}))
        out.append(('inflections of forms', {'h': 'inflections', 'grams': ['nomn', 'sing', 'plur'], 'asked': 1}))
    n, analyses, length = plan['history']
    for kinds in (['cached', 'cached'], ['cached', 'given'], ['default', 'given']):
        out.append(('history-' + '-'.join(kinds), {'h': 'history', 'n': n, 'analyses': analyses, 'length': length,
                                                   'kinds': kinds, 'domain': 'аАё' if length == 1 else 'аА'}))
    for what in ('gender', 'number', 'case'):
        out.append(('views-' + what, {'h': 'views', 'what': what, 'others': plan['others']}))
    out.append(('known', {'h': 'known'}))
    n, analyses, texts = plan['tokenizer']
    for rules in RULES:
        jobs = [('tokenizer', {'analyses': analyses, 'texts': 1, 'domain': None}),
                ('texts', {'analyses': 1, 'texts': texts + 1, 'domain': TEXT})]
        for name, params in jobs:
            params = dict(params, h='tokenizer', rules=rules, n=n)
            if tier == 'quick':
                out.append(('%s-%s' % (name, rules), params))
                continue
            for kind in KINDS:
                for change in range(3):
                    out.append(('%s-%s-%s-%d' % (name, rules, kind, change), dict(params, kind=kind, change=change)))
    return out


BOUNDS = {
    tier: 'words of %d characters with 0..%d analyses of arbitrary normal forms and grammemes; histories of %d questions '
          'to two analyzers; inflections by any subset of 6 grammemes; all subsets of the grammemes of gender, number and case and %d others; texts of %d characters '
          'in 5 configurations' % (
              plan['single'][1], plan['single'][0], plan['history'][0], plan['others'], plan['tokenizer'][0])
    for tier, plan in PLAN.items()
}
COVER = {'all': ['0 analyses', '1 analyses', '2 analyses', 'inflected', 'not inflected', 'normalized', 'repeated',
                 'gender', 'number', 'case', 'known', 'unknown', 'RU', 'other']}
ASSUMPTIONS = ['the underlying analyzer (pymorphy2) is replaced by an arbitrary function of the word']
