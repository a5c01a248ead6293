"""C28: the ready-made rules for e-mail addresses and phone numbers."""
from yargy.tokenizer import Tokenizer, EMAIL_RULE, PHONE_RULE

from .c07 import kind, exotic, RUNS

LOCAL = '_.+-'
HOST = '-'
TAIL = '-.'
SEPARATORS = '-_()'


def letter_or_digit(ctx, c):
    return ctx.or_(ctx.between(c, 'a', 'z'), ctx.between(c, 'A', 'Z'), ctx.between(c, '0', '9'))


class Reference(object):
    """Tokens by definition, decided on the path."""

    def __init__(self, ctx, text, n, first):
        self.ctx = ctx
        self.text = text
        self.n = n
        self.first = first
        self.memo = {}

    def is_(self, name, i):
        if i >= self.n:
            return False
        key = name, i
        if key not in self.memo:
            self.memo[key] = self.ctx.concrete(self.condition(name, self.text[i]))
        return self.memo[key]

    def condition(self, name, c):
        ctx = self.ctx
        if name == 'digit':
            return c.isdecimal()
        if name == 'separator':
            return ctx.or_(c.isspace(), *[ctx.eq(c, x) for x in SEPARATORS])
        if len(name) == 1:
            return ctx.eq(c, name)
        marks = {'local': LOCAL, 'host': HOST, 'tail': TAIL}[name]
        return ctx.or_(letter_or_digit(ctx, c), *[ctx.eq(c, x) for x in marks])

    def run(self, name, i):
        while self.is_(name, i):
            i += 1
        return i

    def email(self, i):
        """Stop of the address that starts at i."""
        at = self.run('local', i)
        if at == i or not self.is_('@', at):
            return
        dot = self.run('host', at + 1)
        if dot == at + 1 or not self.is_('.', dot):
            return
        stop = self.run('tail', dot + 1)
        if stop > dot + 1:
            return stop

    def phone(self, i):
        """10 to 14 digits; one separator before the first and after the last, up to two between."""
        if self.is_('+', i):
            i += 1
        count = 0
        while count < 14:
            j = i
            if self.is_('separator', j) and not self.is_('digit', j):
                j += 1
            if not self.is_('digit', j):
                break
            count += 1
            i = j + 1
            if self.is_('separator', i):
                i += 1
        if count >= 10:
            return i

    def kind(self, i):
        key = 'kind', i
        if key not in self.memo:
            self.memo[key] = kind(self.ctx, self.text[i])
        return self.memo[key]

    def tokens(self):
        out = []
        i = 0
        while i < self.n:
            for name in self.first:
                stop = {'EMAIL': self.email, 'PHONE': self.phone}[name](i)
                if stop:
                    out.append((name, i, stop))
                    break
            else:
                k = self.kind(i)
                stop = i + 1
                if k is None:
                    i = stop
                    continue
                while k in RUNS and stop < self.n and self.kind(stop) == k:
                    stop += 1
                out.append((k, i, stop))
            i = stop
        return out


RULES = {'EMAIL': EMAIL_RULE, 'PHONE': PHONE_RULE}


def harness(ctx):
    p = ctx.params
    parts = []
    n = 0
    for k, part in enumerate(p['template']):
        if isinstance(part, int):
            part = ctx.string('s%d' % k, ctx.choice('size %d' % k, part) + 1 if p.get('sizes') else part, p['domain'])
        parts.append(part)
        n += len(part)
    text = ''
    for part in parts:
        text = text + part
    if not p['domain']:
        ctx.assume(ctx.not_(exotic(ctx, text, n)))
    first = p['rules']
    tokenizer = Tokenizer().add_rules(*[RULES[x] for x in first])
    got = [(t.type, t.span.start, t.span.stop) for t in tokenizer(text)]
    ctx.observe('tokens', got)
    expected = Reference(ctx, text, n, first).tokens()
    ctx.check(got == expected, 'tokens %s, expected %s' % (got, expected))
    for t in tokenizer(text):
        ctx.check_equal(t.value, text[t.span.start:t.span.stop], 'value')
    for k, _, _ in expected:
        ctx.cover(k)


MAIL = 'aZ0_.+-@ я'
DIGITS = '1٣ -(+a'
BOTH = '1 -_.a@'
NINE, TEN, TWELVE, FOURTEEN = '891513254', '8915132547', '891513254761', '89151325476128'


def templates(tier):
    deep = tier == 'thorough'
    k = 4 if deep else 3
    out = [
        ('mail-short', [k], MAIL),
        ('mail-local', [2 if not deep else 3, '@b.c'], MAIL),
        ('mail-host', ['a@', 3 if not deep else 4, 'b'], MAIL),
        ('mail-tail', ['x@y.', 3 if not deep else 4], MAIL),
        ('mail-at', ['a.b', 2, 'c.d', 1], MAIL),
        ('mail-two', ['a@b.c', 2, 'd@e.f'], MAIL),
        ('mail-any', ['a@b', 1, 'c', 1], None),
    ]
    j = 3 if not deep else 4
    out += [
        ('phone-start', [j, NINE], DIGITS),
        ('phone-middle', ['+7', 2 if not deep else 3, NINE[:7], 1], DIGITS),
        ('phone-stop', [TEN, j], DIGITS),
        ('phone-nine', [1, NINE, 2], DIGITS),
        ('phone-long', [TWELVE, j, '7'], DIGITS),
        ('phone-longer', [FOURTEEN, j], DIGITS),
        ('phone-ends', [1, TEN[:5], 1, TEN[5:], 1, '+', 1, NINE, 1] if deep else [1, TEN, 1, '+', 1], DIGITS),
        ('phone-apart', ['+7 (915) ', 1, '32-54-', 1, '76'], DIGITS),
        ('both-start', [j, TEN[:8], '@b.c'], BOTH),
        ('both-middle', [TEN[:4], j - 1, TEN[4:] + '@b.c', 1], BOTH),
        ('phone-any', [1, TEN[:4], 1, TEN[4:]], None),
    ]
    return out


def shards(tier):
    out = []
    for name, template, domain in templates(tier):
        orders = [['EMAIL', 'PHONE'], ['PHONE', 'EMAIL']]
        if not name.startswith('both'):
            orders.append([name.split('-')[0].replace('mail', 'email').upper()])
        for rules in orders:
            out.append(('%s-%s' % (name, '-'.join(rules)), {
                'template': template, 'domain': domain, 'rules': rules, 'sizes': True}))
    return out


BOUNDS = {
    tier: 'texts of the templates %s, where a number stands for up to that many characters of "%s" (mail), "%s" (phone) or "%s" (both), '
          'for "any" texts any code point; each alone and both rules in both orders' % (
              ', '.join('%s %r' % t[:2] for t in templates(tier)), MAIL, DIGITS, BOTH)
    for tier in ('quick', 'thorough')
}
COVER = {'all': ['EMAIL', 'PHONE', 'RU', 'LATIN', 'INT', 'PUNCT']}
ASSUMPTIONS = ['letters of addresses are ASCII; characters that only fold to ASCII letters are left out']
