"""Facts as the user reads them off the annotations of a derivation.

Interpretations in grammars of checks.grammar ('int' nodes) are descriptions:
('fact', F), ('attr', F, name, ops), ('norm', ops), ops: chain of
('normalized',), ('inflected', grams or None), ('const', value), ('custom', f)."""
from yargy.interpretation import fact, attribute, normalized, inflected, const, custom
from yargy.morph import Form, Grams
from yargy.span import Span
from yargy.token import Token, MorphToken

from . import grammar as G


class World(object):
    """Fact classes, made anew."""

    # name: [(attribute, kind, default)]
    SCHEMES = {
        'F': [('a', 'plain', None), ('b', 'plain', 'dflt'), ('r', 'repeatable', None), ('n', 'plain', None)],
        'G': [('x', 'plain', None), ('y', 'repeatable', None), ('z', 'plain', 0)],
        'H': [('r', 'repeatable', None), ('a', 'plain', '')],
    }
    # class derived from F
    SCHEMES['K'] = SCHEMES['F']

    def __init__(self):
        F = fact('F', ['a', attribute('b', 'dflt'), attribute('r').repeatable(), 'n'])
        G_ = fact('G', [attribute('x'), attribute('y').repeatable(), attribute('z', 0)])
        H_ = fact('H', [attribute('r').repeatable(), attribute('a', default='')])

        class H(H_):
            @property
            def more(self):
                return self.r

        class K(F):
            pass

        self.classes = {'F': F, 'G': G_, 'H': H, 'K': K}

    def interpretation(self, x):
        if x[0] == 'fact':
            return self.classes[x[1]]
        if x[0] == 'attr':
            item, ops = getattr(self.classes[x[1]], x[2]), x[3]
        else:
            item, ops = None, x[1]
        for op in ops:
            # inflected() has an argument by default
            args = () if op == ('inflected', None) else op[1:]
            if item is None:
                item = {'normalized': normalized, 'inflected': inflected, 'const': const, 'custom': custom}[op[0]](*args)
            else:
                item = getattr(item, op[0])(*args)
        return item


def F(x):
    return ('int', x, ('fact', 'F'))


def attr(name, x, *ops):
    return ('int', x, ('attr', name[0], name[2:], ops))


def norm(x, *ops):
    return ('int', x, ('norm', ops))


def bind(world, g):
    """Grammar with the real interpretations."""
    memo = {}

    def f(node):
        if id(node) not in memo:
            memo[id(node)] = node, make(node)
        return memo[id(node)][1]

    def make(node):
        kind = node[0]
        if kind in ('seq', 'alt'):
            return (kind, tuple(f(c) for c in node[1])) + node[2:]
        if kind == 'int':
            return (kind, f(node[1]), world.interpretation(node[2]))
        if kind in ('opt', 'rep', 'named', 'rel'):
            return (kind, f(node[1])) + node[2:]
        return node
    root, defs = g
    return f(root), {k: f(v) for k, v in defs.items()}


def show(x):
    """Short label of a description."""
    def arg(x):
        return ','.join(sorted(x)) if isinstance(x, frozenset) else getattr(x, '__name__', str(x))

    def chain(ops):
        return ''.join('.%s' % '_'.join([op[0]] + [arg(_) for _ in op[1:]]) for op in ops)
    if x[0] == 'fact':
        return x[1]
    if x[0] == 'attr':
        return x[1] + '.' + x[2] + chain(x[3])
    return chain(x[1])


def show_grammar(g):
    def f(node):
        kind = node[0]
        if kind in ('seq', 'alt'):
            return (kind, tuple(f(c) for c in node[1])) + node[2:]
        if kind == 'int':
            return (kind, f(node[1]), show(node[2]))
        if kind in ('opt', 'rep', 'named', 'rel'):
            return (kind, f(node[1])) + node[2:]
        return node
    root, defs = g
    return G.show_grammar((f(root), {k: f(v) for k, v in defs.items()}))


# ------------------------------------------------------------------ tokens

class Inflected(object):
    def __init__(self, word):
        self.word = word


class Raw(object):
    """Analysis: word for each set of grammemes asked (or none)."""

    def __init__(self, ctx, name, able):
        self.ctx = ctx
        self.name = name
        self.able = able
        self.words = {}

    def inflect(self, grams):
        if self.able:
            return Inflected(self.inflection(grams))

    def inflection(self, grams):
        # arbitrary, depends on the grammemes
        key = ','.join(sorted(grams))
        if key not in self.words:
            self.words[key] = self.ctx.char('%s %s' % (self.name, key))
        return self.words[key]


class Words(object):
    """Symbolic tokens of a text with symbolic gaps, and what the statements
    say about the text of a part of it."""

    def __init__(self, ctx, n, morph=False, gaps=True, domain=None):
        self.ctx = ctx
        self.tokens = []
        self.gaps = []
        stop = 0
        for i in range(n):
            gap = ctx.flag('gap%d' % i) if gaps else True
            self.gaps.append(gap)
            # position in steps of ten, narrow gaps
            start = stop + ctx.ite(gap, 3, 0) if gaps else stop + 3
            stop = start + 2
            value = ctx.char('t%d' % i, domain)
            if morph:
                forms = [
                    Form(ctx.char('n%d.%d' % (i, k)), Grams({'NOUN'}), Raw(ctx, 'w%d.%d' % (i, k), k or i != 1))
                    for k in range(2)
                ]
                token = MorphToken(value, Span(start, stop), 'RU', forms)
            else:
                token = Token(value, Span(start, stop), 'OTHER')
            self.tokens.append(token)
        self.morph = morph

    def join(self, ids, values):
        out = ''
        for k, (i, value) in enumerate(zip(ids, values)):
            if k:
                before = ids[k - 1]
                if before + 1 != i or self.ctx.concrete(self.gaps[i]):
                    out = out + ' '
            out = out + value
        return out

    def text(self, ids):
        return self.join(ids, [self.tokens[i].value for i in ids])

    def normalized(self, ids):
        return self.join(ids, [
            self.tokens[i].forms[0].normalized if self.morph else self.tokens[i].value.lower()
            for i in ids])

    def inflected(self, ids, grams):
        out = []
        for i in ids:
            if self.morph:
                form = self.tokens[i].forms[0]
                out.append(form.raw.inflection(grams) if form.raw.able else form.normalized)
            else:
                out.append(self.tokens[i].value.lower())
        return self.join(ids, out)

    def span(self, part):
        first, last = part
        return (self.tokens[first].span.start, self.tokens[last].span.stop)


class BoolTable(G.Predicate):
    """Arbitrary truth for each of the tokens."""

    def __init__(self, tokens, truth):
        self.tokens = tokens
        self.truth = truth

    def __call__(self, token):
        for t, v in zip(self.tokens, self.truth):
            if t.span is token.span:
                return v
        raise KeyError(token)

    label = 'table'


# ------------------------------------------------------------------ reference

class Mixed(Exception):
    """Words and interpreted parts under one attribute."""


class Res(object):
    """Result of an interpretation: fact (attributes that occurred, in order),
    attr, norm (value), text (words)."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def derived(a, b):
    return a == b or (a, b) == ('K', 'F')


def evaluate(words, d):
    """d: derivation of an 'int' node."""
    items = []
    line = [None]

    def inner(d):
        for c in d.children:
            if c.i == c.j:
                continue
            if c.node[0] == 'int':
                items.append(evaluate(words, c))
            elif c.children:
                inner(c)
            elif c.node[0] == 'pipe':
                items.extend(range(c.i, c.j))
            else:
                items.append(c.i)
    inner(d)
    x = d.node[2]
    if x[0] == 'fact':
        found = []
        for item in items:
            if isinstance(item, Res):
                if item.kind == 'attr' and derived(x[1], item.fact):
                    found.append((item.name, item.value))
                elif item.kind == 'fact' and derived(item.fact, x[1]):
                    found.extend(item.found)
        return Res('fact', fact=x[1], found=found)
    ops = x[-1]
    if all(not isinstance(_, Res) for _ in items):
        value = Res('text', ids=items, key=key_of(d))
    elif len(items) == 1:
        value = items[0]
    elif ops and ops[0][0] == 'const':
        value = Res('parts', items=items)
    else:
        raise Mixed
    if ops:
        value = apply(words, ops, value)
    if x[0] == 'attr':
        if value.kind == 'attr':
            value = value.value
        value = Res('attr', fact=x[1], name=x[2], value=value)
    return value


def key_of(d):
    """Line, when d is just a match of a pipeline."""
    while d.node[0] != 'pipe':
        children = [_ for _ in d.children if _.i < _.j]
        if len(children) != 1:
            return
        d, = children
    return d.node[2][d.choice]


def apply(words, ops, x):
    """Normalizers, one after another."""
    source = x
    first = True
    for op in ops:
        if op[0] == 'const':
            value = op[1]
        elif op[0] == 'custom':
            value = op[1](value_of(words, x) if first else value)
        else:
            if x.kind != 'text':
                raise Mixed
            if op[0] == 'normalized':
                value = x.key or words.normalized(x.ids)
            else:
                value = words.inflected(x.ids, op[1] or {'nomn', 'sing'})
        first = False
    return Res('norm', value=value, source=source, const=ops[0][0] == 'const')


class Value(object):
    """Fact as expected."""

    def __init__(self, name, attributes):
        self.name = name
        self.attributes = attributes  # list of (name, value)


def value_of(words, x):
    if x.kind == 'text':
        return words.text(x.ids)
    if x.kind == 'attr':
        return value_of(words, x.value)
    if x.kind == 'norm':
        return x.value
    out = []
    for name, kind, default in World.SCHEMES[x.fact]:
        values = [v for k, v in x.found if k == name]
        if kind == 'repeatable':
            out.append((name, [value_of(words, _) for _ in values]))
        else:
            out.append((name, value_of(words, values[-1]) if values else default))
    return Value(x.fact, out)


def in_fact(x):
    """Occurrences that made it into the fact."""
    for name, kind, default in World.SCHEMES[x.fact]:
        values = [v for k, v in x.found if k == name]
        for v in (values if kind == 'repeatable' else values[-1:]):
            yield v


def spans_of(words, x):
    """Spans of a result, as (first, last) words."""
    if x.kind == 'text':
        return [(x.ids[0], x.ids[-1])]
    if x.kind == 'attr':
        return spans_of(words, x.value)
    if x.kind == 'norm':
        spans = spans_of(words, x.source)
        if x.const and spans:
            # one part of text
            return [(min(_[0] for _ in spans), max(_[1] for _ in spans))]
        return spans
    if x.kind == 'parts':
        return [s for item in x.items for s in (
            [(item, item)] if isinstance(item, int) else spans_of(words, item))]
    return [s for v in in_fact(x) for s in spans_of(words, v)]


def json_of(value):
    """What as_json says of a value."""
    if isinstance(value, Value):
        return ('object', [(k, json_of(v)) for k, v in value.attributes if v is not None])
    if isinstance(value, list):
        return [json_of(_) for _ in value]
    return value


# ------------------------------------------------------------------ comparison

def check_value(ctx, world, what, got, expected):
    if isinstance(expected, Value):
        ctx.check(type(got) is world.classes[expected.name], '%s is a %s, expected %s' % (
            what, type(got).__name__, expected.name))
        for key, value in expected.attributes:
            check_value(ctx, world, '%s.%s' % (what, key), getattr(got, key), value)
    elif isinstance(expected, list):
        ctx.check(type(got) is list and len(got) == len(expected), '%s: %r items, expected %d' % (
            what, len(got) if type(got) is list else type(got).__name__, len(expected)))
        for k, (a, b) in enumerate(zip(got, expected)):
            check_value(ctx, world, '%s[%d]' % (what, k), a, b)
    elif isinstance(expected, tuple):
        ctx.check(type(got) is tuple and len(got) == len(expected), '%s: not a tuple' % what)
        for a, b in zip(got, expected):
            check_value(ctx, world, what, a, b)
    elif expected is None or isinstance(expected, (bool, int)):
        ctx.check(got is expected or type(got) is type(expected) and got == expected, '%s: got %r, expected %r' % (
            what, type(got).__name__, expected))
    else:
        ctx.check_equal(got, expected, what)


def check_json(ctx, what, got, expected):
    if isinstance(expected, tuple) and expected[:1] == ('object',):
        ctx.check(isinstance(got, dict) and [k for k in got] == [k for k, _ in expected[1]], '%s: keys %s, expected %s' % (
            what, list(got) if isinstance(got, dict) else type(got).__name__, [k for k, _ in expected[1]]))
        for key, value in expected[1]:
            check_json(ctx, '%s.%s' % (what, key), got[key], value)
    elif isinstance(expected, list):
        ctx.check(type(got) is list and len(got) == len(expected), '%s: not a list of %d' % (what, len(expected)))
        for a, b in zip(got, expected):
            check_json(ctx, what, a, b)
    else:
        check_value(ctx, None, what, got, expected)
