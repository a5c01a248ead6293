"""Grammars as data: built into yargy rules through the public api, and a naive
reference semantics of what they mean.

Nodes: ('lit', value) ('pred', k) ('empty',) ('seq', [nodes], main) ('alt', [nodes])
('opt', node, reverse) ('rep', node, min, max, reverse) ('named', node, name)
('int', node, interpretation) ('rel', node, relation) ('ref', name)
('pipe', kind, lines)
A grammar is (root, definitions of the forwards by name). A node object used
several times is one rule object used several times."""
import itertools

from yargy import Parser, rule, or_, empty, forward
from yargy.morph import Form, Grams
from yargy.predicates import eq, Predicate
from yargy.relations import main as main_
from yargy.span import Span
from yargy.token import Token, MorphToken
from yargy.tokenizer import Tokenizer


# ------------------------------------------------------------------ nodes

def lit(v):
    return ('lit', v)


A, B, C = lit('a'), lit('b'), lit('c')
EMPTY = ('empty',)


def seq(*items, main=None):
    return ('seq', tuple(items), main)


def alt(*items):
    return ('alt', tuple(items))


def opt(item, reverse=False):
    return ('opt', item, reverse)


def rep(item, min=None, max=None, reverse=False):
    return ('rep', item, min, max, reverse)


def named(item, name):
    return ('named', item, name)


def interp(item, x):
    return ('int', item, x)


def rel(item, r):
    return ('rel', item, r)


def ref(name):
    return ('ref', name)


def children(node):
    kind = node[0]
    if kind in ('seq', 'alt'):
        return node[1]
    if kind in ('opt', 'rep', 'named', 'int', 'rel'):
        return (node[1],)
    return ()


def show(node):
    kind = node[0]
    if kind == 'lit':
        return node[1]
    if kind == 'pred':
        return 'p%s' % node[1]
    if kind == 'empty':
        return 'e'
    if kind == 'seq':
        return '(%s)' % ' '.join(
            ('^' if node[2] == i else '') + show(c) for i, c in enumerate(node[1]))
    if kind == 'alt':
        return '(%s)' % '|'.join(map(show, node[1]))
    if kind == 'opt':
        return show(node[1]) + '?' + ('r' if node[2] else '')
    if kind == 'rep':
        _, c, lo, hi, r = node
        s = '+' if lo is None and hi is None else '{%s,%s}' % (lo or '', hi or '')
        return show(c) + s + ('r' if r else '')
    if kind == 'named':
        return '%s:%s' % (node[2], show(node[1]))
    if kind == 'int':
        return '<%s>%s' % (getattr(node[2], 'label', node[2]), show(node[1]))
    if kind == 'rel':
        return '~%s' % show(node[1])
    if kind == 'ref':
        return '$' + node[1]
    if kind == 'pipe':
        return '%s%r' % (node[1], node[2])
    return str(node)


def show_grammar(g):
    root, defs = g
    return '; '.join([show(root)] + ['%s=%s' % (k, show(v)) for k, v in defs.items()])


# ------------------------------------------------------------------ yargy rules

def build(grammar, predicates=None, direct=False, methods=False):
    """Rule object for a grammar. predicates: for ('pred', k). direct: attributes and
    normalizers of a single predicate are attached to the predicate itself. methods: so are
    quantifiers and annotations of all single predicates and words."""
    root, defs = grammar
    forwards = {name: forward() for name in defs}
    memo = {}

    def get(node):
        if id(node) not in memo:
            memo[id(node)] = node, make(node)
        return memo[id(node)][1]

    def item(node):
        # item of a rule: literals and predicates stand as such
        if node[0] == 'lit':
            return node[1]
        if node[0] == 'pred':
            return predicates[node[1]]
        return get(node)

    def operand(node):
        # what a method is called on
        if methods and node[0] in ('lit', 'pred'):
            return eq(node[1]) if node[0] == 'lit' else predicates[node[1]]
        return get(node)

    def items_of(node):
        items = [item(c) for c in node[1]]
        if node[2] is not None:
            m = items[node[2]]
            if isinstance(m, str):
                m = eq(m)
            items[node[2]] = main_(m)
        return items

    def make(node):
        kind = node[0]
        if kind == 'lit':
            return rule(node[1])
        if kind == 'pred':
            return rule(predicates[node[1]])
        if kind == 'empty':
            return empty()
        if kind == 'seq':
            return rule(*items_of(node))
        if kind == 'alt':
            return or_(*[get(c) for c in node[1]])
        if kind == 'opt':
            r = get(node[1]) if node[2] else operand(node[1])
            return r.optional(reverse=True) if node[2] else r.optional()
        if kind == 'rep':
            _, c, lo, hi, reverse = node
            kw = {}
            if lo is not None:
                kw['min'] = lo
            if hi is not None:
                kw['max'] = hi
            if reverse:
                kw['reverse'] = True
            return operand(c).repeatable(**kw)
        if kind == 'named':
            return operand(node[1]).named(node[2])
        if kind == 'int':
            if direct and node[1][0] == 'pred' and not isinstance(node[2], type):
                return predicates[node[1][1]].interpretation(node[2])
            r = get(node[1]) if isinstance(node[2], (type, Interpretator)) else operand(node[1])
            return r.interpretation(node[2])
        if kind == 'rel':
            return operand(node[1]).match(node[2])
        if kind == 'ref':
            return forwards[node[1]]
        if kind == 'pipe':
            return node[3](node[2])
        raise ValueError(node)

    for name, body in defs.items():
        if body[0] == 'seq' and len(body[1]) > 1 and id(body) not in memo:
            forwards[name].define(*items_of(body))
        else:
            forwards[name].define(get(body))
    return get(root)


# ------------------------------------------------------------------ static facts

def nullable_map(grammar):
    root, defs = grammar
    null = {name: False for name in defs}

    def f(node):
        kind = node[0]
        if kind in ('lit', 'pred', 'pipe'):
            return False
        if kind == 'empty':
            return True
        if kind == 'seq':
            return all(map(f, node[1]))
        if kind == 'alt':
            return any(map(f, node[1]))
        if kind == 'opt':
            return True
        if kind == 'ref':
            return null[node[1]]
        return f(node[1])
    while True:
        new = {name: f(body) for name, body in defs.items()}
        if new == null:
            break
        null = new
    return f


def walk(node):
    yield node
    for c in children(node):
        for x in walk(c):
            yield x


def squashed_body(node):
    """Item of directly nested unbounded quantifiers."""
    while node[0] in ('opt', 'rep'):
        node = node[1]
    return node


def degenerate(grammar):
    """Repetition of something empty, or recursion without consuming: excluded
    from the properties (infinitely many derivations)."""
    root, defs = grammar
    null = nullable_map(grammar)
    for body in [root] + list(defs.values()):
        for node in walk(body):
            if node[0] == 'rep':
                child = node[1]
                # quantifiers nested directly are one quantifier
                if child[0] in ('opt', 'rep'):
                    child = squashed_body(child)
                if null(child):
                    return True
    # cycles X -> ... X ... with all the rest nullable
    edges = {}

    def reach(node):
        kind = node[0]
        if kind == 'ref':
            yield node[1]
        elif kind == 'seq':
            for i, c in enumerate(node[1]):
                if all(null(o) for j, o in enumerate(node[1]) if j != i):
                    for x in reach(c):
                        yield x
        else:
            for c in children(node):
                for x in reach(c):
                    yield x
    for name, body in defs.items():
        edges[name] = set(reach(body))
    for name in defs:
        seen, todo = set(), [name]
        while todo:
            for x in edges[todo.pop()]:
                if x == name:
                    return True
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
    return False


# ------------------------------------------------------------------ reference semantics

class Language(object):
    """Does node derive tokens i..j, as a condition on the tokens."""

    def __init__(self, ctx, grammar, test, n):
        self.ctx = ctx
        self.root, self.defs = grammar
        self.test = test  # (leaf node, token index) -> condition
        self.n = n
        self.memo = {}
        self.nullable = nullable_map(grammar)

    def __call__(self, i, j, node=None):
        if node is None:
            node = self.root
        if i == j:
            return self.nullable(node)
        key = (id(node), i, j)
        if key not in self.memo:
            self.memo[key] = None
            self.memo[key] = node, self.derive(node, i, j)
        assert self.memo[key], 'degenerate grammar'
        return self.memo[key][1]

    def seq(self, items, i, j):
        if not items:
            return i == j
        if len(items) == 1:
            return self(i, j, items[0])
        out = []
        for k in range(i, j + 1):
            if i == k and not self.nullable(items[0]):
                continue
            if k == j and not all(self.nullable(_) for _ in items[1:]):
                continue
            out.append(self.ctx.and_(self(i, k, items[0]), self.seq(items[1:], k, j)))
        return self.ctx.or_(*out)

    def derive(self, node, i, j):
        kind = node[0]
        if kind in ('lit', 'pred'):
            return self.test(node, i) if j == i + 1 else False
        if kind == 'empty':
            return i == j
        if kind == 'seq':
            return self.seq(node[1], i, j)
        if kind == 'alt':
            return self.ctx.or_(*[self(i, j, c) for c in node[1]])
        if kind == 'opt':
            return self.ctx.or_(i == j, self(i, j, node[1]))
        if kind == 'rep':
            _, c, lo, hi, _ = node
            lo = lo or 1
            top = max(lo, j - i) if hi is None else hi
            return self.ctx.or_(*[
                self.seq((c,) * count, i, j) for count in range(lo, top + 1)
            ])
        if kind == 'ref':
            return self(i, j, self.defs[node[1]])
        if kind == 'pipe':
            return self.ctx.or_(*[
                self.ctx.and_(*[self.test(('lit', w), i + k) for k, w in enumerate(line.split())])
                for line in node[2] if len(line.split()) == j - i
            ])
        return self(i, j, node[1])


# ------------------------------------------------------------------ tokens

class IdTokenizer(Tokenizer):
    """Takes tokens instead of text."""

    def __init__(self, morph=None):
        super(IdTokenizer, self).__init__()
        self.morph = morph

    def split(self, text):
        return text.split()

    def __call__(self, tokens):
        return iter(tokens)


class TablePredicate(Predicate):
    """Arbitrary predicate: truth value for each token."""

    def __init__(self, tokens, truth):
        self.truth = {t.span.start: v for t, v in zip(tokens, truth)}

    def __call__(self, token):
        return self.truth[token.span.start]

    @property
    def label(self):
        return 'table'


def token_span(i):
    return Span(3 * i + 1, 3 * i + 3)


def sym_tokens(ctx, n, domain=None, type='OTHER'):
    return [
        Token(ctx.char('t%d' % i, domain), token_span(i), type)
        for i in range(n)
    ]


def value_test(ctx, tokens):
    def test(node, i):
        return ctx.eq(tokens[i].value, node[1])
    return test


# ------------------------------------------------------------------ enumeration

def enumerate_nodes(size, leaves, unary, binary, memo=None):
    """All the nodes of exactly this size. unary: functions of one node, binary:
    functions of two."""
    if memo is None:
        memo = {}
    if size in memo:
        return memo[size]
    out = []
    if size == 1:
        out.extend(leaves)
    else:
        for child in enumerate_nodes(size - 1, leaves, unary, binary, memo):
            for f in unary:
                out.append(f(child))
        for left in range(1, size - 1):
            for a in enumerate_nodes(left, leaves, unary, binary, memo):
                for b in enumerate_nodes(size - 1 - left, leaves, unary, binary, memo):
                    for f in binary:
                        out.append(f(a, b))
    memo[size] = out
    return out


def first_letters(node, defs=()):
    """Literals in order of occurrence, to drop grammars that differ by renaming."""
    return [x[1] for x in walk(node) if x[0] == 'lit']


def canonical(node, order='ab'):
    seen = []
    for v in first_letters(node):
        if v not in seen:
            seen.append(v)
    return seen == list(order[:len(seen)])


def chunks(items, size):
    return [(i, min(i + size, len(items))) for i in range(0, len(items), size)]


# ------------------------------------------------------------------ leftmost derivation

class D(object):
    """Derivation: what node derived from tokens i..j. choice: alternative taken."""
    __slots__ = ('node', 'i', 'j', 'children', 'choice')

    def __init__(self, node, i, j, children=(), choice=None):
        self.node = node
        self.i = i
        self.j = j
        self.children = children
        self.choice = choice

    def walk(self):
        yield self
        for c in self.children:
            for x in c.walk():
                yield x


class Leftmost(object):
    """First derivation of a grammar in the order of choices, top-down and left
    to right. test decides on the path."""

    def __init__(self, grammar, test, n):
        self.root, self.defs = grammar
        self.n = n
        self.nullable = nullable_map(grammar)
        self.tested = {}
        self.test_ = test

    def test(self, node, i):
        key = id(node), i
        if key not in self.tested:
            self.tested[key] = bool(self.test_(node, i))
        return self.tested[key]

    def __call__(self, i, j, accept=None):
        """Derivation of exactly i..j (the first one accept agrees with) or None."""
        def done(d):
            if d.j == j and (accept is None or accept(d)):
                return d
        return self.first(self.root, i, j, done)

    def width(self, node):
        return 0 if self.nullable(node) else 1

    def first(self, node, i, limit, cont):
        """limit: the most this node may reach, the rest needs the others."""
        if i + self.width(node) > limit:
            return None
        kind = node[0]
        if kind in ('lit', 'pred'):
            if self.test(node, i):
                return cont(D(node, i, i + 1))
            return None
        if kind == 'empty':
            return cont(D(node, i, i))
        if kind == 'seq':
            return self.seq(node, node[1], i, limit, (), cont)
        if kind == 'alt':
            for k, c in enumerate(node[1]):
                r = self.first(c, i, limit, lambda d: cont(D(node, i, d.j, (d,), k)))
                if r is not None:
                    return r
            return None
        if kind == 'opt':
            for take in ((1, 0) if node[2] else (0, 1)):
                if take:
                    r = self.first(node[1], i, limit, lambda d: cont(D(node, i, d.j, (d,), 1)))
                else:
                    r = cont(D(node, i, i, (), 0))
                if r is not None:
                    return r
            return None
        if kind == 'rep':
            return self.rep(node, 1, i, i, limit, (), cont)
        if kind == 'ref':
            return self.first(self.defs[node[1]], i, limit,
                              lambda d: cont(D(node, i, d.j, (d,))))
        if kind == 'pipe':
            for k, line in enumerate(node[2]):
                words = self.words(node, line)
                if i + len(words) <= limit and all(self.test(w, i + x) for x, w in enumerate(words)):
                    leaves = tuple(D(w, i + x, i + x + 1) for x, w in enumerate(words))
                    r = cont(D(node, i, i + len(words), leaves, k))
                    if r is not None:
                        return r
            return None
        return self.first(node[1], i, limit, lambda d: cont(D(node, i, d.j, (d,))))

    def words(self, node, line):
        key = id(node), line
        if key not in self.tested:
            self.tested[key] = [('word', node, w) for w in line.split()]
        return self.tested[key]

    def seq(self, node, items, i, limit, done, cont):
        if not items:
            start = done[0].i if done else i
            return cont(D(node, start, i, done))
        rest = sum(map(self.width, items[1:]))
        return self.first(items[0], i, limit - rest, lambda d: (
            self.seq(node, items[1:], d.j, limit, done + (d,), cont)
        ))

    def rep(self, node, count, start, i, limit, done, cont):
        _, item, lo, hi, reverse = node
        lo = lo or 1
        w = self.width(item)

        def more():
            return self.first(item, i, limit - max(w, w * (lo - count)), lambda d: (
                self.rep(node, count + 1, start, d.j, limit, done + (d,), cont)
            ))

        def last():
            return self.first(item, i, limit, lambda d: (
                cont(D(node, start, d.j, done + (d,), count))
            ))
        if count < lo:
            return more()
        if hi is not None and count >= hi:
            return last()
        for f in ((last, more) if reverse else (more, last)):
            r = f()
            if r is not None:
                return r
        return None


# ------------------------------------------------------------------ annotations as seen by the user

from yargy.interpretation.interpretator import Interpretator, InterpretatorResult
from yargy.relations.constructors import Relation
from yargy.token import is_token


class Rec(Interpretator):
    """Interpretation that records what it was given."""
    __attributes__ = ['label']

    def __init__(self, label):
        self.label = label

    def __call__(self, input):
        return RecResult((self.label, [
            x.span.start if is_token(x) else x.value for x in input.items]))


class RecResult(InterpretatorResult):
    def __init__(self, value):
        self.value = value

    @property
    def normalized(self):
        return self.value


class RecRelation(Relation):
    """Agrees with everything, records the pairs asked about."""
    def __init__(self, label):
        self.name = label
        self.pairs = set()

    label = 'rec'

    def __call__(self, form, other):
        if form is not other:
            self.pairs.add(frozenset((form.normalized, other.normalized)))
        return True


class PairRelation(Relation):
    """Arbitrary outcome for every pair of words (of one form, the index as its normal form)."""
    def __init__(self, label, ctx):
        self.name = label
        self.ctx = ctx
        self.truth = {}

    label = 'pairs'

    def get(self, a, b):
        key = min(a, b), max(a, b)
        if key not in self.truth:
            self.truth[key] = self.ctx.flag('%s%d_%d' % ((self.name,) + key))
        return self.truth[key]

    def __call__(self, form, other):
        return form is other or self.get(int(form.normalized), int(other.normalized))

    def accepts(self, d):
        """Do all the related words of the derivation agree."""
        return all(self.ctx.concrete(self.get(*sorted(pair))) for pair in sorted(
            map(sorted, expected_pairs(d, self))))


def bind(g, relations):
    """Fresh relations in place of their markers."""
    memo = {}

    def f(node):
        if id(node) not in memo:
            memo[id(node)] = node, make(node)
        return memo[id(node)][1]

    def make(node):
        kind = node[0]
        if kind in ('seq', 'alt'):
            return (kind, tuple(f(c) for c in node[1])) + node[2:]
        if kind == 'rel':
            return rel(f(node[1]), relations[node[2]])
        if kind in ('opt', 'rep', 'named', 'int'):
            return (kind, f(node[1])) + node[2:]
        return node
    root, defs = g
    return f(root), {k: f(v) for k, v in defs.items()}


def morph_tokens(values):
    """Tokens with one form, known by its index."""
    return [MorphToken(v, token_span(i), 'RU', [Form(str(i), Grams({'NOUN'}))]) for i, v in enumerate(values)]


def related(size):
    """Ambiguous grammars of one letter, parts of them related."""
    def r(x):
        return rel(x, 'r')
    out = []
    for n in enumerate_nodes(size, [A, r(A)], [opt, rep, r], [seq, alt]):
        if any(x[0] in ('opt', 'rep', 'rel') and x[1][0] in ('opt', 'rep', 'rel') for x in walk(n)):
            continue
        rels = sum(x[0] == 'rel' for x in walk(n))
        if rels < 2 and not (rels and any(
                x[0] == 'rep' and any(y[0] == 'rel' for y in walk(x)) for x in walk(n))):
            continue
        if all(x[0] not in ('alt', 'opt', 'rep') for x in walk(n)) or degenerate((n, {})):
            continue
        out.append((n, {}))
    E = ref('E')
    if size == 3:
        X = alt(seq(r(A), r(A)), seq(A, A), r(A))
        out += [
            (seq(X, X), {}), (rep(X), {}), (alt(seq(r(A), X), seq(X, A)), {}),
            (E, {'E': alt(seq(r(A), E), seq(E, A), A)}),
            (E, {'E': alt(seq(E, E), r(A), A)}),
            (E, {'E': alt(seq(r(A), opt(E), r(A)), seq(A, E), A)}),
            (seq(E, E), {'E': r(alt(seq(A, r(E)), A))}),
        ]
    return out


def expected_names(d):
    """(name, i, j) for every named part that matched something, outer first."""
    return [(x.node[2], x.i, x.j) for x in d.walk() if x.node[0] == 'named' and x.i < x.j]


def expected_interpretation(d, start):
    """What the interpretation of d (an 'int' node) is given. start: of the
    span of a token."""
    out = []

    def inner(d):
        for c in d.children:
            if c.i == c.j:
                continue
            if c.node[0] == 'int':
                out.append(expected_interpretation(c, start))
            elif c.children:
                inner(c)
            else:
                out.append(start(c.i))
    inner(d)
    return (d.node[2].label, out)


def main_of(d):
    """Index of the main token of d."""
    if not d.children:
        return d.i
    if d.node[0] == 'seq' and d.node[2] is not None:
        c = d.children[d.node[2]]
        if c.i < c.j:
            return main_of(c)
    for c in d.children:
        if c.i < c.j:
            return main_of(c)


def expected_pairs(d, relation):
    """Pairs of different main tokens related by relation."""
    mains = [main_of(x) for x in d.walk()
             if x.node[0] == 'rel' and x.node[2] is relation and x.i < x.j]
    return {frozenset((a, b)) for k, a in enumerate(mains) for b in mains[k + 1:] if a != b}


def got_names(match, index):
    """(name, i, j) of named nodes in the tree of a match."""
    out = []
    stack = [match.tree.root]
    while stack:
        node = stack.pop()
        leaves = leaves_of(node)
        name = getattr(getattr(node, 'rule', None), 'name', None)
        if name and not is_auto(name):
            i = index[leaves[0].token.span.start]
            out.append((name, i, i + len(leaves)))
        stack.extend(reversed(node.children))
    return out


def is_auto(name):
    return name[:1] == 'R' and name[1:].isdigit()


def leaves_of(node):
    if not node.children:
        return [node]
    return [x for c in node.children for x in leaves_of(c)]


def annotate(r, decoy):
    """All the ways to annotate a rule; none changes it."""
    return [
        r.named('decoy'), r.interpretation(Rec('decoy')), r.match(RecRelation('decoy')),
        r.optional().named('decoy'), r.repeatable().interpretation(Rec('decoy')),
        r.repeatable(max=2).match(RecRelation('decoy')),
    ]
