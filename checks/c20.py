"""C20: DOT export is well-formed and faithful."""
import itertools
from functools import lru_cache

from yargy import Parser, rule, or_, and_, not_, empty, forward
from yargy.dot import Graph, style
from yargy.interpretation import fact, const, custom
from yargy.morph import Form, Grams, MorphAnalyzer
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.predicates import (
    eq, caseless, in_, gram, type as type_, tag, dictionary, is_title, normalized, gte, custom as custom_predicate)
from yargy.relations import main
from yargy.relations.constructors import Relation
from yargy.token import MorphToken, Token
from yargy.tokenizer import Tokenizer

from yargy import predicates, relations
from yargy.interpretation import attribute, normalized as normalized_, inflected
from yargy.tagger import Tagger

from . import grammar as G
from .grammar import A, B, C, EMPTY, seq, alt, opt, rep, named, ref, interp, rel


# ------------------------------------------------------------------ reader of DOT

class Malformed(Exception):
    pass


class Reader(object):
    """Reads DOT source: a sequence of strings, some of their characters symbolic."""

    def __init__(self, ctx, lines):
        self.ctx = ctx
        self.chars = []
        for line in lines:
            self.chars.extend(line)
            self.chars.append('\n')
        self.pos = 0

    def peek(self):
        return self.chars[self.pos] if self.pos < len(self.chars) else None

    def sure(self, c, value):
        """c is value on this path."""
        if isinstance(c, str):
            return c == value
        return self.ctx.concrete(self.ctx.eq(c, value))

    def plain(self, c):
        if not isinstance(c, str):
            # only values are symbolic, they are quoted
            raise Malformed('value outside of quotes')
        return c

    def token(self):
        while self.peek() is not None and self.plain(self.peek()).isspace():
            self.pos += 1
        c = self.peek()
        if c is None:
            return ('end', None)
        if c == '"':
            return ('id', self.quoted())
        if c == '-' and self.pos + 1 < len(self.chars) and self.plain(self.chars[self.pos + 1]) == '>':
            self.pos += 2
            return ('->', None)
        if c in '{}[]=,;':
            self.pos += 1
            return (c, None)
        word = ''
        while self.peek() is not None and isinstance(self.peek(), str) and (
                self.peek().isalnum() or self.peek() in '_.'):
            word += self.peek()
            self.pos += 1
        if not word or (word[0].isdigit() and not word.replace('.', '', 1).isdigit()):
            raise Malformed('at %d' % self.pos)
        return ('id', word)

    def quoted(self):
        """Value of a quoted string."""
        self.pos += 1
        out = ''
        while True:
            c = self.peek()
            if c is None:
                raise Malformed('open quote')
            self.pos += 1
            if self.sure(c, '"'):
                return out
            if self.sure(c, '\\'):
                c = self.peek()
                if c is None:
                    raise Malformed('open quote')
                self.pos += 1
                for escaped, value in (('\\', '\\'), ('"', '"'), ('n', '\n'), ('r', '\r')):
                    if self.sure(c, escaped):
                        out = out + value
                        break
                else:
                    raise Malformed('unknown escape')
            elif self.sure(c, '\n') or self.sure(c, '\r'):
                raise Malformed('line break in a value')
            else:
                out = out + c

    def read(self):
        self.lookahead = self.token()

        def take(kind, value=None):
            k, v = self.lookahead
            if k != kind or value is not None and v != value:
                raise Malformed('expected %s %s' % (kind, value or ''))
            self.lookahead = self.token()
            return v

        def attributes():
            out = []
            take('[')
            while self.lookahead[0] != ']':
                key = take('id')
                take('=')
                out.append((key, take('id')))
                if self.lookahead[0] in ',;':
                    take(self.lookahead[0])
            take(']')
            return out
        take('id', 'digraph')
        take('id')
        take('{')
        defaults, nodes, edges = {}, [], []
        while self.lookahead[0] != '}':
            first = take('id')
            second = None
            if self.lookahead[0] == '->':
                take('->')
                second = take('id')
            attrs = attributes() if self.lookahead[0] == '[' else []
            if self.lookahead[0] == ';':
                take(';')
            if second is not None:
                edges.append((first, second, attrs))
            elif first in ('graph', 'node', 'edge'):
                defaults[first] = attrs
            else:
                nodes.append((first, attrs))
        take('}')
        take('end')
        return defaults, nodes, edges


def read(ctx, graph):
    lines = list(graph.source)
    try:
        return Reader(ctx, lines).read()
    except Malformed as e:
        ctx.fail('malformed source: %s' % e)


def check_attributes(ctx, what, got, style):
    expected = list(style.attributes.items()) if style else []
    ctx.check(len(got) == len(expected), '%s: number of attributes' % what)
    for (key, value), (k, v) in zip(got, expected):
        ctx.check(key == k, '%s: attribute %s' % (what, k))
        ctx.check_equal(value, v if is_text(v) else str(v), '%s: value of %s' % (what, k))


def is_text(v):
    return isinstance(v, str) or type(v).__name__ == 'SymStr'


# ------------------------------------------------------------------ quoting

def harness(ctx):
    """A value of arbitrary characters, alone and in a graph."""
    p = ctx.params
    kind = p['kind']
    n = ctx.choice('length', p['max'] + 1)
    label = ctx.string('label', n)
    if kind == 'style':
        x = style(label=label, color='none', height=0)
        text = type(x).__str__(x)
        lines = ['digraph G { 0 [', text, ']; }']
    elif kind == 'middle':
        x = style(width=1, label=label, shape='a"b', style=None)
        lines = ['digraph G { 0 [', type(x).__str__(x), ']; }']
    elif kind == 'two':
        other = ctx.string('other', 1)
        x = style(label=label, tooltip=other)
        lines = ['digraph G { 0 [', type(x).__str__(x), ']; }']
    if kind in ('style', 'middle', 'two'):
        try:
            _, nodes, edges = Reader(ctx, lines).read()
        except Malformed as e:
            return ctx.fail('malformed attributes: %s' % e)
        ctx.check(len(nodes) == 1 and not edges, 'statements around the value')
        check_attributes(ctx, 'style', nodes[0][1], x)
        return ctx.cover('value')
    graph = Graph()
    items = [object() for _ in range(3)]
    x, y, z = style(label=label), style(label='b', color='none'), style(label='\\"')
    graph.add_node(items[0], x)
    graph.add_node(items[1], y)
    graph.add_edge(items[0], items[1], x)
    graph.add_edge(items[1], items[2], None)
    graph.add_node(items[2], z)
    graph.add_edge(items[2], items[2], y)
    defaults, nodes, edges = read(ctx, graph)
    check_statements(ctx, 'graph', graph, nodes, edges)
    ctx.check([_[0] for _ in edges] == [nodes[0][0], nodes[1][0], nodes[2][0]]
              and [_[1] for _ in edges] == [nodes[1][0], nodes[2][0], nodes[2][0]], 'edges of the graph')
    for name in ('graph', 'node', 'edge'):
        check_attributes(ctx, name, defaults[name], getattr(Graph, name + '_style'))
    ctx.cover('value')


# ------------------------------------------------------------------ structure

def check_statements(ctx, what, graph, nodes, edges):
    ids = [_[0] for _ in nodes]
    ctx.check(len(set(ids)) == len(ids), '%s: ids are not distinct' % what)
    ctx.check(all(a in ids and b in ids for a, b, _ in edges), '%s: edge of a node which is not there' % what)
    ctx.check(len(nodes) == len(graph.nodes) and len(edges) == len(graph.edges), '%s: number of statements' % what)
    for (_, attrs), node in zip(nodes, graph.nodes):
        check_attributes(ctx, what, attrs, node.style)
    for (_, _, attrs), edge in zip(edges, graph.edges):
        check_attributes(ctx, what, attrs, edge.style)


def parts(item):
    """What an item of a structure consists of."""
    for name in ('productions', 'terms', 'rules'):
        if hasattr(item, name):
            return list(getattr(item, name))
    if isinstance(getattr(item, 'rule', None), G.rule_class):
        if not hasattr(item, 'children') or not hasattr(item, 'rank'):
            return [item.rule]
    if hasattr(item, 'rank'):
        return list(item.children)
    return []


def exported(root):
    seen, out, todo = set(), [], [root]
    while todo:
        item = todo.pop()
        if id(item) in seen:
            continue
        seen.add(id(item))
        out.append(item)
        todo.extend(parts(item))
    return out


def check_graph(ctx, what, root, graph):
    """Exactly the items and the parent-child pairs of the structure, once each."""
    _, nodes, edges = read(ctx, graph)
    check_statements(ctx, what, graph, nodes, edges)
    items = exported(root)
    ctx.check(sorted(id(_.item) for _ in graph.nodes) == sorted(map(id, items)), '%s: items exported' % what)
    number = {id(node.item): statement[0] for node, statement in zip(graph.nodes, nodes)}
    relations = [_ for _ in edges if ('dir', 'none') in plain(_[2])]
    got = [(a, b) for a, b, attrs in edges if ('dir', 'none') not in plain(attrs)]
    expected = [(number[id(x)], number[id(y)]) for x in items for y in parts(x)]
    ctx.check(sorted(got) == sorted(expected), '%s: edges %s, expected %s' % (what, sorted(got), sorted(expected)))
    for x in items:
        # order of the children
        ours = [number[id(y)] for y in parts(x)]
        ctx.check([b for a, b in got if a == number[id(x)]] == ours, '%s: order of children' % what)
    return number, nodes, relations


def plain(attrs):
    return [(k, v) for k, v in attrs if isinstance(v, str)]


def label_of(attrs):
    for k, v in attrs:
        if k == 'label':
            return v


def same_shape(node, defs, x, below, depth):
    """Export of node is the subgraph from x (children in order)."""
    if depth == 0:
        return True
    kind = node[0]
    kids = below.get(x, [])
    if kind in ('empty', 'pipe', 'word'):
        return not kids
    if kind in ('lit', 'seq'):
        if len(kids) != 1:
            return False
        row = (node,) if kind == 'lit' else node[1]
        kids = below.get(kids[0], [])
        if len(kids) != len(row):
            return False
        return all(
            not below.get(y) if c[0] == 'lit' else same_shape(c, defs, y, below, depth - 1)
            for c, y in zip(row, kids))
    items = [defs[node[1]]] if kind == 'ref' else node[1] if kind == 'alt' else [node[1]]
    return len(items) == len(kids) and all(same_shape(c, defs, y, below, depth - 1) for c, y in zip(items, kids))


class Always(Relation):
    label = 'r\\"'

    def __call__(self, form, other):
        return True


R = Always()
F = fact('F"\\', ['a', 'n'])


def named_(x):
    return named(x, 'N\\"\n')


class Raw(object):
    def __init__(self, word):
        self.normal_form = word
        self.tag = type('Tag', (object,), {'grammemes': frozenset({'NOUN'})})


class RawMorph(object):
    def parse(self, word):
        return [Raw(word)]




class TagClass(object):
    @staticmethod
    def grammeme_is_known(gram):
        return True


RawMorph.TagClass = TagClass
MORPH = MorphAnalyzer(RawMorph())


def pipe(f, *lines):
    return ('pipe', 'pipeline', list(lines), f)


def grammars():
    E, N = ref('E'), ref('N')
    x, y = seq(A, B), alt(A, B)
    shared = named(seq(opt(A), B), 'x')
    return [
        (A, {}), (x, {}), (y, {}), (EMPTY, {}), (alt(EMPTY, A, x), {}), (seq(x, x), {}), (seq(y, alt(y, x)), {}),
        (seq(opt(A), rep(B)), {}), (seq(opt(A, True), rep(B, None, None, True)), {}),
        (seq(rep(A, 2), rep(B, None, 2), rep(A, 2, 3)), {}), (opt(rep(A)), {}), (rep(opt(A), None, 2), {}),
        (named_(x), {}), (named_(named(x, 'm')), {}), (seq(named_(A), named_(y)), {}),
        (seq(A, B, main=1), {}), (seq(opt(A), x, main=1), {}), (seq(rel(A, R), B, A, main=2), {}),
        (interp(seq(interp(A, F.a), interp(x, F.n)), F), {}), (interp(interp(x, F.a.const('"\\')), F), {}),
        (interp(seq(interp(rep(A), F.a), opt(interp(B, F.n))), F), {}),
        (seq(pipe(pipeline, 'a b', 'b'), A), {}), (rep(pipe(caseless_pipeline, 'a')), {}),
        (alt(pipe(morph_pipeline, 'a', 'b a'), seq(pipe(pipeline, 'a'), B)), {}),
        (E, {'E': alt(seq(A, E), B)}), (seq(E, E), {'E': alt(seq(A, opt(E)), B)}), (rep(E), {'E': seq(A, N), 'N': alt(B, seq(A, E))}),
        (named_(E), {'E': named(alt(A, seq(E, B)), 'e')}), (alt(E, seq(N, E)), {'E': alt(seq(A, N), A), 'N': interp(B, F.a)}),
        (seq(shared, shared), {}), (alt(seq(shared, A), interp(shared, F.a), named(shared, 'y')), {}),
        (seq(shared, opt(shared), rel(shared, R)), {}), (interp(E, F), {'E': alt(seq(A, interp(E, F.n)), interp(A, F.a))}),
        (seq(seq(seq(A))), {}), (alt(alt(A, B), alt(EMPTY, seq(B, B))), {}), (seq(EMPTY, A), {}), (seq(A, seq(EMPTY, opt(EMPTY))), {}),
        (seq(rel(x, R), rel(named_(y), R)), {}),
    ]


@lru_cache(None)
def enumerated(size):
    unary = [opt, rep, lambda x: rep(x, 2, 3), lambda x: rep(x, None, 2), lambda x: named(x, 'n'),
             lambda x: rel(x, R), lambda x: interp(x, F.a), lambda x: seq(x)]
    binary = [seq, alt, lambda a, b: seq(a, b, main=1), lambda a, b: seq(a, a, b)]
    out = []
    memo = {}
    for s in range(1, size + 1):
        for node in G.enumerate_nodes(s, [A, B, EMPTY], unary, binary, memo):
            if G.canonical(node):
                out.append((node, {}))
    return out


def grammar_list(p):
    return grammars() if p['of'] == 'listed' else enumerated(p['size'])


def rules(ctx):
    """Exports of a rule, in each form it takes, and of the parse trees."""
    p = ctx.params
    g = ctx.pick('grammar', grammar_list(p)[p['from']:p['to']])
    text = G.show_grammar(g)
    G.rule_class = type(rule('a')).__mro__[0]
    r = G.build(g)
    graph = r.as_dot
    number, nodes, relations = check_graph(ctx, 'rule ' + text, r, graph)
    ctx.check(not relations, 'relations in a rule')
    below = {}
    for x, y, _ in read(ctx, graph)[2]:
        below.setdefault(x, []).append(y)
    ctx.check(same_shape(g[0], g[1], number[id(r)], below, 6), 'structure of rule %s' % text)
    ctx.cover('rule')
    # exports do not depend on previous ones
    ctx.check(list(r.as_dot.source) == list(graph.source) == list(r.as_dot.source), 'repeated export of ' + text)
    if G.degenerate(g):
        return
    parser = Parser(r, tokenizer=G.IdTokenizer(MORPH))
    ctx.check(list(r.as_dot.source) == list(graph.source), 'export of %s after a parser is built' % text)
    # the rest is built from activated rules
    from yargy.parser import Context
    active = r.activate(Context(parser.tokenizer, parser.tagger))
    check_graph(ctx, 'activated ' + text, active, active.as_dot)
    normal = active.normalized
    check_graph(ctx, 'normalized ' + text, normal, normal.as_dot)
    bnf = normal.as_bnf
    check_graph(ctx, 'bnf ' + text, bnf.start, bnf.start.as_dot)
    ctx.cover('bnf')
    n = ctx.choice('tokens', p['max']) + 1
    tokens = [MorphToken(ctx.char('t%d' % i, 'ab'), G.token_span(i), 'RU', [Form('a', Grams({'NOUN'}))])
              for i in range(n)]
    match = parser.match(tokens)
    if match is None:
        return
    tree = match.tree
    number, nodes, relations = check_graph(ctx, 'tree of ' + text, tree.root, tree.as_dot)
    ctx.observe('tree', [len(nodes), len(relations)])
    ctx.cover('tree')
    labels = {x: label_of(attrs) for x, attrs in nodes}
    leaves = G.leaves_of(tree.root)
    ctx.check(len(leaves) == n, 'leaves of the tree of ' + text)
    for leaf, token in zip(leaves, tokens):
        ctx.check_equal(labels[number[id(leaf)]], token.value, 'label of a leaf')
    # a pair of nodes for each two uses of a relation
    related = {}
    for x in exported(tree.root):
        relation = getattr(getattr(x, 'rule', None), 'relation', None)
        if relation is not None:
            related.setdefault(id(relation), []).append(number[id(x)])
    expected = sorted(sorted(_) for items in related.values() for _ in itertools.combinations(items, 2))
    ctx.check(sorted(sorted(_[:2]) for _ in relations) == expected, 'relations in the tree of ' + text)
    if relations:
        ctx.cover('relation')


# ------------------------------------------------------------------ labels

SPECIAL = 'aA0\\"\n\r\'{}[];,= -><\u0436\u2028\t'


def labels(ctx):
    """Values of words, names and parameters end up in the labels."""
    p = ctx.params
    G.rule_class = type(rule('a')).__mro__[0]
    kind = p['kind']
    v = ctx.string('v', ctx.choice('length', p['max']) + 1, SPECIAL if p['special'] else None)
    shown = v
    if kind == 'name':
        r = rule('a').named(v)
    elif kind == 'deep name':
        r = or_(rule(rule('a').optional().named(v), 'b'), rule('b'))
    elif kind == 'eq':
        r = rule(eq(v), 'b')
    elif kind == 'word':
        r = rule('b', v, main(rule('b')))
    elif kind == 'gram':
        r, shown = rule(gram(v)), None
    elif kind == 'not':
        r = rule(not_(eq(v)))
    elif kind == 'and':
        r = rule(and_(eq('b'), or_(eq(v), eq('c'))))
    elif kind == 'const':
        r, shown = rule('a').interpretation(const(v)), None
    elif kind == 'caseless':
        r, shown = rule(normalized(v)), None
    elif kind == 'type':
        r, shown = rule(type_(v), tag(v)), None
    elif kind == 'leaf':
        r = rule(not_(eq('')), rule(not_(eq(''))).named('n')).named('m')
    graph = r.as_dot
    number, nodes, _ = check_graph(ctx, kind, r, graph)
    if kind == 'leaf':
        tokens = [Token(v, G.token_span(0), 'OTHER'), Token('\\"\n', G.token_span(1), 'OTHER')]
        tree = Parser(r, tokenizer=G.IdTokenizer()).match(tokens).tree
        number, nodes, _ = check_graph(ctx, 'tree', tree.root, tree.as_dot)
        for leaf, token in zip(G.leaves_of(tree.root), tokens):
            attrs = dict(nodes)[number[id(leaf)]]
            ctx.check_equal(label_of(attrs), token.value, 'label of a leaf')
    if kind in ('name', 'deep name'):
        ctx.check(ctx.or_(*[ctx.eq(label_of(attrs), v) for _, attrs in nodes]), 'label of a named rule')
    elif shown is not None and kind != 'leaf':
        found = [ctx.or_(*[ctx.eq(label_of(attrs)[i:i + len(v)], v) for i in range(len(label_of(attrs)) - len(v) + 1)])
                 for _, attrs in nodes]
        ctx.check(ctx.or_(*found), 'parameter is not in a label')
    ctx.cover('label')
    if kind not in ('gram', 'caseless', 'type', 'leaf'):
        bnf = Parser(r, tokenizer=G.IdTokenizer()).rule
        check_graph(ctx, 'bnf', bnf, bnf.as_dot)


class Known(G.IdTokenizer):
    def check_type(self, type):
        pass


class Tags(Tagger):
    tags = {'B'}

    def __call__(self, tokens):
        return tokens


def predicate_(name, *args):
    return lambda n: rule(getattr(predicates, name)(*[_(n) for _ in args]), 'b')


def relation_(make):
    def f(n):
        x = make()
        return rule(rule(gram('NOUN')).match(x), rule(gram('NOUN')).match(x), 'a')
    return f


def attribute_(make):
    def f(n):
        f = fact('G', ['a', attribute('b', n), attribute('r').repeatable()])
        return rule(rule('a').interpretation(make(f, n)), 'b').interpretation(f)
    return f


def upper(text):
    return text.upper()


def number(n):
    return n


def number_more(n):
    return n + 1


def numbers(n):
    return ['a', 'b', str(n)]


KINDS = {
    'eq': predicate_('eq', lambda n: 'eq%d' % n), 'caseless': predicate_('caseless', str), 'in_': predicate_('in_', numbers),
    'in_caseless': predicate_('in_caseless', numbers), 'gte': predicate_('gte', number), 'lte': predicate_('lte', number),
    'length_eq': predicate_('length_eq', number), 'normalized': predicate_('normalized', str),
    'dictionary': predicate_('dictionary', numbers), 'gram': predicate_('gram', lambda n: 'NOUN'),
    'type': predicate_('type', lambda n: 'INT'), 'tag': predicate_('tag', lambda n: 'B'),
    'custom': predicate_('custom', lambda n: upper), 'true': predicate_('true'), 'is_lower': predicate_('is_lower'),
    'is_upper': predicate_('is_upper'), 'is_title': predicate_('is_title'),
    'is_capitalized': predicate_('is_capitalized'), 'is_single': predicate_('is_single'),
    'and or not': lambda n: rule(and_(gte(n), or_(not_(is_title()), eq('b')))),
    'gender': relation_(relations.gender_relation), 'number': relation_(relations.number_relation),
    'case': relation_(relations.case_relation), 'gnc': relation_(relations.gnc_relation),
    'and relation': relation_(lambda: and_(relations.gender_relation(), relations.case_relation())),
    'or relation': relation_(lambda: or_(relations.gender_relation(), not_(relations.case_relation()))),
    'attribute': attribute_(lambda f, n: f.a), 'default': attribute_(lambda f, n: f.b),
    'repeatable': attribute_(lambda f, n: f.r),
    'a.normalized': attribute_(lambda f, n: f.a.normalized()),
    'a.inflected': attribute_(lambda f, n: f.a.inflected({'plur'})),
    'a.inflected.custom': attribute_(lambda f, n: f.a.inflected().custom(upper)),
    'a.normalized.custom': attribute_(lambda f, n: f.a.normalized().custom(upper)),
    'a.const': attribute_(lambda f, n: f.a.const(n)),
    'a.custom': attribute_(lambda f, n: f.a.custom(upper)),
    'a.custom.custom': attribute_(lambda f, n: f.a.custom(upper).custom(str)),
    'fact': attribute_(lambda f, n: f),
    'normalized()': attribute_(lambda f, n: normalized_()),
    'inflected()': attribute_(lambda f, n: inflected({'plur'})),
    'const()': attribute_(lambda f, n: const(n)),
    'custom()': attribute_(lambda f, n: custom(upper)),
    'pipeline': lambda n: rule(pipeline(['a b', 'b'])),
    'caseless_pipeline': lambda n: rule(caseless_pipeline(['a b', 'b'])),
    'morph_pipeline': lambda n: rule(morph_pipeline(['a b', 'b'])),
    'empty': lambda n: rule(empty(), 'b'),
    'forward': lambda n: forward().define('a', forward().define('b')),
    'quantifiers': lambda n: rule(rule('a').optional(), rule('a').repeatable(min=n + 1), rule('b').repeatable(max=n + 2),
                                   rule('b').repeatable(min=2, max=n + 2)),
}


def everything(ctx):
    """Rules of every kind of predicate, relation, attribute and normalizer have exports."""
    G.rule_class = type(rule('a')).__mro__[0]
    n = ctx.pick('number', [0, 2])
    k = ctx.pick('kind', sorted(KINDS))
    r = KINDS[k](n)
    graph = r.as_dot
    number, nodes, _ = check_graph(ctx, k, r, graph)
    labels = [label_of(attrs) for _, attrs in nodes]
    ctx.check(all(isinstance(_, str) and _ for _ in labels), '%s: node without a label' % k)
    bnf = Parser(r, tokenizer=Known(MORPH), tagger=Tags()).rule
    labels = [label_of(attrs) for _, attrs in check_graph(ctx, 'bnf of ' + k, bnf, bnf.as_dot)[1]]
    ctx.check(all(isinstance(_, str) and _ for _ in labels), '%s: node of the BNF without a label' % k)
    ctx.cover('kind')


LABELS = ['name', 'deep name', 'eq', 'word', 'gram', 'not', 'and', 'const', 'caseless', 'type', 'leaf']
REPR = ['gram', 'const', 'caseless', 'type']
PLAN = {
    'quick': {'quote': 3, 'graph': 3, 'size': 4, 'chunk': 100, 'tokens': 4, 'labels': 3},
    'thorough': {'quote': 5, 'graph': 5, 'size': 5, 'chunk': 300, 'tokens': 6, 'labels': 4},
}


def shards(tier):
    plan = PLAN[tier]
    out = [(k, {'kind': k, 'max': plan['quote']}) for k in ('style', 'middle', 'two')]
    out.append(('graph', {'kind': 'graph', 'max': plan['graph']}))
    for a, b in G.chunks(grammars(), 8):
        out.append(('rules-%d' % a, {'h': 'rules', 'of': 'listed', 'from': a, 'to': b, 'max': plan['tokens']}))
    for a, b in G.chunks(enumerated(plan['size']), plan['chunk']):
        out.append(('enumerated-%d' % a, {'h': 'rules', 'of': 'enumerated', 'size': plan['size'], 'from': a, 'to': b,
                                          'max': 2}))
    out.append(('everything', {'h': 'everything'}))
    for k in LABELS:
        out.append(('label ' + k, {'h': 'labels', 'kind': k, 'special': k in REPR,
                                   'max': min(plan['labels'], 2) if k in REPR else plan['labels']}))
    return out


BOUNDS = {
    tier: 'values of 0..%(quote)d arbitrary characters alone and next to others, 0..%(graph)d in a graph; %(listed)d listed '
          'grammars and all %(count)d of up to %(size)d constructors, each as a rule, activated, normalized, BNF and as the '
          'trees of its matches on 1..%(tokens)d words (2 for the enumerated ones); names, words and parameters of 1..%(labels)d arbitrary '
          'characters (of a list of %(special)d where the label is a repr)' % dict(
              plan, listed=len(grammars()), count=len(enumerated(plan['size'])), special=len(SPECIAL))
    for tier, plan in PLAN.items()
}
COVER = {'all': ['value', 'kind', 'rule', 'bnf', 'tree', 'label', 'relation']}
ASSUMPTIONS = [
    'DOT quoting as in the DOT language: \\" and \\\\ are a quote and a backslash, \\n and \\r line breaks',
    'the structure of a rule is its productions, terms, alternatives and wrapped rule; of a tree, children of its nodes',
    'the structure of a rule as written is also compared to the description it was built from, to depth 6',
]
