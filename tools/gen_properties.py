"""Writes /verif/properties.jsonl (kept as a script so that ids, titles and
statements stay in one reviewable place)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


p('C01', 'match() accepts exactly the language of the grammar',
  '''For every grammar built from rule, or_, empty, optional, repeatable and (recursive) forward in which no
  repetition body or recursive cycle can match the empty sequence, and for every token sequence, Parser.match
  returns a match if and only if the whole sequence is a non-empty sentence of that grammar. The returned match
  covers every token of the sequence, never just a part of it, and an input that does not match gives None, not an
  exception.''',
  ['programs', 'inputs'],
  'all grammars up to the stated number of nodes over the stated constructors, all token sequences up to the stated length, token contents symbolic',
  'The tests parse about forty fixed grammar/text pairs and never combine nullable, recursive and shared sub-rules; acceptance is a claim about all grammars and all texts.',
  ['yargy/parser.py', 'yargy/rule/constructors.py', 'yargy/rule/transformators.py', 'yargy/rule/bnf.py', 'yargy/api.py'],
  [('Earley predict/scan/complete', 'yargy/parser.py:Parser.chart, predict, scan, complete'),
   ('state de-duplication', 'yargy/parser.py:Column.append, State.__hash__'),
   ('normalisation to BNF', 'yargy/rule/constructors.py:Rule.normalized, Rule.as_bnf')],
  ['Parser.match'],
  [('Chart/Column/State', 'the Earley chart of one parse', 'yargy/parser.py')])

p('C02', 'extract() reports exactly the derivable substrings',
  '''For every grammar without empty repetition bodies or empty cycles and every token sequence, Parser.extract yields
  a match for a span if and only if the tokens of that span form a non-empty sentence of the grammar. Each match's
  tokens are exactly the contiguous tokens of its span, in order, and its span runs from the start of its first token to
  the stop of its last token.''',
  ['programs', 'inputs'],
  'all grammars and token sequences within the stated bounds, token contents symbolic',
  'extract() is never called by a test; the few findall tests look at one span each, while the claim ranges over every substring of every text.',
  ['yargy/parser.py', 'yargy/tree/constructors.py', 'yargy/tree/transformators.py', 'yargy/token.py'],
  [('start rule predicted at every column', 'yargy/parser.py:Parser.chart'),
   ('completed start states collected', 'yargy/parser.py:Column.matches'),
   ('leaves collected left to right', 'yargy/tree/constructors.py:dfs_tree')],
  ['Parser.extract', 'Match.tokens', 'Match.span'])

p('C03', 'findall() picks a maximum-coverage, disjoint, ordered set of matches',
  '''For every set of candidate spans a grammar can match in a text, Parser.findall yields matches that are pairwise
  non-overlapping, in left-to-right order, each one of the candidates, and whose total length in tokens is the maximum
  over all non-overlapping selections. Parser.find returns the first match of findall, or None when there is none.''',
  ['inputs'],
  'every set of candidate spans over texts up to the stated length (each candidate present or absent symbolically); resolve_spans additionally for symbolic integer spans',
  'Tests look at two or three overlapping spans; optimality quantifies over all interval sets.',
  ['yargy/span.py', 'yargy/parser.py', 'yargy/tree/constructors.py'],
  [('weighted interval scheduling', 'yargy/span.py:resolve_spans, get_nexts'),
   ('candidates sorted by start', 'yargy/tree/constructors.py:Tree.__lt__'),
   ('one match per span', 'yargy/parser.py:prepare_resolved_matches')],
  ['Parser.findall', 'Parser.find', 'yargy.span.resolve_spans'])

p('C04', 'optional() and repeatable(min, max) match exactly the allowed counts',
  '''An item under repeatable(min, max) matches exactly the sequences of at least min (1 when absent) and at most max
  (unbounded when absent) consecutive occurrences of that item, under optional() zero or one, with or without reverse, wherever
  it stands in the grammar and whatever other quantified items stand next to it. Nesting quantifiers directly in each other,
  in any order and depth, means the corresponding count set: an outer count of inner counts (zero-or-more for optional and unbounded repeatable). Bounds below 1, or max below min,
  are rejected with ValueError.''',
  ['programs', 'inputs', 'configurations'],
  'all bounds min, max up to the stated limit (symbolic), all nestings up to the stated depth, all token sequences up to the stated length',
  'Tests compare printed BNF for a dozen fixed nestings and never parse with them; several quantified items side by side are not tested.',
  ['yargy/rule/constructors.py', 'yargy/rule/transformators.py', 'yargy/predicates/constructors.py'],
  [('squashing nested quantifiers', 'yargy/rule/transformators.py:SquashExtendedTransformator'),
   ('expansion to BNF', 'yargy/rule/transformators.py:ReplaceExtendedTransformator, max_bound, repeatable, optional, repeatable_optional, repeat'),
   ('choice of rule class', 'yargy/rule/constructors.py:Rule.repeatable')],
  ['Parser.match'])

p('C05', 'Ambiguity is resolved to the leftmost derivation, deterministically',
  '''When several derivations cover the same span, match and findall use the one that, comparing the derivations' choices
  top-down and left to right, takes the earlier alternative of or_ (or the earlier pipeline line) at the first difference. Under repeatable the
  choice to take another item precedes stopping unless reverse=True; under optional skipping precedes taking unless reverse=True.
  (Quantifiers nested directly in each other act as one and are not covered here.) The outcome depends only on the grammar and the text, not on hashing or on earlier parses.''',
  ['programs', 'inputs'],
  'all ambiguous grammars within the stated bounds and all token sequences up to the stated length',
  'One cookbook example documents it; no test checks which of several derivations is returned.',
  ['yargy/tree/constructors.py', 'yargy/parser.py', 'yargy/pipelines.py', 'yargy/rule/transformators.py'],
  [('rank of the predicted production', 'yargy/parser.py:Parser.predict'),
   ('tree order', 'yargy/tree/constructors.py:Node.__lt__, Tree.__lt__'),
   ('order of the alternatives after expansion', 'yargy/rule/transformators.py')],
  ['Match.fact', 'Match.tree'])

p('C06', 'Annotations stay exactly where the user attached them',
  '''However named(), interpretation(), match() and quantifiers are nested on a rule, and however often one rule object is
  reused in a grammar (including through forward), each interpretation, name and relation takes effect at precisely the occurrences of the rule it
  was attached to. Annotating a rule returns a new rule: it never changes what the original rule, or another annotated use of it, means.''',
  ['programs'],
  'all nestings up to the stated depth of annotations and quantifiers over shared and recursive rules',
  'Tests check the printed BNF of seven hand-picked nestings.',
  ['yargy/rule/bnf.py', 'yargy/rule/transformators.py', 'yargy/rule/constructors.py'],
  [('sharing detection and lifting', 'yargy/rule/bnf.py:BNFTransformator.is_shared, visit_WrapperRule, lift'),
   ('flattening', 'yargy/rule/transformators.py:FlattenTransformator'),
   ('memoised visiting', 'yargy/rule/transformators.py:RuleTransformator.visit')],
  ['Match.fact', 'Rule.as_bnf', 'Match.tree'])

p('C07', 'Default tokenization is a faithful, ordered partition of the text',
  '''For every text, the tokens of Tokenizer (and MorphTokenizer) are in increasing order and non-overlapping, each token's value is exactly the text at its span,
  and with the default rules every non-whitespace character, and every line-break character, lies in exactly one token. Each token is the longest run of its type at
  its position, its type is that of the first rule that matches there: Cyrillic run RU, Latin run LATIN, digit run INT, one punctuation mark PUNCT, line-break run EOL,
  any other single visible character OTHER.''',
  ['inputs'],
  'all texts up to the stated length over all Unicode code points (each character a symbolic code point)',
  'Tests tokenize six short strings.',
  ['yargy/tokenizer.py', 'yargy/token.py', 'yargy/span.py'],
  [('alternation of named groups', 'yargy/tokenizer.py:Tokenizer.compile'),
   ('finditer loop', 'yargy/tokenizer.py:Tokenizer.__call__'),
   ('default rules', 'yargy/tokenizer.py:RULES')],
  ['Tokenizer.__call__', 'Tokenizer.split'])

p('C08', 'Tokenizer reconfiguration is local and respects precedence',
  '''After add_rules the added rules take precedence over the existing ones in the order given, after remove_types no token of a removed type is produced and check_type rejects it with ValueError,
  and any sequence of such calls is equivalent to building the tokenizer from the resulting rule list. Reconfiguring one tokenizer never changes another tokenizer or the
  default rules, and an unknown type is rejected with ValueError.''',
  ['histories', 'inputs', 'configurations'],
  'all sequences of add_rules/remove_types calls up to the stated length on one or two tokenizers, all texts up to the stated length',
  'Tests make one add_rules and one remove_types call.',
  ['yargy/tokenizer.py'],
  [('reset/compile', 'yargy/tokenizer.py:Tokenizer.reset, compile'),
   ('add_rules/remove_types', 'yargy/tokenizer.py:Tokenizer.add_rules, remove_types, check_type')],
  ['Tokenizer.__call__', 'Tokenizer.check_type'])

p('C09', 'Joining tokens restores the text up to the size of gaps',
  '''For every list of consecutive tokens, joining them gives their values in order with exactly one space between two tokens that are separated by
  a gap in the text and nothing between adjacent ones. Joining normalized or inflected tokens keeps the same spacing and replaces only the values, by
  the first form's normal form (lower-cased value for a word without morphology) or the first form's inflection.''',
  ['inputs'],
  'all token lists up to the stated length with symbolic gaps and values',
  'One string is joined by the tests.',
  ['yargy/token.py', 'yargy/interpretation/interpretator.py', 'yargy/interpretation/normalizer.py'],
  [('gap test', 'yargy/token.py:format_tokens'),
   ('normalize/inflect', 'yargy/token.py:normalize_token, inflect_token')],
  ['yargy.token.join_tokens', 'join_normalized_tokens', 'join_inflected_tokens'])

p('C10', 'Value predicates decide exactly what they document',
  '''For every token, eq compares the exact value, caseless and in_caseless compare lower-cased values (whatever the case of the parameter), in_ tests membership of the value, length_eq the length, is_lower/is_upper/is_title
  agree with the str methods, is_capitalized tests the first letter, gte and lte compare the integer value and are false for every token that is not an INT,
  type tests the token type, custom applies its function to the value only when the type is among its types, and true accepts everything.''',
  ['inputs'],
  'all token values up to the stated length over the stated alphabet, all integer parameters, all token types',
  'The doctests evaluate each predicate on one to three tokens.',
  ['yargy/predicates/bank.py', 'yargy/predicates/constructors.py'],
  [('predicate bank', 'yargy/predicates/bank.py')],
  ['Predicate.__call__'])

p('C11', 'Predicate combinators and morphological predicates are exact',
  '''and_, or_ and not_ over predicates, nested to any depth and before as well as after activation for a tokenizer, are the Boolean combinations of their parts. gram(g) holds iff some form has grammeme g,
  is_single iff some form is singular (or singular-only), normalized(w) and dictionary(ws) iff a normal form of the token is among the normal forms of the given words, all false or value-based for tokens without
  morphology. A token matched by gram or is_single keeps exactly the forms that satisfy the predicate, in order, and everything else unchanged, including its tag.''',
  ['inputs', 'programs'],
  'all forms lists up to the stated size with symbolic grammemes and normal forms; all Boolean combinations up to the stated depth',
  'Tests evaluate one combination on four words.',
  ['yargy/predicates/constructors.py', 'yargy/predicates/bank.py', 'yargy/token.py', 'yargy/morph.py'],
  [('compositions', 'yargy/predicates/constructors.py:PredicatesComposition, NotPredicate'),
   ('morphological predicates', 'yargy/predicates/bank.py:GramPredicate, is_single, DictionaryPredicate'),
   ('form narrowing', 'yargy/token.py:MorphToken.constrained, MorphTagToken.constrained')],
  ['Predicate.__call__', 'Match.tokens'])

p('C12', 'Agreement relations are symmetric and match Russian agreement',
  '''For any two word forms: case agrees iff the forms have the same case set or one is indeclinable; number agrees iff both have singular or both plural (a singular-only or plural-only word counting with singular or plural respectively of the other);
  gender agrees iff both are plural, share a gender, one is common-gender and the other masculine or feminine, or one has general gender. gnc is the conjunction of the three, every built-in relation is symmetric, and and_, or_, not_ over relations are the Boolean combinations.''',
  ['inputs'],
  'all pairs of grammeme sets over the grammemes concerned (symbolic membership)',
  'Tests try six word combinations out of the 2^30-odd grammeme-set pairs.',
  ['yargy/relations/bank.py', 'yargy/relations/constructors.py', 'yargy/morph.py'],
  [('relation bank', 'yargy/relations/bank.py'),
   ('compositions', 'yargy/relations/constructors.py'),
   ('grammeme views', 'yargy/morph.py:Gender, Number, Case, Grams')],
  ['Relation.__call__'])

p('C13', 'Agreement accepts exactly consistent words and narrows their forms',
  '''When words with morphology are related by match(relation), a parse in which two words are related is returned iff some form of one agrees with some form of the other, and each related word in the returned match keeps exactly its
  forms that have an agreeing form in the other. With several related words or relations, every form kept has an agreeing kept form in each word related to it, no form that takes part in a fully consistent choice of forms is
  dropped, and a parse with a word left without forms is not returned.''',
  ['inputs', 'programs'],
  'up to the stated number of words and forms with a fully symbolic (arbitrary symmetric) relation',
  'Tests check six fixed sentences; narrowing with three or more words is not tested.',
  ['yargy/relations/graph.py', 'yargy/tree/transformators.py', 'yargy/parser.py', 'yargy/tree/constructors.py'],
  [('pairwise validation', 'yargy/relations/graph.py:TokenRelationsGraph.validate, constrain'),
   ('collection of related words', 'yargy/tree/transformators.py:RelationsTransformator'),
   ('application', 'yargy/tree/transformators.py:ApplyRelationsTransformator')],
  ['Parser.match', 'Match.tokens', 'Match.fact'])

p('C14', 'Facts contain exactly what the annotated words say',
  '''In the fact of a match, an attribute holds the joined text of the words annotated with it; of several occurrences of a plain attribute the rightmost wins, while a repeatable attribute
  holds all of them in text order; an attribute that did not occur has its declared default (empty list if repeatable). A nested attribute annotation replaces the inner one, a nested fact under an attribute becomes its value, and a fact nested
  directly in a fact of the same kind (or a kind it is derived from) is merged into it; annotations of other facts leave it alone. Mixing words with interpreted parts under one attribute raises TypeError.''',
  ['programs', 'inputs'],
  'all interpretation trees up to the stated size, symbolic choice of which optional parts occur',
  'Tests cover fifteen fixed trees, none with merging of repeatable attributes or several overwrites.',
  ['yargy/interpretation/interpretator.py', 'yargy/interpretation/fact.py', 'yargy/interpretation/attribute.py', 'yargy/tree/transformators.py'],
  [('fact assembly', 'yargy/interpretation/interpretator.py:FactInterpretator, AttributeInterpretator'),
   ('set/merge/normalized', 'yargy/interpretation/fact.py:InterpretatorFact'),
   ('flattening of uninterpreted nodes', 'yargy/tree/transformators.py:KeepInterpretationNodesTransformator')],
  ['Match.fact'])

p('C15', 'as_json and spans of a fact agree with the fact',
  '''For every match with a fact, as_json lists the attributes in declared order with the same values as the fact (nested facts as nested objects, repeatable ones as lists) leaving out exactly those that are None,
  and spans lists, sorted by start, one span per annotated attribute occurrence that made it into the fact, from the start of its first word to the stop of its last, whatever normalization
  was applied to it (a nested fact counts through its own attributes). Both can be read repeatedly and never raise.''',
  ['programs', 'inputs'],
  'all interpretation trees up to the stated size, all normalizers',
  'Tests read spans and as_json on nine fixed facts, none with const or nested repeatable parts.',
  ['yargy/interpretation/fact.py', 'yargy/interpretation/interpretator.py'],
  [('as_json', 'yargy/interpretation/fact.py:InterpretatorFact.as_json'),
   ('spans', 'yargy/interpretation/fact.py:InterpretatorFact.spans, Fact.spans'),
   ('result kinds', 'yargy/interpretation/interpretator.py:Chain, FactResult, AttributeResult, NormalizerResult')],
  ['Fact.as_json', 'Fact.spans'])

p('C16', 'Normalizers compose as documented',
  '''normalized() gives the normal form of each word joined with the original spacing (or the pipeline line, when the words come from a pipeline), inflected(grams) the inflection of each word's first surviving form or its normal form where it cannot be inflected (nominative singular when no grammemes are given),
  const(v) gives v, custom(f) gives f of the text, and a trailing custom(f) gives f of what precedes it. The result is the same whether the normalizer is written on the attribute or as a separate interpretation below it.''',
  ['inputs', 'programs'],
  'all normalizer chains within the stated bounds over symbolic words and forms',
  'Tests run each chain on one word.',
  ['yargy/interpretation/normalizer.py', 'yargy/interpretation/attribute.py', 'yargy/interpretation/interpretator.py', 'yargy/token.py', 'yargy/morph.py'],
  [('normalizers', 'yargy/interpretation/normalizer.py'),
   ('attribute normalizers', 'yargy/interpretation/attribute.py'),
   ('inflection', 'yargy/morph.py:Form.inflect')],
  ['Match.fact'])

p('C17', 'A pipeline means the alternatives it lists',
  '''pipeline(lines), caseless_pipeline(lines) and morph_pipeline(lines) match exactly the token sequences that match one of the lines word for word, compared respectively exactly, ignoring case (by lower case), and by common normal form (in any position of a
  grammar, under quantifiers, and whether the lines share first words or not). The normalized value of such a match (the normalizer put on the pipeline or on a rule that wraps just it) is the matched line, and when several lines match the same words the first listed wins, independently of hash order.''',
  ['inputs', 'programs'],
  'all dictionaries of up to the stated number of lines and words over the stated vocabulary, all token sequences with symbolic values and normal forms',
  'Tests use five dictionaries on one or two texts each.',
  ['yargy/pipelines.py', 'yargy/rule/bnf.py', 'yargy/predicates/bank.py'],
  [('first-word index', 'yargy/pipelines.py:PipelineBNFRule.build_index, predict and subclasses'),
   ('splitting lines', 'yargy/pipelines.py:PipelineScheme.get_key'),
   ('key as normalized value', 'yargy/tree/transformators.py:InterpretationTransformator.visit_Node')],
  ['Parser.match', 'Match.fact'])

p('C18', 'Parsers, rules and matches do not affect each other',
  '''Parsing a text gives the same matches and facts whatever texts the parser, or another parser built from the same rules, processed before, and reading one match's fact never changes another match. Building a parser does not change the rules given to it:
  further parsers built from the same rule objects, also with another tokenizer and also for recursive grammars, behave as if built from fresh rules. A candidate match examined or rejected on the way does not change the forms, tokens or facts of other matches.''',
  ['histories', 'programs'],
  'all sequences of up to the stated number of constructions, parses and reads over the stated grammars, with symbolic texts',
  'Every test builds its rules, one parser and usually one match from scratch.',
  ['yargy/parser.py', 'yargy/rule/transformators.py', 'yargy/rule/bnf.py', 'yargy/tree/transformators.py', 'yargy/morph.py', 'yargy/pipelines.py'],
  [('activation', 'yargy/rule/transformators.py:ActivateTransformator'),
   ('transforming forward rules', 'yargy/rule/transformators.py:RuleTransformator.__call__'),
   ('narrowing leaves', 'yargy/tree/transformators.py:ApplyRelationsTransformator')],
  ['Parser.match', 'Parser.extract', 'Match.fact', 'Match.tokens'])

p('C19', 'main() decides which word of a phrase takes part in agreement',
  '''The word of a phrase that takes part in its match(relation) is found by descending, at each rule, into the item marked main(...), or into the leftmost item that matched something when none is marked or the marked
  one matched nothing, through any nesting of rules, quantifiers and names. More than one main in a rule is rejected with ValueError.''',
  ['programs', 'inputs'],
  'all phrase structures up to the stated size and marker positions, symbolic choice of which optional parts occur, symbolic forms',
  'One test marks the last of two words; no test has an omitted optional part next to a main.',
  ['yargy/rule/constructors.py', 'yargy/tree/constructors.py', 'yargy/tree/transformators.py', 'yargy/rule/transformators.py'],
  [('main index of a production', 'yargy/rule/constructors.py:prepare_terms, Production'),
   ('descent', 'yargy/tree/constructors.py:Node.main'),
   ('dropping of empty parts', 'yargy/tree/transformators.py:PropogateEmptyTransformator')],
  ['Parser.match', 'Match.tokens'])

p('C20', 'DOT export is well-formed and faithful',
  '''The DOT source of any rule, normalized rule, BNF rule or parse tree is well-formed whatever characters its labels contain: reading a quoted attribute back by DOT's quoting rules gives the original value (line breaks as their escapes).
  There is one node statement per exported item with distinct ids, every edge joins exported items, and parent-child edges are exactly those of the structure. A leaf of a parse tree is labelled by its token's value, a named rule by its name.''',
  ['inputs', 'programs'],
  'all label strings up to the stated length (symbolic characters), all rules and trees within the stated bounds',
  'No test exports DOT at all.',
  ['yargy/dot.py', 'yargy/rule/transformators.py', 'yargy/tree/transformators.py'],
  [('quoting', 'yargy/dot.py:style.quote'),
   ('ids and source', 'yargy/dot.py:Graph'),
   ('exporters', 'yargy/rule/transformators.py:DotRuleTransformator; yargy/tree/transformators.py:DotTreeTransformator')],
  ['style.__str__', 'Graph.source', 'Rule.as_dot', 'Tree.as_dot'])

p('C21', 'Spans, tokens, forms and facts are proper values',
  '''Two spans, tokens, forms, grammeme sets or facts are equal iff they are of the same class and agree on every declared attribute, != is the negation of ==, and equality is reflexive and symmetric;
  equal values have equal hashes wherever their attributes are hashable. Spans unpack to (start, stop), equal and hash like that tuple, and < and > order them as it is.''',
  ['inputs'],
  'all attribute values (symbolic integers and strings) for pairs and triples of values',
  'Tests compare a handful of literal values with ==; hash and order are untested.',
  ['yargy/record.py', 'yargy/span.py', 'yargy/token.py', 'yargy/morph.py', 'yargy/interpretation/fact.py'],
  [('Record.__eq__/__hash__/__iter__', 'yargy/record.py'),
   ('Span.__eq__/__lt__', 'yargy/span.py')],
  ['==', 'hash', '<'])

p('C22', 'Ill-typed grammar and fact definitions are rejected when built',
  '''or_ and and_ accept only all-predicate or all-relation arguments (or_ also all-rule ones) and not_ only a predicate or relation; any other mix raises TypeError and a valid one yields an object of the matching kind. Non-predicate, non-rule items of rule(...)
  are literal words. Building a fact with an undeclared attribute raises KeyError, a parser from an undefined forward raises TypeError, defining a forward as a bare forward raises ValueError, interpreting a match without root interpretation raises ValueError,
  an unknown grammeme, token type or tag in gram(), type() or tag() raises ValueError when the parser is built. named() takes a string, match() a relation, interpretation() a fact, attribute or normalizer, main() a rule or predicate,
  quantifiers a boolean reverse, pipelines strings and tokenizers token rules; anything else raises TypeError.''',
  ['inputs', 'programs'],
  'all argument-kind sequences up to the stated length (symbolic kinds), all attribute-name subsets',
  'Tests hit four of these rejections.',
  ['yargy/api.py', 'yargy/check.py', 'yargy/rule/constructors.py', 'yargy/interpretation/fact.py', 'yargy/predicates/bank.py', 'yargy/tagger.py'],
  [('dispatch on kinds', 'yargy/api.py'),
   ('checks', 'yargy/check.py'),
   ('activation checks', 'yargy/predicates/bank.py')],
  ['or_, and_, not_, rule', 'fact(...)', 'Parser(...)'])

p('C23', 'Tags assigned by a tagger are what tag() sees',
  '''The parser matches tag(t) against exactly the tag the tagger gave each token, and a tagged token keeps value, span, type and morphology and still satisfies every predicate it satisfied untagged; untagged tokens never satisfy tag(t).
  A composition of taggers feeds each tagger's output to the next, in order, and knows exactly the tags any of its parts knows.''',
  ['inputs', 'programs'],
  'all tag sequences up to the stated length (symbolic tags) over morphological and plain tokens, compositions up to the stated length',
  'One test with one fixed tag pattern.',
  ['yargy/tagger.py', 'yargy/token.py', 'yargy/parser.py', 'yargy/predicates/bank.py'],
  [('tagged tokens', 'yargy/token.py:Token.tagged, MorphToken.tagged'),
   ('composition', 'yargy/tagger.py:TaggersComposition'),
   ('TagPredicate', 'yargy/predicates/bank.py')],
  ['Parser.findall', 'TaggersComposition'])

p('C24', 'The morphology wrapper reports the analyzer faithfully',
  '''For every word, MorphAnalyzer returns one form per analysis of the underlying analyzer, in order, with that analysis' normal form and grammemes; normalized gives the set of normal forms; MorphTokenizer attaches exactly these forms to RU tokens and to no others. A form's gender, number and case views
  reflect exactly the corresponding grammemes, inflect returns the underlying inflection or the normal form when there is none, and unknown grammemes are rejected. Repeated and cached calls give equal answers.''',
  ['inputs', 'histories'],
  'an arbitrary (symbolic) underlying analyzer with up to the stated number of analyses and grammemes',
  'Tests analyse three words.',
  ['yargy/morph.py', 'yargy/tokenizer.py'],
  [('form preparation', 'yargy/morph.py:prepare_form, MorphAnalyzer'),
   ('views', 'yargy/morph.py:Gender, Number, Case'),
   ('tokenizer', 'yargy/tokenizer.py:MorphTokenizer')],
  ['MorphAnalyzer.__call__', 'Form.inflect', 'MorphTokenizer.__call__'])

p('C25', 'Parsing terminates in polynomial work on every non-degenerate grammar',
  '''For every grammar without empty repetition bodies or empty cycles and every text, parsing terminates, and for grammars of bounded ambiguity the number of chart states is polynomial in the length of the text.''',
  ['programs', 'inputs'],
  'all grammars, all texts',
  'A liveness and complexity claim over unbounded inputs.',
  ['yargy/parser.py'],
  [('chart loop', 'yargy/parser.py:Parser.chart')],
  ['Parser.match'])

p('C26', 'extract() gives every derivation of every span, each one once',
  '''For every grammar without empty repetition bodies or empty cycles and every token sequence, the matches that Parser.extract yields for a span are exactly the derivations of that span by the
  grammar in which the related words agree: as many matches as derivations, each with the fact of its own derivation, none lost and none repeated. With all=False they are the derivations of the whole text. (One rule object, or nothing, as two alternatives of the same choice counts once
  or twice; quantifiers nested directly in each other act as one and are not covered.)''',
  ['programs', 'inputs'],
  'all ambiguous grammars within the stated bounds and all token sequences up to the stated length, agreement of any two related words arbitrary',
  'The cookbook counts the parses of one grammar on one text; tests look at spans, not at how many parses each has.',
  ['yargy/parser.py', 'yargy/tree/constructors.py', 'yargy/rule/transformators.py'],
  [('identity of states', 'yargy/parser.py:State.__hash__, Column.append'),
   ('advance', 'yargy/parser.py:Parser.advance, Parser.complete, Parser.predict'),
   ('alternatives after expansion', 'yargy/rule/transformators.py:ReplaceExtendedTransformator, FlattenTransformator')],
  ['Parser.extract', 'Match.fact'])

p('C27', 'The BNF shown for a rule is the grammar that is parsed',
  '''For every rule of words, or_, empty, quantifiers, names and (recursive) forwards, the BNF of rule.normalized.as_bnf, and that of the rule inside a parser, starts with the rule itself, defines every name it uses and each of them once,
  contains every name the user gave, and read as a grammar generates, for the whole rule and for every named part, exactly the language of that part, the same that the parser accepts. Words are shown as they are between quotes, the item
  marked by main() (other than the first) is marked. (Names given by the user are different and not of the form R0, R1, ...; words have no quotes; no interpretations or pipelines, which are shown by labels.)''',
  ['programs', 'inputs'],
  'all grammars up to the stated number of nodes, equivalence with the shown grammar for all token sequences up to the stated length',
  'Tests compare the BNF of a few rules with fixed text; none compares it with what is parsed.',
  ['yargy/rule/bnf.py', 'yargy/rule/transformators.py', 'yargy/rule/constructors.py'],
  [('names', 'yargy/rule/bnf.py:generate_names'), ('lines', 'yargy/rule/bnf.py:BNFRule.__str__, Production.__str__'),
   ('normal form', 'yargy/rule/constructors.py:Rule.normalized')],
  ['Rule.normalized.as_bnf', 'BNF.source'])

p('C28', 'EMAIL_RULE and PHONE_RULE find whole addresses and numbers',
  '''With EMAIL_RULE added to a tokenizer, an EMAIL token starts wherever (outside earlier tokens) a run of ASCII letters, digits and _ . + - is followed by @, a run of ASCII letters, digits and -, a dot and at least one ASCII letter, digit,
  - or dot, and it takes all of that. With PHONE_RULE, a PHONE token is an optional + and 10 to 14 digits with at most one separator (blank, - _ ( )) before the first and after the last and at most two between, as many as there are.
  The rest of the text is tokenized by the default rules, and of two rules that match at a place the one given first wins.''',
  ['inputs'],
  'texts around addresses and numbers with up to the stated number of symbolic characters, each rule alone and both in both orders',
  'One test with one address and one number.',
  ['yargy/tokenizer.py'],
  [('rules', 'yargy/tokenizer.py:EMAIL_RULE, PHONE_RULE'), ('precedence', 'yargy/tokenizer.py:Tokenizer.add_rules, Tokenizer.compile')],
  ['Tokenizer.__call__'])

p('C29', 'Parsers and rules used in several threads give what they give alone',
  '''When two threads use one parser at the same time (match, extract or findall), or each builds its own parser from one rule object or from two rules with common parts, tokenizer and tagger, every call returns the matches, with the
  spans, tokens and facts, that it returns when it runs alone, wherever the threads are switched. (Threads are switched where a function of yargy is called or continued; the functions and relations of the user and the raw morphological analyzer are pure.)''',
  ['schedules', 'inputs'],
  'two threads, texts of the stated lengths with symbolic words, preemption at every (or every stated) call of a function of yargy',
  'No test starts a thread.',
  ['yargy/parser.py', 'yargy/tokenizer.py', 'yargy/morph.py', 'yargy/rule/constructors.py', 'yargy/predicates/bank.py', 'yargy/pipelines.py'],
  [('parsing keeps its state in the chart', 'yargy/parser.py:Parser.chart, Chart, Column'),
   ('shared cache', 'yargy/morph.py:CachedMorphAnalyzer'),
   ('copies on activation', 'yargy/parser.py:Parser.__init__, yargy/rule/transformators.py:ActivateTransformator')],
  ['Parser.findall', 'Parser.extract', 'Parser.match', 'Match.fact'])

ids = [x['id'] for x in P]
assert len(ids) == len(set(ids))
for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
