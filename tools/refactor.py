"""Edits that keep the behaviour: the checks must stay quiet on them.

python3 refactor.py [BUNDLE...] [-c C01,C02]   makes a copy of /repo, applies a bundle, runs the tests and the checks"""
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['C%02d' % i for i in range(1, 30) if i != 25]

PARSER = [
    ('yargy/parser.py', """        value = hash(state)
        if value not in self.hashes:
            self.hashes.add(value)
            self.states.append(state)
            self.update_index(state)
""", """        key = state.key
        if key in self.hashes:
            return
        self.hashes.add(key)
        self.states.append(state)
        self.update_index(state)
"""),
    ('yargy/parser.py', """    def __hash__(self):
        return hash((
            id(self.rule), id(self.production), self.dot_index,
            self.start_column.index, self.stop_column.index,
            tuple(id(_) for _ in self.node.children)
        ))
""", """    @property
    def key(self):
        children = tuple(map(id, self.node.children))
        return (
            self.start_column.index, self.stop_column.index,
            id(self.rule), id(self.production), self.dot_index, children
        )

    def __hash__(self):
        return hash(self.key)

    def advanced(self, column, node):
        return State(
            rule=self.rule,
            production=self.production,
            dot_index=self.dot_index + 1,
            start_column=self.start_column,
            stop_column=column,
            node=self.node.attached(node)
        )
"""),
    ('yargy/parser.py', """        size = len(self.columns)
        for index in range(size):
            column = self.columns[index]
            next_column = None
            if index + 1 < size:
                next_column = self.columns[index + 1]
            yield column, next_column
""", """        return zip(self.columns, self.columns[1:] + [None])
"""),
    ('yargy/parser.py', """        self.columns = [Column(0, None)]
        for index, token in enumerate(self.tokens, 1):
            self.columns.append(Column(index, token))
""", """        self.columns = [
            Column(index, token)
            for index, token in enumerate([None] + self.tokens)
        ]
"""),
    ('yargy/parser.py', """        return self.columns[len(self.columns) - 1]
""", """        return self.columns[-1]
"""),
    ('yargy/parser.py', """            if column.first or all:
                self.predict(column, next_column, self.rule)
            for state in column:
                if state.completed:
                    self.complete(column, state)
                else:
                    next_term = state.next_term
                    if is_rule(next_term):
                        self.predict(column, next_column, next_term)
                        # rule may be already completed with empty match
                        for completed in column.empty_index[id(next_term)]:
                            self.advance(column, state, completed)
                    elif next_column:
                        self.scan(next_column, next_term, state)
        return chart
""", """            if all or column.first:
                self.predict(column, next_column, self.rule)
            # states are added on the way
            index = 0
            while index < len(column.states):
                self.process(column, next_column, column.states[index])
                index += 1
        return chart

    def process(self, column, next_column, state):
        if state.completed:
            return self.complete(column, state)
        next_term = state.next_term
        if not is_rule(next_term):
            if next_column is not None:
                self.scan(next_column, next_term, state)
            return
        self.predict(column, next_column, next_term)
        # rule may be already completed with empty match
        for completed in column.empty_index.get(id(next_term), ()):
            self.advance(column, state, completed)
"""),
    ('yargy/parser.py', """            leaf = Leaf(predicate, predicate.constrain(token))
            state = State(
                state.rule, state.production,
                dot_index=state.dot_index + 1,
                start_column=state.start_column,
                stop_column=column,
                node=state.node.attached(leaf)
            )
            column.append(state)
""", """            leaf = Leaf(predicate, predicate.constrain(token))
            column.append(state.advanced(column, leaf))
"""),
    ('yargy/parser.py', """        state = State(
            state.rule, state.production,
            dot_index=state.dot_index + 1,
            start_column=state.start_column,
            stop_column=column,
            node=state.node.attached(completed.node)
        )
        column.append(state)
""", """        column.append(state.advanced(column, completed.node))
"""),
    ('yargy/parser.py', """    spans = []
    span_matches = {}
    for tree in trees:
        span = tree.range
        if span not in span_matches:
            match = prepare_match(tree)
            if match:
                spans.append(span)
                span_matches[span] = match

    for span in resolve_spans(spans):
        yield span_matches[span]
""", """    matches = {}
    for tree in trees:
        if tree.range in matches:
            continue
        match = prepare_match(tree)
        if match is not None:
            matches[tree.range] = match
    return (matches[_] for _ in resolve_spans(list(matches)))
"""),
    ('yargy/parser.py', """    for state in states:
        match = prepare_match(state)
        if match:
            yield match
""", """    matches = map(prepare_match, states)
    return (_ for _ in matches if _)
"""),
    ('yargy/parser.py', """        for match in self.findall(text):
            return match
""", """        return next(iter(self.findall(text)), None)
"""),
    ('yargy/parser.py', """        for match in prepare_matches(trees):
            return match
""", """        return next(iter(prepare_matches(trees)), None)
"""),
    ('yargy/parser.py', """        states = self.matches(text)
        trees = prepare_trees(states)
        trees = sorted(trees)
        return prepare_resolved_matches(trees)
""", """        trees = list(prepare_trees(self.matches(text)))
        trees.sort()
        return prepare_resolved_matches(trees)
"""),
    ('yargy/parser.py', """        tokens = self.tokenizer(text)
        tokens = self.tagger(tokens)
        chart = Chart(tokens)
""", """        chart = Chart(self.tagger(list(self.tokenizer(text))))
"""),
    ('yargy/span.py', """    for _, stop in spans:
        for index, (start, _) in enumerate(spans):
            if start >= stop:
                yield index
                break
        else:
            yield
""", """    for span in spans:
        yield next((
            index for index, other in enumerate(spans)
            if other[0] >= span[1]
        ), None)
"""),
    ('yargy/span.py', """            previous = covers[index + 1]
            cover = span_size(span)
            indexes = {index}
            next = nexts[index]
            if next:
                cover += covers[next]
                indexes |= pointers[next]
            if cover < previous:
                cover = previous
                indexes = pointers[index + 1]
            covers[index] = cover
            pointers[index] = indexes
""", """            after = nexts[index]
            cover, indexes = span_size(span), {index}
            if after is not None:
                cover = cover + covers[after]
                indexes = indexes.union(pointers[after])
            if covers[index + 1] > cover:
                cover, indexes = covers[index + 1], pointers[index + 1]
            covers[index], pointers[index] = cover, indexes
"""),
    ('yargy/tree/constructors.py', """        if self.range == other.range:
            return self.root < other.root

        start, stop = self.range
        other_start, other_stop = other.range

        if start == other_start:
            return stop > other_stop

        return start < other_start
""", """        start, stop = self.range
        other_start, other_stop = other.range
        if start != other_start:
            return start < other_start
        if stop != other_stop:
            return other_stop < stop
        return self.root < other.root
"""),
    ('yargy/tree/constructors.py', """    queue = [root]
    while queue:
        item = queue.pop()
        yield item
        queue.extend(reversed(item.children))
""", """    yield root
    for child in root.children:
        for item in dfs_tree(child):
            yield item
"""),
    ('yargy/tree/constructors.py', """        if self.rank == other.rank:
            for a, b in zip(self.children, other.children):
                if is_leaf(a):  # b is also leaf
                    continue
                if id(a) == id(b):
                    continue
                if a.rank < b.rank:
                    return True
                elif a.rank > b.rank:
                    return False
                elif a.rank == b.rank:
                    return a < b
            return False
        return self.rank < other.rank
""", """        if self.rank != other.rank:
            return self.rank < other.rank
        for a, b in zip(self.children, other.children):
            if a is b or is_leaf(a):
                continue
            if a.rank != b.rank:
                return a.rank < b.rank
            return a < b
        return False
"""),
]

WORDS = [
    ('yargy/tokenizer.py', """        for match in re.finditer(self.regexp, text):
            name = match.lastgroup
            value = match.group(0)
            start, stop = match.span()
            type = self.mapping[name]
            token = Token(value, Span(start, stop), type)
            yield token
""", """        for match in self.regexp.finditer(text):
            yield Token(
                match.group(),
                Span(match.start(), match.end()),
                self.mapping[match.lastgroup]
            )
"""),
    ('yargy/tokenizer.py', """        for token in tokens:
            if token.type == RUSSIAN:
                forms = self.morph(token.value)
                yield token.morphed(forms)
            else:
                yield token
""", """        return (self.morphed(_) for _ in tokens)

    def morphed(self, token):
        if token.type != RUSSIAN:
            return token
        return token.morphed(self.morph(token.value))
"""),
    ('yargy/tokenizer.py', """        types = set()
        mapping = {}
        patterns = []
        for rule in rules:
            type, pattern = rule
            name = 'rule_{id}'.format(id=id(rule))
            pattern = r'(?P<{name}>{pattern})'.format(
                name=name,
                pattern=pattern
            )
            mapping[name] = type
            types.add(type)
            patterns.append(pattern)
""", """        mapping, patterns = {}, []
        for index, rule in enumerate(rules):
            name = 'r%d' % index
            mapping[name] = rule.type
            patterns.append('(?P<' + name + '>' + rule.pattern + ')')
        types = set(mapping.values())
"""),
    ('yargy/tokenizer.py', """        for type in types:
            self.check_type(type)
        self.reset([
            _ for _ in self.rules
            if _.type not in types
        ])
        return self
""", """        for type in types:
            self.check_type(type)
        rules = []
        for rule in self.rules:
            if rule.type in types:
                continue
            rules.append(rule)
        self.reset(rules)
        return self
"""),
    ('yargy/tokenizer.py', """    TokenRule(RUSSIAN, r'[а-яё]+'),
    TokenRule(LATIN, r'[a-z]+'),
    TokenRule(INT, r'\\d+'),
""", """    TokenRule(RUSSIAN, r'[ёа-я][а-яё]*'),
    TokenRule(LATIN, r'[a-zA-Z]+'),
    TokenRule(INT, r'\\d\\d*'),
"""),
    ('yargy/pipelines.py', """        index = defaultdict(list)
        for production in productions:
            term = production.terms[0]
            index[term.value].append(production)
        return dict(index)

    def predict(self, token):
        if token.value in self.index:
            for production in self.index[token.value]:
                yield production
""", """        index = {}
        for production in productions:
            value = production.terms[0].value
            index.setdefault(value, []).append(production)
        return index

    def get_value(self, token):
        return token.value

    def predict(self, token):
        return self.index.get(self.get_value(token), [])
"""),
    ('yargy/pipelines.py', """    def predict(self, token):
        value = token.value.lower()
        if value in self.index:
            for production in self.index[value]:
                yield production
""", """    def get_value(self, token):
        return super(CaselessPipelineBNFRule, self).get_value(token).lower()
"""),
    ('yargy/pipelines.py', """        index = defaultdict(list)
        for order, production in enumerate(productions):
            term = production.terms[0]
            for value in term.value:
                index[value].append((order, production))
        return dict(index)

    def predict(self, token):
        if is_morph_token(token):
            values = {_.normalized for _ in token.forms}
        else:
            values = {token.normalized}
        # in the order of lines, not of the sets
        productions = {}
        for value in values:
            if value in self.index:
                productions.update(self.index[value])
        for order in sorted(productions):
            yield productions[order]
""", """        index = defaultdict(set)
        for order, production in enumerate(productions):
            for value in production.terms[0].value:
                index[value].add(order)
        return dict(index)

    def predict(self, token):
        forms = token.forms if is_morph_token(token) else [token]
        orders = set()
        for form in forms:
            orders.update(self.index.get(form.normalized, ()))
        return [self.productions[_] for _ in sorted(orders)]
"""),
    ('yargy/predicates/bank.py', """        if token.type == INT:
            value = int(token.value)
            return method(self, value)
        else:
            return False
""", """        if token.type != INT:
            return False
        return method(self, int(token.value))
"""),
    ('yargy/predicates/bank.py', """        return token.value[0].isupper()
""", """        return token.value[:1].isupper()
"""),
    ('yargy/predicates/bank.py', """            return any(
                _.normalized in self.value
                for _ in token.forms
            )
        else:
            value = token.normalized
            return value in self.value
""", """            for form in token.forms:
                if form.normalized in self.value:
                    return True
            return False
        return token.normalized in self.value
"""),
    ('yargy/predicates/bank.py', """        return any(
            self.value in _.grams
            for _ in token.forms
        )

    def constrain(self, token):
        return token.constrained([
            _ for _ in token.forms
            if self.value in _.grams
        ])
""", """        return bool(self.filter(token.forms))

    def filter(self, forms):
        return list(filter(lambda form: self.value in form.grams, forms))

    def constrain(self, token):
        return token.constrained(self.filter(token.forms))
"""),
    ('yargy/predicates/bank.py', """        value = {_.lower() for _ in value}
        super(in_caseless, self).__init__(value)
""", """        super(in_caseless, self).__init__(set(map(str.lower, value)))
"""),
    ('yargy/predicates/bank.py', """        if self.types and token.type not in self.types:
            return False
        return self.function(token.value)
""", """        if not self.types or token.type in self.types:
            return self.function(token.value)
        return False
"""),
    ('yargy/morph.py', """        records = self.raw.parse(word)
        return [prepare_form(_) for _ in records]

    def normalized(self, word):
        return {_.normalized for _ in self(word)}
""", """        return list(map(prepare_form, self.raw.parse(word)))

    def normalized(self, word):
        values = set()
        for form in self(word):
            values.add(form.normalized)
        return values
"""),
    ('yargy/morph.py', """        record = self.raw.inflect(grams)
        if not record:
            return self.normalized
        return record.word
""", """        record = self.raw.inflect(grams)
        return record.word if record is not None else self.normalized
"""),
    ('yargy/morph.py', """        self.mask = [
            (_ in grams)
            for _ in ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct']
        ]
""", """        self.mask = []
        for case in ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct'):
            self.mask.append(case in grams)
"""),
    ('yargy/token.py', """    previous = None
    for token in tokens:
        if previous:
            _, stop = previous.span
            start, _ = token.span
            if start - stop > 0:
                yield ' '
        previous = token
        yield token.value
""", """    stop = None
    for token in tokens:
        if stop is not None and token.span.start > stop:
            yield ' '
        yield token.value
        stop = token.span.stop
"""),
    ('yargy/token.py', """    head, tail = tokens[0], tokens[-1]
    return Span(head.span.start, tail.span.stop)
""", """    return Span(tokens[0].span.start, tokens[-1].span.stop)
"""),
    ('yargy/tagger.py', """        for token in tokens:
            yield token
""", """        return tokens
"""),
    ('yargy/tagger.py', """        return any(
            _.check_tag(tag)
            for _ in self.taggers
        )
""", """        for tagger in self.taggers:
            if tagger.check_tag(tag):
                return True
        return False
"""),
    ('yargy/relations/bank.py', """        return (
            (form_male and other_male)
            or (form_female and other_female)
            or (form_neutral and other_neutral)
            or (form_bi and (other_male or other_female))
            or (other_bi and (form_male or form_female))
            or form_general
            or other_general
        )
""", """        if form_general or other_general:
            return True
        if form_bi and (other_male or other_female):
            return True
        if other_bi and (form_male or form_female):
            return True
        return any([
            form_male and other_male,
            form_female and other_female,
            form_neutral and other_neutral
        ])
"""),
    ('yargy/relations/bank.py', """        return (
            form_mask == other_mask
            or form_fixed
            or other_fixed
        )
""", """        if form_fixed or other_fixed:
            return True
        return all(a == b for a, b in zip(form_mask, other_mask))
"""),
    ('yargy/relations/bank.py', """        return (
            gender_relation.__call__(self, form, other)
            and number_relation.__call__(self, form, other)
            and case_relation.__call__(self, form, other)
        )
""", """        return all(
            cls.__call__(self, form, other)
            for cls in (case_relation, number_relation, gender_relation)
        )
"""),
    ('yargy/relations/constructors.py', """        return self.operator(_(form, other) for _ in self.relations)
""", """        results = [_(form, other) for _ in self.relations]
        return type(self).operator(results)
"""),
    ('yargy/relations/graph.py', """        for token_id in self.tokens:
            if not self.token_forms[token_id]:
                return False
        return True
""", """        return all(self.token_forms[_] for _ in self.tokens)
"""),
    ('yargy/relations/graph.py', """            checked_first_forms = []
            checked_second_forms = []
            for first_form in first_forms:
                for second_form in second_forms:
                    if relation(first_form, second_form):
                        if first_form not in checked_first_forms:
                            checked_first_forms.append(first_form)
                        if second_form not in checked_second_forms:
                            checked_second_forms.append(second_form)
            self.token_forms[first_id] = checked_first_forms
            self.token_forms[second_id] = checked_second_forms
""", """            first_checked = {}
            second_checked = {}
            for i, first_form in enumerate(first_forms):
                for j, second_form in enumerate(second_forms):
                    if relation(first_form, second_form):
                        first_checked.setdefault(i, first_form)
                        second_checked.setdefault(j, second_form)
            self.token_forms[first_id] = list(first_checked.values())
            self.token_forms[second_id] = list(second_checked.values())
"""),
    ('yargy/relations/graph.py', """            for form in token.forms:
                self.token_forms[token_id].append(form)
""", """            self.token_forms[token_id] = list(token.forms)
"""),
]

RULES = [
    ('yargy/rule/constructors.py', """        terms.append(item)
    if main is None:
        main = 0
    return terms, main
""", """        terms.append(item)
    return terms, main or 0
"""),
    ('yargy/rule/constructors.py', """        if min is not None and max is not None:
            return MinMaxBoundedRule(self, min, max, reverse)
        elif min is not None:
            return MinBoundedRule(self, min, reverse)
        elif max is not None:
            return MaxBoundedRule(self, max, reverse)
        else:
            return RepeatableRule(self, reverse)
""", """        if min is None and max is None:
            return RepeatableRule(self, reverse)
        if max is None:
            return MinBoundedRule(self, min, reverse)
        if min is None:
            return MaxBoundedRule(self, max, reverse)
        return MinMaxBoundedRule(self, min, max, reverse)
"""),
    ('yargy/rule/constructors.py', """    queue = [rule]
    visited = {id(rule)}
    while queue:
        item = queue.pop(0)
        yield item
        for child in item.children:
            if id(child) not in visited:
                visited.add(id(child))
                queue.append(child)
""", """    from collections import deque

    queue = deque([rule])
    visited = {id(rule)}
    while queue:
        item = queue.popleft()
        yield item
        for child in item.children:
            if id(child) in visited:
                continue
            visited.add(id(child))
            queue.append(child)
"""),
    ('yargy/rule/transformators.py', """    if count == 1:
        return item
    else:
        a = rule(
            item,
            max_bound(item, count - 1, reverse)
        )
        b = item
        if reverse:
            a, b = b, a
        return or_(a, b)
""", """    result = item
    for _ in range(count - 1):
        choices = [rule(item, result), item]
        if reverse:
            choices.reverse()
        result = or_(*choices)
    return result
"""),
    ('yargy/rule/transformators.py', """    temp = forward()
    a = rule(item, temp)
    b = item
    if reverse:
        a, b = b, a
    return temp.define(
        or_(
            a,
            b
        )
    )
""", """    temp = forward()
    choices = [rule(item, temp), item]
    if reverse:
        choices = choices[::-1]
    return temp.define(or_(*choices))
"""),
    ('yargy/rule/transformators.py', """    a = empty()
    b = item
    if reverse:
        a, b = b, a
    return or_(a, b)
""", """    if reverse:
        return or_(item, empty())
    return or_(empty(), item)
"""),
    ('yargy/rule/transformators.py', """        if len(terms) == 1:
            term = terms[0]
            if type(term) is Rule:
                productions = term.productions
                if len(productions) == 1:
                    production = productions[0]
                    return self.visit(production)
        return super(FlattenTransformator, self).visit_Production(item)
""", """        if len(terms) == 1 and type(terms[0]) is Rule:
            productions = terms[0].productions
            if len(productions) == 1:
                return self.visit(productions[0])
        return super(FlattenTransformator, self).visit_Production(item)
"""),
    ('yargy/rule/transformators.py', """        item_id = id(item)
        if item_id in self.visited:
            _, result = self.visited[item_id]
            return result
        else:
            result = self.resolve_method(item)(item)
            # keep item alive, so that its id is not reused
            self.visited[item_id] = item, result
            return result
""", """        key = id(item)
        if key not in self.visited:
            # keep item alive, so that its id is not reused
            self.visited[key] = item, super(RuleTransformator, self).visit(item)
        return self.visited[key][1]
"""),
    ('yargy/rule/bnf.py', """    count = 0
    for rule in rules:
        if not rule.name:
            rule.name = 'R%d' % count
            count += 1
        yield rule
""", """    from itertools import count

    numbers = count()
    for rule in rules:
        if not rule.name:
            rule.name = 'R{0}'.format(next(numbers))
        yield rule
"""),
    ('yargy/rule/bnf.py', """        name = self.name
        if self.interpretator:
            name = self.interpretator.label
        if self.relation:
            name = '{name}^{relation}'.format(
                name=name,
                relation=self.relation.label
            )
        return name
""", """        name = self.interpretator.label if self.interpretator else self.name
        if not self.relation:
            return name
        return '%s^%s' % (name, self.relation.label)
"""),
    ('yargy/rule/bnf.py', """        self.parents[id(root)] = 1
        for item in root.walk():
            for child in item.children:
                child_id = id(child)
                count = self.parents.get(child_id, 0)
                self.parents[child_id] = count + 1
""", """        from collections import Counter

        self.parents = Counter([id(root)])
        for item in root.walk():
            self.parents.update(id(_) for _ in item.children)
"""),
    ('yargy/visitor.py', """        for cls in item.__class__.__mro__:
            name = 'visit_' + cls.__name__
            method = getattr(self, name, None)
            if method:
                return method
        raise ValueError('no method for {type!r}'.format(
            type=type(item)
        ))
""", """        names = ['visit_%s' % _.__name__ for _ in type(item).__mro__]
        for name in names:
            if hasattr(self, name):
                return getattr(self, name)
        raise ValueError('no method for %r' % type(item))
"""),
    ('yargy/record.py', """        return (
            type(self) == type(other)
            and all(
                (getattr(self, _) == getattr(other, _))
                for _ in self.__attributes__
            )
        )
""", """        if type(self) != type(other):
            return False
        for key in self.__attributes__:
            if getattr(self, key) != getattr(other, key):
                return False
        return True
"""),
    ('yargy/record.py', """        name = self.__class__.__name__
        args = ', '.join(
            '{key}={value!r}'.format(
                key=_,
                value=getattr(self, _)
            )
            for _ in self.__attributes__
        )
        return '{name}({args})'.format(
            name=name,
            args=args
        )
""", """        args = []
        for key in self.__attributes__:
            args.append(key + '=' + repr(getattr(self, key)))
        return type(self).__name__ + '(' + ', '.join(args) + ')'
"""),
]

FACTS = [
    ('yargy/tree/transformators.py', """        children = []
        main_index = 0
        for index, child in enumerate(item.children):
            child = self.visit(child)
            if child:
                if index == item.main_index:
                    main_index = len(children)
                children.append(child)
        if children:
            return Node(
                item.rule,
                item.production,
                item.rank,
                children,
                main_index
            )
""", """        children = [self.visit(_) for _ in item.children]
        indexes = [
            index for index, child in enumerate(children)
            if child
        ]
        if not indexes:
            return None
        main_index = 0
        if item.main_index in indexes:
            main_index = indexes.index(item.main_index)
        return Node(
            item.rule,
            item.production,
            item.rank,
            [children[_] for _ in indexes],
            main_index
        )
"""),
    ('yargy/tree/transformators.py', """        for child in item.children:
            if isinstance(child, Leaf) or child.interpretator:
                yield child
            else:
                for item in self.flatten(child):
                    yield item
""", """        items = []
        for child in item.children:
            if isinstance(child, Leaf) or child.interpretator:
                items.append(child)
            else:
                items.extend(self.flatten(child))
        return items
"""),
    ('yargy/tree/transformators.py', """        child = item
        while not isinstance(child.production, PipelineProduction):
            if len(child.children) != 1:
                return item.production
            child = child.children[0]
            if isinstance(child, Leaf) or child.interpretator:
                return item.production
        return child.production
""", """        child = item
        while not isinstance(child.production, PipelineProduction):
            children = child.children
            if len(children) != 1:
                return item.production
            child, = children
            if child.interpretator or isinstance(child, Leaf):
                return item.production
        return child.production
"""),
    ('yargy/tree/transformators.py', """        input = InterpretatorInput(self.visit(_) for _ in item.children)
        if isinstance(item.production, PipelineProduction):
            input.key = item.production.value
        return item.interpretator(input)
""", """        key = None
        if isinstance(item.production, PipelineProduction):
            key = item.production.value
        items = [self.visit(_) for _ in item.children]
        return item.interpretator(InterpretatorInput(items, key))
"""),
    ('yargy/interpretation/fact.py', """        for key in self.__attributes__:
            if key in kwargs:
                value = kwargs[key]
            else:
                attribute = getattr(self, key)
                if isinstance(attribute, RepeatableAttribute):
                    value = []
                else:
                    value = attribute.default
            setattr(self, key, value)
""", """        for key in self.__attributes__:
            if key not in kwargs:
                attribute = getattr(type(self), key)
                repeatable = isinstance(attribute, RepeatableAttribute)
                setattr(self, key, [] if repeatable else attribute.default)
            else:
                setattr(self, key, kwargs[key])
"""),
    ('yargy/interpretation/fact.py', """        if key in self.repeatable:
            self.attributes[key].append(value)
        else:
            self.attributes[key] = value
        self.modified.add(key)

    def merge(self, fact):
        for key in fact.modified:
            value = fact.attributes[key]
            if key in self.repeatable:
                self.attributes[key].extend(value)
            else:
                self.attributes[key] = value
            self.modified.add(key)
""", """        if key in self.repeatable:
            value = self.attributes[key] + [value]
        self.replace(key, value)

    def replace(self, key, value):
        self.attributes[key] = value
        self.modified.add(key)

    def merge(self, fact):
        for key in self.scheme.__attributes__:
            if key not in fact.modified:
                continue
            value = fact.attributes[key]
            if key in self.repeatable:
                value = self.attributes[key] + value
            self.replace(key, value)
"""),
    ('yargy/interpretation/fact.py', """        attributes = {}
        for key, value in self.attributes.items():
            if key in self.repeatable:
                value = [_.normalized for _ in value]
            elif key in self.modified:
                value = value.normalized
            attributes[key] = value
        fact = self.scheme(**attributes)
""", """        fact = self.scheme(**{
            key: self.normalize(key, value)
            for key, value in self.attributes.items()
        })
"""),
    ('yargy/interpretation/fact.py', """    @property
    def spans(self):
        for key, value in self.attributes.items():
            if key in self.repeatable:
                for item in value:
                    for span in item.spans:
                        yield span
            elif key in self.modified:
                for span in value.spans:
                    yield span
""", """    def normalize(self, key, value):
        if key in self.repeatable:
            return [_.normalized for _ in value]
        if key in self.modified:
            return value.normalized
        return value

    @property
    def spans(self):
        spans = []
        for key in self.modified:
            value = self.attributes[key]
            items = value if key in self.repeatable else [value]
            for item in items:
                spans.extend(item.spans)
        return spans
"""),
    ('yargy/interpretation/fact.py', """        return sorted(
            self._raw.spans,
            key=lambda _: _.start
        )
""", """        spans = list(self._raw.spans)
        spans.sort(key=lambda span: (span.start, span.stop))
        return spans
"""),
    ('yargy/interpretation/interpretator.py', """        spans = []
        for item in self.items:
            if is_token(item):
                spans.append(item.span)
            else:
                spans.extend(item.spans)
        if spans:
            yield Span(
                min(_.start for _ in spans),
                max(_.stop for _ in spans)
            )
""", """        starts, stops = [], []
        for item in self.items:
            for span in ([item.span] if is_token(item) else item.spans):
                starts.append(span.start)
                stops.append(span.stop)
        if not starts:
            return []
        return [Span(min(starts), max(stops))]
"""),
    ('yargy/interpretation/interpretator.py', """        items = input.items
        if all(is_token(_) for _ in items):
            value = Chain(items, input.key)
        elif len(items) == 1:
            item = items[0]
            if isinstance(item, AttributeResult):
                value = item.value
            elif isinstance(item, (NormalizerResult, FactResult)):
                value = item
            else:
                raise TypeError(type(item))
        else:
            raise TypeError('{attribute!r} -> {types!r}'.format(
                attribute=self,
                types=[type(_) for _ in items]
            ))
        return AttributeResult(value, self.attribute)
""", """        return AttributeResult(self.get_value(input), self.attribute)

    def get_value(self, input):
        items = input.items
        if all(map(is_token, items)):
            return Chain(items, input.key)
        if len(items) != 1:
            raise TypeError('{attribute!r} -> {types!r}'.format(
                attribute=self,
                types=list(map(type, items))
            ))
        item, = items
        if isinstance(item, AttributeResult):
            return item.value
        if not isinstance(item, (NormalizerResult, FactResult)):
            raise TypeError(type(item))
        return item
"""),
    ('yargy/interpretation/normalizer.py', """        assert_type(item, Chain)
        if item.key:
            return item.key
        else:
            return join_normalized_tokens(item.tokens)
""", """        assert_type(item, Chain)
        return item.key or join_normalized_tokens(item.tokens)
"""),
    ('yargy/interpretation/normalizer.py', """        value = item.normalized
        return self.second(self.first(value))
""", """        result = item.normalized
        for function in (self.first, self.second):
            result = function(result)
        return result
"""),
]
MISC = [
    ('yargy/api.py', """def and_(*items):
    if all(is_predicate(_) for _ in items):
        return AndPredicate(items)
    elif all(is_relation(_) for _ in items):
        return AndRelation(items)
    else:
        types = [type(_) for _ in items]
        raise TypeError('mixed types: %r' % types)


def or_(*items):
    if all(is_predicate(_) for _ in items):
        return OrPredicate(items)
    elif all(is_relation(_) for _ in items):
        return OrRelation(items)
    elif all(is_rule(_) for _ in items):
        return OrRule(items)
    else:
        types = [type(_) for _ in items]
        raise TypeError('mixed types: %r' % types)
""", """def compose(items, choices):
    for check, constructor in choices:
        if all(map(check, items)):
            return constructor(items)
    raise TypeError('mixed types: %r' % list(map(type, items)))


def and_(*items):
    return compose(items, [
        (is_predicate, AndPredicate),
        (is_relation, AndRelation)
    ])


def or_(*items):
    return compose(items, [
        (is_predicate, OrPredicate),
        (is_relation, OrRelation),
        (is_rule, OrRule)
    ])
"""),
    ('yargy/check.py', """    if not isinstance(item, types):
        if not isinstance(types, tuple):
            types = [types]
        raise TypeError('expected {types}, got {type}'.format(
            types=' or '.join(_.__name__ for _ in types),
            type=type(item).__name__
        ))
""", """    if isinstance(item, types):
        return
    types = types if isinstance(types, tuple) else (types,)
    names = [_.__name__ for _ in types]
    raise TypeError(f'expected {" or ".join(names)}, got {type(item).__name__}')
"""),
    ('yargy/check.py', """    if a < b:
""", """    if not a >= b:
"""),
    ('yargy/check.py', """    if item != value:
""", """    if not (item == value):
"""),
    ('yargy/dot.py', """        value = str(value)
        replace = {
            '\\\\': r'\\\\',
            '"': r'\\"',
            '\\n': r'\\n',
            '\\r': r'\\r'
        }
        for a, b in replace.items():
            value = value.replace(a, b)
        return '"' + value + '"'
""", """        replace = {
            '\\\\': r'\\\\',
            '"': r'\\"',
            '\\n': r'\\n',
            '\\r': r'\\r'
        }
        return '"%s"' % ''.join(replace.get(_, _) for _ in str(value))
"""),
    ('yargy/dot.py', """        item_id = id(item)
        if item_id not in self.ids:
            self.ids[item_id] = len(self.ids)
        return self.ids[item_id]
""", """        return self.ids.setdefault(id(item), len(self.ids))
"""),
    ('yargy/dot.py', """            pattern = (
                '{index} [{style}];'
                if node.style
                else '{index}'
            )
            yield pattern.format(
                index=self.id(node.item),
                style=str(node.style)
            )
""", """            index = self.id(node.item)
            if node.style:
                yield f'{index} [{node.style}];'
            else:
                yield f'{index}'
"""),
    ('yargy/dot.py', """            pattern = (
                '{source} -> {target} [{style}];'
                if edge.style
                else '{source} -> {target};'
            )
            yield pattern.format(
                source=self.id(edge.source),
                target=self.id(edge.target),
                style=str(edge.style)
            )
""", """            parts = ['%d -> %d' % (self.id(edge.source), self.id(edge.target))]
            if edge.style:
                parts.append('[%s]' % edge.style)
            yield ' '.join(parts) + ';'
"""),
    ('yargy/visitor.py', """        for cls in item.__class__.__mro__:
            name = 'visit_' + cls.__name__
            method = getattr(self, name, None)
            if method:
                return method
        raise ValueError('no method for {type!r}'.format(
            type=type(item)
        ))
""", """        names = ('visit_' + _.__name__ for _ in type(item).__mro__)
        found = next((_ for _ in names if hasattr(self, _)), None)
        if found is None:
            raise ValueError('no method for {type!r}'.format(
                type=type(item)
            ))
        return getattr(self, found)
"""),
    ('yargy/interpretation/attribute.py', """        return '{fact}.{name}'.format(
            fact=self.fact.__name__,
            name=self.name
        )
""", """        return f'{self.fact.__name__}.{self.name}'
"""),
    ('yargy/interpretation/attribute.py', """        return MorphFunctionNormalizer(
            InflectedNormalizer(self.grams),
            self.function
        )
""", """        inflected = InflectedAttribute(self.attribute, self.grams)
        return MorphFunctionNormalizer(inflected.normalizer, self.function)
"""),
    ('yargy/predicates/constructors.py', """        return self.operator(_(token) for _ in self.predicates)

    def activate(self, context):
        return self.__class__(
            _.activate(context)
            for _ in self.predicates
        )
""", """        results = (predicate(token) for predicate in self.predicates)
        return self.operator(results)

    def activate(self, context):
        predicates = []
        for predicate in self.predicates:
            predicates.append(predicate.activate(context))
        return type(self)(predicates)
"""),
    ('yargy/predicates/constructors.py', """class AndPredicate(PredicatesComposition):
    operator = all
    name = 'and_'


class OrPredicate(PredicatesComposition):
    operator = any
    name = 'or_'
""", """class AndPredicate(PredicatesComposition):
    name = 'and_'

    def operator(self, results):
        for result in results:
            if not result:
                return False
        return True


class OrPredicate(PredicatesComposition):
    name = 'or_'

    def operator(self, results):
        for result in results:
            if result:
                return True
        return False
"""),
    ('yargy/rule/transformators.py', """        return Rule([Production([self.visit(_)]) for _ in item.rules])


class ReplaceEmpty""", """        rules = map(self.visit, item.rules)
        return Rule(Production([_]) for _ in rules)


class ReplaceEmpty"""),
    ('yargy/rule/transformators.py', """        items = repeat(child, item.min - 1)
        items.append(repeatable(child, item.reverse))

        from yargy.api import rule
        return rule(*items)
""", """        from yargy.api import rule
        return rule(*[child] * (item.min - 1), repeatable(child, item.reverse))
"""),
    ('yargy/rule/transformators.py', """        item_id = id(item)
        if item_id in self.visited:
            _, result = self.visited[item_id]
            return result
        else:
            result = self.resolve_method(item)(item)
            # keep item alive, so that its id is not reused
            self.visited[item_id] = item, result
            return result
""", """        try:
            return self.visited[id(item)][1]
        except KeyError:
            result = self.resolve_method(item)(item)
        # keep item alive, so that its id is not reused
        self.visited[id(item)] = (item, result)
        return result
"""),
    ('yargy/rule/transformators.py', """def is_min_bounded(item):
    return isinstance(item, MinBoundedRule) and item.min > 1
""", """def is_min_bounded(item):
    if not isinstance(item, MinBoundedRule):
        return False
    return item.min != 1
"""),
    ('yargy/rule/constructors.py', """        labels = []
        for index, term in enumerate(self.terms):
            label = term.label
            if self.main > 0 and self.main == index:
                label = '^' + label
            labels.append(label)
        return ' '.join(labels)
""", """        labels = [_.label for _ in self.terms]
        if self.main > 0:
            labels[self.main] = '^%s' % labels[self.main]
        return ' '.join(labels)
"""),
    ('yargy/pipelines.py', """        if token.value in self.index:
            for production in self.index[token.value]:
                yield production

    def __str__""", """        return iter(self.index.get(token.value, []))

    def __str__"""),
    ('yargy/pipelines.py', """        if is_morph_token(token):
            values = {_.normalized for _ in token.forms}
        else:
            values = {token.normalized}
        # in the order of lines, not of the sets
        productions = {}
        for value in values:
            if value in self.index:
                productions.update(self.index[value])
        for order in sorted(productions):
            yield productions[order]
""", """        values = (
            {_.normalized for _ in token.forms}
            if is_morph_token(token)
            else {token.normalized}
        )
        # in the order of lines, not of the sets
        found = set()
        for value in values & self.index.keys():
            found.update(order for order, _ in self.index[value])
        return (self.productions[_] for _ in sorted(found))
"""),
    ('yargy/predicates/bank.py', """        value = {_.lower() for _ in value}
""", """        value = set(map(str.lower, value))
"""),
]

IDIOMS = [
    ('yargy/record.py', """        return (
            type(self) == type(other)
            and all(
                (getattr(self, _) == getattr(other, _))
                for _ in self.__attributes__
            )
        )
""", """        if type(self) is not type(other):
            return False
        for attribute in self.__attributes__:
            if not getattr(self, attribute) == getattr(other, attribute):
                return False
        return True
"""),
    ('yargy/token.py', """    previous = None
    for token in tokens:
        if previous:
            _, stop = previous.span
            start, _ = token.span
            if start - stop > 0:
                yield ' '
        previous = token
        yield token.value
""", """    tokens = list(tokens)
    for previous, token in zip([None] + tokens, tokens):
        gap = previous is not None and token.span.start > previous.span.stop
        yield ' ' + token.value if gap else token.value
"""),
    ('yargy/token.py', """    head, tail = tokens[0], tokens[-1]
    return Span(head.span.start, tail.span.stop)
""", """    return Span(
        start=tokens[0].span.start,
        stop=tokens[len(tokens) - 1].span.stop
    )
"""),
    ('yargy/token.py', """    return join_tokens(
        normalize_token(_)
        for _ in tokens
    )
""", """    return join_tokens(map(normalize_token, tokens))
"""),
    ('yargy/token.py', """    return join_tokens(
        inflect_token(_, grams)
        for _ in tokens
    )
""", """    from functools import partial
    return join_tokens(map(partial(inflect_token, grams=grams), tokens))
"""),
    ('yargy/span.py', """        return tuple(self) < tuple(other)
""", """        if self.start != other.start:
            return self.start < other.start
        return self.stop < other.stop
"""),
    ('yargy/span.py', """    nexts = list(get_nexts(spans))
    covers = [0] * len(spans)
    pointers = [None] * len(spans)
    size = len(spans)
    for index in reversed(range(size)):
        span = spans[index]
        if index == size - 1:
            covers[index] = span_size(span)
            pointers[index] = {index}
        else:
            previous = covers[index + 1]
            cover = span_size(span)
            indexes = {index}
            next = nexts[index]
            if next:
                cover += covers[next]
                indexes |= pointers[next]
            if cover < previous:
                cover = previous
                indexes = pointers[index + 1]
            covers[index] = cover
            pointers[index] = indexes

    indexes = pointers[0]
    for index in sorted(indexes):
        yield spans[index]
""", """    nexts = list(get_nexts(spans))
    size = len(spans)
    # best cover of spans[index:] and the spans chosen for it
    best = {size: (0, ())}
    for index in range(size - 1, -1, -1):
        next = size if nexts[index] is None else nexts[index]
        cover, chosen = best[next]
        cover = cover + span_size(spans[index])
        if cover < best[index + 1][0]:
            best[index] = best[index + 1]
        else:
            best[index] = cover, (index,) + chosen
    for index in best[0][1]:
        yield spans[index]
"""),
    ('yargy/morph.py', """        self.single = 'sing' in grams
        self.plural = 'plur' in grams
        self.only_single = 'Sgtm' in grams
        self.only_plural = 'Pltm' in grams
""", """        for attribute, gram in zip(
                self.__attributes__, ['sing', 'plur', 'Sgtm', 'Pltm']):
            setattr(self, attribute, gram in grams)
"""),
    ('yargy/morph.py', """        self.bi = 'Ms-f' in grams or 'ms-f' in grams
""", """        self.bi = any(_ in grams for _ in ('Ms-f', 'ms-f'))
"""),
    ('yargy/morph.py', """        if not record:
            return self.normalized
        return record.word
""", """        return record.word if record else self.normalized
"""),
    ('yargy/morph.py', """        return {_.normalized for _ in self(word)}
""", """        forms = set()
        for form in self(word):
            forms.add(form.normalized)
        return forms
"""),
    ('yargy/relations/graph.py', """            for first_form in first_forms:
                for second_form in second_forms:
                    if relation(first_form, second_form):
                        if first_form not in checked_first_forms:
                            checked_first_forms.append(first_form)
                        if second_form not in checked_second_forms:
                            checked_second_forms.append(second_form)
""", """            pairs = [
                pair for pair in product(first_forms, second_forms)
                if relation(*pair)
            ]
            for forms, index in (
                    (checked_first_forms, 0), (checked_second_forms, 1)):
                for pair in pairs:
                    if all(pair[index] != _ for _ in forms):
                        forms.append(pair[index])
"""),
    ('yargy/relations/graph.py', "from itertools import combinations\n", "from itertools import combinations, product\n"),
    ('yargy/relations/graph.py', """        size = None
        while size != self.size:
            size = self.size
            self.narrow()

        for token_id in self.tokens:
            if not self.token_forms[token_id]:
                return False
        return True
""", """        while True:
            before = self.size
            self.narrow()
            if self.size == before:
                break
        return all(self.token_forms[_] for _ in self.tokens)
"""),
    ('yargy/relations/bank.py', """        form_mask, form_fixed = form.grams.case
        other_mask, other_fixed = other.grams.case
        return (
            form_mask == other_mask
            or form_fixed
            or other_fixed
        )
""", """        cases = [_.grams.case for _ in (form, other)]
        if any(_.fixed for _ in cases):
            return True
        first, second = cases
        return all(a == b for a, b in zip(first.mask, second.mask))
"""),
    ('yargy/relations/bank.py', """        return (
            (form_single and other_single)
            or (form_plural and other_plural)
            or (form_only_single and other_single)
            or (form_only_plural and other_plural)
            or (other_only_single and form_single)
            or (other_only_plural and form_plural)
        )
""", """        return any(a and b for a, b in [
            (form_single, other_single),
            (form_plural, other_plural),
            (form_only_single, other_single),
            (form_only_plural, other_plural),
            (other_only_single, form_single),
            (other_only_plural, form_plural)
        ])
"""),
    ('yargy/relations/bank.py', """        return (
            gender_relation.__call__(self, form, other)
            and number_relation.__call__(self, form, other)
            and case_relation.__call__(self, form, other)
        )
""", """        return all(
            _.__call__(self, form, other)
            for _ in (gender_relation, number_relation, case_relation)
        )
"""),
    ('yargy/predicates/bank.py', """        return value >= self.value
""", """        return not value < self.value
"""),
    ('yargy/predicates/bank.py', """        if token.type == INT:
            value = int(token.value)
            return method(self, value)
        else:
            return False
""", """        return token.type == INT and method(self, int(token.value))
"""),
    ('yargy/predicates/bank.py', """        if is_morph_token(token):
            return any(
                _.normalized in self.value
                for _ in token.forms
            )
        else:
            value = token.normalized
            return value in self.value
""", """        values = (
            [_.normalized for _ in token.forms]
            if is_morph_token(token)
            else [token.normalized]
        )
        for value in values:
            if value in self.value:
                return True
        return False
"""),
    ('yargy/predicates/bank.py', """        normalized = set()
        for item in self.value:
            normalized.update(context.tokenizer.morph.normalized(item))
        return DictionaryPredicate(normalized)
""", """        morph = context.tokenizer.morph
        normalized = {
            form
            for item in self.value
            for form in morph.normalized(item)
        }
        return DictionaryPredicate(normalized)
"""),
    ('yargy/interpretation/interpretator.py', """        spans = []
        for item in self.items:
            if is_token(item):
                spans.append(item.span)
            else:
                spans.extend(item.spans)
        if spans:
            yield Span(
                min(_.start for _ in spans),
                max(_.stop for _ in spans)
            )
""", """        start = stop = None
        for item in self.items:
            for span in ([item.span] if is_token(item) else item.spans):
                if start is None or span.start < start:
                    start = span.start
                if stop is None or span.stop > stop:
                    stop = span.stop
        if start is not None:
            yield Span(start, stop)
"""),
    ('yargy/interpretation/interpretator.py', """        fact = InterpretatorFact(self.fact)
        for item in input.items:
            if isinstance(item, AttributeResult) and issubclass(self.fact, item.attribute.fact):
                fact.set(
                    item.attribute.name,
                    item.value
                )
            elif isinstance(item, FactResult) and issubclass(item.fact.scheme, self.fact):
                fact.merge(item.fact)
        return FactResult(fact)
""", """        fact = InterpretatorFact(self.fact)
        for item in input.items:
            self.add(fact, item)
        return FactResult(fact)

    def add(self, fact, item):
        if isinstance(item, AttributeResult):
            attribute = item.attribute
            if issubclass(self.fact, attribute.fact):
                fact.set(attribute.name, item.value)
        elif isinstance(item, FactResult):
            if issubclass(item.fact.scheme, self.fact):
                fact.merge(item.fact)
"""),
    ('yargy/interpretation/fact.py', """        for key in kwargs:
            if key not in self.__attributes__:
                raise KeyError(key)
""", """        unknown = [_ for _ in kwargs if _ not in self.__attributes__]
        if unknown:
            raise KeyError(unknown[0])
"""),
    ('yargy/interpretation/fact.py', """            if value is not None:
                data[key] = value
        return data
""", """            data[key] = value
        return OrderedDict(
            (key, value) for key, value in data.items()
            if value is not None
        )
"""),
    ('yargy/interpretation/fact.py', """        for key, value in self.attributes.items():
            if key in self.repeatable:
                for item in value:
                    for span in item.spans:
                        yield span
            elif key in self.modified:
                for span in value.spans:
                    yield span
""", """        for key, value in self.attributes.items():
            items = []
            if key in self.repeatable:
                items = value
            elif key in self.modified:
                items = [value]
            for item in items:
                yield from item.spans
"""),
    ('yargy/interpretation/normalizer.py', """        if item.key:
            return item.key
        else:
            return join_normalized_tokens(item.tokens)
""", """        return item.key or join_normalized_tokens(item.tokens)
"""),
    ('yargy/rule/bnf.py', """    count = 0
    for rule in rules:
        if not rule.name:
            rule.name = 'R%d' % count
            count += 1
        yield rule
""", """    from itertools import count
    numbers = count()
    for rule in rules:
        rule.name = rule.name or 'R{}'.format(next(numbers))
        yield rule
"""),
    ('yargy/rule/bnf.py', """        name = self.name
        if self.interpretator:
            name = self.interpretator.label
        if self.relation:
            name = '{name}^{relation}'.format(
                name=name,
                relation=self.relation.label
            )
        return name
""", """        name = self.interpretator.label if self.interpretator else self.name
        return '%s^%s' % (name, self.relation.label) if self.relation else name
"""),
    ('yargy/rule/bnf.py', """        self.parents[id(root)] = 1
        for item in root.walk():
            for child in item.children:
                child_id = id(child)
                count = self.parents.get(child_id, 0)
                self.parents[child_id] = count + 1
        return""", """        from collections import Counter
        children = (child for item in root.walk() for child in item.children)
        self.parents = Counter(map(id, children))
        self.parents[id(root)] += 1
        return"""),
    ('yargy/tree/transformators.py', """        children = []
        main_index = 0
        for index, child in enumerate(item.children):
            child = self.visit(child)
            if child:
                if index == item.main_index:
                    main_index = len(children)
                children.append(child)
        if children:
            return Node(
                item.rule,
                item.production,
                item.rank,
                children,
                main_index
            )
""", """        visited = [self.visit(_) for _ in item.children]
        kept = [index for index, child in enumerate(visited) if child]
        if not kept:
            return None
        main_index = 0
        if item.main_index in kept:
            main_index = kept.index(item.main_index)
        return Node(
            item.rule,
            item.production,
            item.rank,
            [visited[_] for _ in kept],
            main_index
        )
"""),
    ('yargy/tree/constructors.py', """        start, stop = self.range
        other_start, other_stop = other.range

        if start == other_start:
            return stop > other_stop

        return start < other_start
""", """        return (
            (self.range[0], -self.range[1]) < (other.range[0], -other.range[1])
        )
"""),
    ('yargy/parser.py', """    for state in states:
        yield Tree(
            state.node,
            state.range
        )
""", """    return [Tree(_.node, _.range) for _ in states]
"""),
    ('yargy/tokenizer.py', """            raise ValueError(type)

    def compile""", """            raise ValueError('%s' % type)

    def compile"""),
]

BUNDLES = {'parser': PARSER, 'words': WORDS, 'rules': RULES, 'facts': FACTS, 'misc': MISC, 'idioms': IDIOMS}


def sh(*args, **kw):
    return subprocess.run(args, capture_output=True, text=True, **kw)


def main():
    args = sys.argv[1:]
    checks = ALL
    if '-c' in args:
        i = args.index('-c')
        checks = args[i + 1].split(',')
        del args[i:i + 2]
    for name in args or list(BUNDLES):
        copy = tempfile.mkdtemp(prefix='refactor_')
        repo = os.path.join(copy, 'repo')
        try:
            shutil.copytree('/repo', repo, symlinks=True)
            for path, old, new in BUNDLES[name]:
                p = os.path.join(repo, path)
                s = open(p, encoding='utf8').read()
                if s.count(old) != 1:
                    print(name, 'BAD EDIT: %d occurrences in %s' % (s.count(old), path), repr(old[:80]))
                    continue
                with open(p, 'w', encoding='utf8') as f:
                    f.write(s.replace(old, new))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
            t = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                   '--doctest-modules', 'yargy', 'tests', cwd=repo, env=env)
            print(name, t.stdout.strip().splitlines()[-1])
            for x in t.stdout.splitlines():
                if x.startswith(('FAILED', 'ERROR')):
                    print('   ', x)
            for check in checks:
                started = time.time()
                r = sh('python3-vt', 'symex/run.py', check, '--no-evidence', cwd=HERE,
                       env=dict(os.environ, YARGY_REPO=repo))
                print('%s %s rc=%d %.0f s' % (name, check, r.returncode, time.time() - started), flush=True)
                if r.returncode:
                    print('   ' + '\n   '.join((r.stdout + r.stderr).splitlines()[-8:])[:1500], flush=True)
        finally:
            shutil.rmtree(copy)


if __name__ == '__main__':
    main()
