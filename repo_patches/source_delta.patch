From 4cf764450e180d2d4a33e69a01cb79fe586ee999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 01/21] fix: RuleTransformator memo confuses rules when ids are
 reused

Temporary rules made while squashing nested quantifiers are freed and their id
is taken by another temporary, which then gets the first one's result:
rule(a.optional().repeatable(), b.optional().repeatable()) became a* a*.
---
 yargy/rule/transformators.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 5edf771..53b7c0c 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -68,11 +68,13 @@ class RuleTransformator(Visitor):
     def visit(self, item):
         item_id = id(item)
         if item_id in self.visited:
-            return self.visited[item_id]
+            _, result = self.visited[item_id]
+            return result
         else:
-            item = self.resolve_method(item)(item)
-            self.visited[item_id] = item
-            return item
+            result = self.resolve_method(item)(item)
+            # keep item alive, so that its id is not reused
+            self.visited[item_id] = item, result
+            return result
 
     def visit_term(self, item):
         if is_rule(item):
-- 
2.43.0


From 2ce685826115650527d537c4596214114a9c884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 02/21] fix: building a parser changes the rules given to it

Forward rules were redefined and predicates and pipelines activated in place, so
a second parser built from the same rules failed with RecursionError or kept
the first parser's activation. Rules are copied now. A forward defined as a
repeatable item no longer fails with 'forward(forward(...)) not allowed'.
---
 yargy/rule/bnf.py            |  2 +-
 yargy/rule/transformators.py | 31 ++++++++++++++++++++-----------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index d1298b2..af30250 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -115,7 +115,7 @@ class BNFTransformator(RuleTransformator):
     def visit_WrapperRule(self, item):
         item = item.rule
         if is_forward_rule(item):
-            return lift(item)
+            return lift(self.visit(item))
         shared = self.is_shared(item)
         item = self.visit(item)
         if shared:
diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 53b7c0c..f7cf4fc 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -29,6 +29,8 @@ from .constructors import (
     InterpretationRule,
     RelationRule,
     ForwardRule,
+    is_forward_rule,
+    PipelineRule,
 )
 
 
@@ -60,9 +62,17 @@ class RuleTransformator(Visitor):
         self.visited = {}
 
     def __call__(self, root):
-        for item in root.walk(types=ForwardRule):
+        # forwards are copied, transformation must not change given rules
+        items = list(root.walk(types=ForwardRule))
+        copies = [ForwardRule() for _ in items]
+        for item, copy in zip(items, copies):
+            self.visited[id(item)] = item, copy
+        for item, copy in zip(items, copies):
             if item.rule:
-                item.define(self.visit(item.rule))
+                rule = self.visit(item.rule)
+                if is_forward_rule(rule):
+                    rule = Rule([Production([rule])])
+                copy.define(rule)
         return self.visit(root)
 
     def visit(self, item):
@@ -101,17 +111,17 @@ class RuleTransformator(Visitor):
         return OrRule([self.visit(_) for _ in item.rules])
 
     def visit_OptionalRule(self, item):
-        return OptionalRule(self.visit(item.rule, item.reverse))
+        return OptionalRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableRule(self, item):
-        return RepeatableRule(self.visit(item.rule, item.reverse))
+        return RepeatableRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableOptionalRule(self, item):
-        return RepeatableOptionalRule(self.visit(
-            item.rule,
+        return RepeatableOptionalRule(
+            self.visit(item.rule),
             item.reverse_repeatable,
             item.reverse_optional
-        ))
+        )
 
     def visit_MinBoundedRule(self, item):
         return MinBoundedRule(self.visit(item.rule), item.min, item.reverse)
@@ -144,7 +154,7 @@ class RuleTransformator(Visitor):
         return item
 
 
-class ActivateTransformator(InplaceRuleTransformator):
+class ActivateTransformator(RuleTransformator):
     def __init__(self, context):
         super(ActivateTransformator, self).__init__()
         self.context = context
@@ -153,11 +163,10 @@ class ActivateTransformator(InplaceRuleTransformator):
         if is_predicate(item):
             return item.activate(self.context)
         else:
-            return item
+            return super(ActivateTransformator, self).visit_term(item)
 
     def visit_PipelineRule(self, item):
-        item.pipeline = item.pipeline.activate(self.context)
-        return item
+        return PipelineRule(item.pipeline.activate(self.context))
 
 
 class SquashExtendedTransformator(RuleTransformator):
-- 
2.43.0


From 6e26419f79725b28d58fbb5bbd4342c2de21c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 03/21] fix: annotation of a recursive use of the root rule
 leaks to the root

The root is used by the parser itself, so when a recursive reference to it is
annotated it is shared and the annotation must not be put on the rule itself.
---
 yargy/rule/bnf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index af30250..cf9ef38 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -92,6 +92,7 @@ class BNFTransformator(RuleTransformator):
         self.parents = {}
 
     def __call__(self, root):
+        self.parents[id(root)] = 1
         for item in root.walk():
             for child in item.children:
                 child_id = id(child)
-- 
2.43.0


From 4b6b4b58075d9a7c9902ab6f45adde288baff21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 04/21] fix: min bound lost or misapplied when bounded and
 other quantifiers nest

a.repeatable(min=2).repeatable() accepted a single a, and
a.optional().repeatable(min=2) and (min=2, max=3) rejected it.
---
 yargy/rule/transformators.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index f7cf4fc..b172484 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -169,6 +169,10 @@ class ActivateTransformator(RuleTransformator):
         return PipelineRule(item.pipeline.activate(self.context))
 
 
+def is_min_bounded(item):
+    return isinstance(item, MinBoundedRule) and item.min > 1
+
+
 class SquashExtendedTransformator(RuleTransformator):
     def visit_RepeatableRule(self, item):
         child = item.rule
@@ -185,6 +189,8 @@ class SquashExtendedTransformator(RuleTransformator):
                 child.reverse_optional
             ))
 
+        elif is_min_bounded(child):
+            return RepeatableRule(self.visit(child), item.reverse)
         elif isinstance(child, (RepeatableRule, BoundedRule)):
             return self.visit(RepeatableRule(child.rule, item.reverse))
         else:
@@ -211,8 +217,9 @@ class SquashExtendedTransformator(RuleTransformator):
 
     def visit_RepeatableOptionalRule(self, item):
         child = item.rule
-        if isinstance(child, (RepeatableRule, BoundedRule,
-                              OptionalRule, RepeatableOptionalRule)):
+        if (isinstance(child, (RepeatableRule, BoundedRule,
+                               OptionalRule, RepeatableOptionalRule))
+                and not is_min_bounded(child)):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 item.reverse_repeatable,
@@ -242,10 +249,9 @@ class SquashExtendedTransformator(RuleTransformator):
         if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
-            return self.visit(OptionalRule(
-                MinBoundedRule(
-                    child.rule, item.min, item.reverse
-                ),
+            return self.visit(RepeatableOptionalRule(
+                child.rule,
+                item.reverse,
                 child.reverse
             ))
         else:
@@ -271,8 +277,8 @@ class SquashExtendedTransformator(RuleTransformator):
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
             return self.visit(OptionalRule(
-                MinMaxBoundedRule(
-                    child.rule, item.min, item.max, item.reverse
+                MaxBoundedRule(
+                    child.rule, item.max, item.reverse
                 ),
                 child.reverse
             ))
-- 
2.43.0


From 94a73fa862de78979657e7167b059b18d58fed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 05/21] fix: rule that already matched empty is not completed
 for later states

A state waiting for a rule which has been completed with an empty match earlier
in the same column never advanced: with optional X and Y, rule(X, Y, X, 'c')
did not match 'c'.
---
 yargy/parser.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 72866ce..a8d368f 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -76,6 +76,7 @@ class Column(object):
         self.states = []
         self.hashes = set()
         self.states_index = defaultdict(list)
+        self.empty_index = defaultdict(list)
 
     def __iter__(self):
         return iter(self.states)
@@ -93,7 +94,10 @@ class Column(object):
             self.update_index(state)
 
     def update_index(self, state):
-        if not state.completed:
+        if state.completed:
+            if state.start_column is self:
+                self.empty_index[id(state.rule)].append(state)
+        else:
             next_term = state.next_term
             if is_rule(next_term):
                 self.states_index[id(next_term)].append(state)
@@ -268,6 +272,9 @@ class Parser(object):
                     next_term = state.next_term
                     if is_rule(next_term):
                         self.predict(column, next_column, next_term)
+                        # rule may be already completed with empty match
+                        for completed in column.empty_index[id(next_term)]:
+                            self.advance(column, state, completed)
                     elif next_column:
                         self.scan(next_column, next_term, state)
         return chart
@@ -338,11 +345,14 @@ class Parser(object):
 
     def complete(self, column, completed):
         for state in completed.parents:
-            state = State(
-                state.rule, state.production,
-                dot_index=state.dot_index + 1,
-                start_column=state.start_column,
-                stop_column=column,
-                node=state.node.attached(completed.node)
-            )
-            column.append(state)
+            self.advance(column, state, completed)
+
+    def advance(self, column, state, completed):
+        state = State(
+            state.rule, state.production,
+            dot_index=state.dot_index + 1,
+            start_column=state.start_column,
+            stop_column=column,
+            node=state.node.attached(completed.node)
+        )
+        column.append(state)
-- 
2.43.0


From 625fc572466e48c759fb78cb3b2e60a99a557ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 06/21] fix: ValueError when a rule matches the empty sequence

Parser(rule('a').optional()).findall('b') failed on a tree without tokens.
---
 yargy/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yargy/parser.py b/yargy/parser.py
index a8d368f..ce742c0 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -205,6 +205,8 @@ def prepare_trees(states):
 
 def prepare_match(tree):
     tree = tree.normalized
+    if not tree.root:  # empty match
+        return
     relations = tree.relations
     if relations.validate():
         tree = tree.constrain(relations)
-- 
2.43.0


From 588c210cf7ee2f442fe3a0c1d20d8c393e6e6442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 07/21] fix: match() returns a part of the text when the start
 rule is recursive

The start rule is also predicted inside the text then, and its states completed
in the last column were returned: E -> 'a' | '(' E ')' matched 'a' of '( a'.
---
 yargy/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index ce742c0..9e6c720 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -283,11 +283,13 @@ class Parser(object):
 
     def matches(self, text, all=True):
         chart = self.chart(text, all=all)
+        if all:
+            return chart.matches(self.rule)
+        # start rule may be recursive, only states for the whole text
         return (
-            chart
-            if all
-            else chart.last_column
-        ).matches(self.rule)
+            _ for _ in chart.last_column.matches(self.rule)
+            if _.start_column.first
+        )
 
     def extract(self, text, all=True):
         states = self.matches(text, all=all)
-- 
2.43.0


From cc73a46eefc71398bf7f59b1ca02f33e90c81a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 08/21] fix: main word is wrong when optional parts before it
 are omitted

The index of main counts all the terms of the production, children without
tokens are removed from the tree: IndexError or a wrong word in relation.
---
 yargy/tree/constructors.py   |  7 +++++--
 yargy/tree/transformators.py | 21 ++++++++++++---------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/yargy/tree/constructors.py b/yargy/tree/constructors.py
index b1c2f03..4d930ac 100644
--- a/yargy/tree/constructors.py
+++ b/yargy/tree/constructors.py
@@ -81,11 +81,14 @@ def dfs_tree(root):
 class Node(Record):
     __attributes__ = ['rule', 'production', 'rank', 'children']
 
-    def __init__(self, rule, production, rank, children):
+    def __init__(self, rule, production, rank, children, main_index=None):
         self.rule = rule
         self.production = production
         self.rank = rank
         self.children = children
+        if main_index is None:
+            main_index = production.main
+        self.main_index = main_index
 
     def attached(self, node):
         return Node(
@@ -97,7 +100,7 @@ class Node(Record):
 
     @property
     def main(self):
-        return self.children[self.production.main].main
+        return self.children[self.main_index].main
 
     @property
     def interpretator(self):
diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 1fa1660..a17aacc 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -37,7 +37,8 @@ class TreeTransformator(Visitor):
             item.rule,
             item.production,
             item.rank,
-            [self.visit(_) for _ in item.children]
+            [self.visit(_) for _ in item.children],
+            item.main_index
         )
 
     def visit_Leaf(self, item):
@@ -45,20 +46,22 @@ class TreeTransformator(Visitor):
 
 
 class PropogateEmptyTransformator(TreeTransformator):
-    def visit_children(self, item):
-        return list(filter(
-            None,
-            [self.visit(_) for _ in item.children]
-        ))
-
     def visit_Node(self, item):
-        children = self.visit_children(item)
+        children = []
+        main_index = 0
+        for index, child in enumerate(item.children):
+            child = self.visit(child)
+            if child:
+                if index == item.main_index:
+                    main_index = len(children)
+                children.append(child)
         if children:
             return Node(
                 item.rule,
                 item.production,
                 item.rank,
-                children
+                children,
+                main_index
             )
 
 
-- 
2.43.0


From c1e21d2987e9e940aa085c076bed1b2b4a9eef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 09/21] fix: forms narrowed by relations in one match affect
 other matches

Leaves are shared by all the trees of a chart, constraining one of them in place
changed tokens of the others.
---
 yargy/tree/transformators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index a17aacc..57c67c4 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -121,12 +121,16 @@ class RelationsTransformator(InplaceTreeTransformator):
             self.relations.add(item.relation, item.main)
 
 
-class ApplyRelationsTransformator(InplaceTreeTransformator):
+class ApplyRelationsTransformator(TreeTransformator):
     def __init__(self, relations):
         self.relations = relations
 
     def visit_Leaf(self, item):
-        item.token = self.relations.constrain(item.token)
+        # leaf may belong to other trees too
+        return Leaf(
+            item.predicate,
+            self.relations.constrain(item.token)
+        )
 
 
 class DotTreeTransformator(DotTransformator, InplaceTreeTransformator):
-- 
2.43.0


From 23365e8fed0272f39956be6967271a764c697455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 10/21] fix: forms that agree with nothing are kept when 3 or
 more words are related

Edges were checked once, so forms removed for a later edge still supported forms
of the words checked before: words without any common agreement were accepted.
---
 yargy/relations/graph.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index 7be590c..fccce3c 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -47,6 +47,22 @@ class TokenRelationsGraph(RelationsGraph):
                 self.token_forms[token_id].append(form)
 
     def validate(self):
+        # forms removed for one edge may matter for the others
+        size = None
+        while size != self.size:
+            size = self.size
+            self.narrow()
+
+        for token_id in self.tokens:
+            if not self.token_forms[token_id]:
+                return False
+        return True
+
+    @property
+    def size(self):
+        return sum(len(_) for _ in self.token_forms.values())
+
+    def narrow(self):
         for relation, first, second in self.edges:
             first_id = id(first)
             second_id = id(second)
@@ -64,11 +80,6 @@ class TokenRelationsGraph(RelationsGraph):
             self.token_forms[first_id] = checked_first_forms
             self.token_forms[second_id] = checked_second_forms
 
-        for token_id in self.tokens:
-            if not self.token_forms[token_id]:
-                return False
-        return True
-
     def constrain(self, token):
         token_id = id(token)
         if token_id in self.tokens:
-- 
2.43.0


From ef2402d03f223817ac2791496e1cfd5ece3c23e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 11/21] fix: spans of a fact with const attribute raise
 AttributeError

The input of a const normalizer is InterpretatorInput, it had no spans.
---
 yargy/interpretation/interpretator.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/yargy/interpretation/interpretator.py b/yargy/interpretation/interpretator.py
index bf640eb..cc70ad6 100644
--- a/yargy/interpretation/interpretator.py
+++ b/yargy/interpretation/interpretator.py
@@ -3,6 +3,7 @@ from inspect import isclass
 
 from yargy.record import Record
 from yargy.check import assert_subclass
+from yargy.span import Span
 from yargy.token import (
     is_token,
     join_tokens,
@@ -30,6 +31,20 @@ class InterpretatorInput(Record):
         self.items = list(items)
         self.key = key
 
+    @property
+    def spans(self):
+        spans = []
+        for item in self.items:
+            if is_token(item):
+                spans.append(item.span)
+            else:
+                spans.extend(item.spans)
+        if spans:
+            yield Span(
+                min(_.start for _ in spans),
+                max(_.stop for _ in spans)
+            )
+
 
 class InterpretatorResult(Record):
     normalized = None
-- 
2.43.0


From 4270d7bc57fbe17a5c7696725580eaac37db9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 12/21] fix: merging a nested fact drops earlier values of
 repeatable attributes

---
 yargy/interpretation/fact.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yargy/interpretation/fact.py b/yargy/interpretation/fact.py
index b956d6a..361955b 100644
--- a/yargy/interpretation/fact.py
+++ b/yargy/interpretation/fact.py
@@ -94,7 +94,10 @@ class InterpretatorFact(Record):
     def merge(self, fact):
         for key in fact.modified:
             value = fact.attributes[key]
-            self.attributes[key] = value
+            if key in self.repeatable:
+                self.attributes[key].extend(value)
+            else:
+                self.attributes[key] = value
             self.modified.add(key)
 
     @property
-- 
2.43.0


From 476546f6b2e4263bf9547820ac0d7160b41de248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 13/21] fix: inflected() without grammemes fails as a separate
 interpretation

As on attributes, the default is nominative singular.
---
 yargy/interpretation/normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 42367ed..f096365 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -35,7 +35,7 @@ class NormalizedNormalizer(MorphNormalizer):
 class InflectedNormalizer(MorphNormalizer):
     __attributes__ = ['grams']
 
-    def __init__(self, grams=None):
+    def __init__(self, grams={'nomn', 'sing'}):
         self.grams = grams
 
     def custom(self, function):
-- 
2.43.0


From 0eb7a7243b31938285df76cc9ac7a35aa8bc608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 14/21] fix: unknown tag in tag(...) is not reported

As documented (and as for types and grammemes) it is an error.
---
 yargy/predicates/bank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 28ed691..c264ddf 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -416,7 +416,8 @@ class tag(ParameterPredicateScheme):
     """
 
     def activate(self, context):
-        context.tagger.check_tag(self.value)
+        if not context.tagger.check_tag(self.value):
+            raise ValueError(self.value)
         return TagPredicate(self.value)
 
 
-- 
2.43.0


From 29c8f0163c1e7abf49c7f2ecd5b1ea04a692bb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 15/21] fix: spans and tokens are not hashable

---
 yargy/span.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yargy/span.py b/yargy/span.py
index cce713a..2f5b91e 100644
--- a/yargy/span.py
+++ b/yargy/span.py
@@ -14,6 +14,9 @@ class Span(Record):
             return tuple(self) == other
         return Record.__eq__(self, other)
 
+    # defining __eq__ drops inherited __hash__
+    __hash__ = Record.__hash__
+
     def __lt__(self, other):
         return tuple(self) < tuple(other)
 
-- 
2.43.0


From c9631f667d7cafa29cc6ab8c06ed50fb4f81adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:32 +0000
Subject: [PATCH 16/21] fix: backslash in labels makes invalid DOT source

---
 yargy/dot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/dot.py b/yargy/dot.py
index 6fdbf5c..b011edd 100644
--- a/yargy/dot.py
+++ b/yargy/dot.py
@@ -35,6 +35,7 @@ class style(Record):
     def quote(self, value):
         value = str(value)
         replace = {
+            '\\': r'\\',
             '"': r'\"',
             '\n': r'\n',
             '\r': r'\r'
-- 
2.43.0


From c14342dd3f5e0f1a5bcbe241a0b50e14db7fda7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 17/21] fix: line chosen by morph_pipeline depends on hash
 order

When forms of a word match several lines, the first listed wins now.
---
 yargy/pipelines.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index 93ac7ed..13bc394 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -55,24 +55,24 @@ class MorphPipelineBNFRule(PipelineBNFRule):
 
     def build_index(self, productions):
         index = defaultdict(list)
-        for production in productions:
+        for order, production in enumerate(productions):
             term = production.terms[0]
             for value in term.value:
-                index[value].append(production)
+                index[value].append((order, production))
         return dict(index)
 
     def predict(self, token):
         if is_morph_token(token):
-            normalized = {_.normalized for _ in token.forms}
-            for value in normalized:
-                if value in self.index:
-                    for production in self.index[value]:
-                        yield production
+            values = {_.normalized for _ in token.forms}
         else:
-            value = token.normalized
+            values = {token.normalized}
+        # in the order of lines, not of the sets
+        productions = {}
+        for value in values:
             if value in self.index:
-                for production in self.index[value]:
-                    yield production
+                productions.update(self.index[value])
+        for order in sorted(productions):
+            yield productions[order]
 
 
 class Key(Record):
-- 
2.43.0


From ef4f2a3b4aee80e284b593770b20ab186f6d8b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 18/21] fix: normalized() does not give the pipeline line when
 pipeline is reused

A shared or quantified pipeline is wrapped by another rule, the line was looked
for only in the production of the interpreted rule.
---
 yargy/tree/transformators.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 57c67c4..0a2d464 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -79,12 +79,23 @@ class KeepInterpretationNodesTransformator(TreeTransformator):
                 for item in self.flatten(child):
                     yield item
 
+    def resolve_production(self, item):
+        # pipeline may be wrapped, when it is used several times for example
+        child = item
+        while not isinstance(child.production, PipelineProduction):
+            if len(child.children) != 1:
+                return item.production
+            child = child.children[0]
+            if isinstance(child, Leaf) or child.interpretator:
+                return item.production
+        return child.production
+
     def visit_Node(self, item):
         if item.interpretator:
             children = [self.visit(_) for _ in self.flatten(item)]
             return Node(
                 item.rule,
-                item.production,
+                self.resolve_production(item),
                 item.rank,
                 children
             )
-- 
2.43.0


From b4a7a1913cffd1b0140fa18b878142b112dc8d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:29 +0000
Subject: [PATCH 19/21] fix: zero bounds of repeatable are silently ignored

repeatable(min=0) meant one or more and repeatable(max=0) any count, while
other bounds below 1 raise ValueError.
---
 yargy/rule/constructors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yargy/rule/constructors.py b/yargy/rule/constructors.py
index 6489777..d665038 100644
--- a/yargy/rule/constructors.py
+++ b/yargy/rule/constructors.py
@@ -72,11 +72,11 @@ class Rule(Record):
         return OptionalRule(self, reverse)
 
     def repeatable(self, min=None, max=None, reverse=False):
-        if min and max:
+        if min is not None and max is not None:
             return MinMaxBoundedRule(self, min, max, reverse)
-        elif min:
+        elif min is not None:
             return MinBoundedRule(self, min, reverse)
-        elif max:
+        elif max is not None:
             return MaxBoundedRule(self, max, reverse)
         else:
             return RepeatableRule(self, reverse)
-- 
2.43.0


From 06eaed68b0805b104f72f34293394424dfc48d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 20/21] fix: nested quantifiers that turn into optional ones
 loop forever

A.optional().repeatable(min=2).repeatable() and other nestings of bounded and
optional quantifiers were not folded to the end: repeatable over an item that
may be empty has no finite set of derivations.
---
 yargy/rule/transformators.py | 53 +++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index b172484..8932040 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -174,23 +174,32 @@ def is_min_bounded(item):
 
 
 class SquashExtendedTransformator(RuleTransformator):
+    def squash(self, item):
+        # quantifiers of the child may have turned into optional ones
+        if isinstance(item.rule, OptionalRule):
+            return self.visit(item)
+        return item
+
     def visit_RepeatableRule(self, item):
         child = item.rule
-        if isinstance(child, OptionalRule):
+        if isinstance(child, RepeatableOptionalRule):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 item.reverse,
-                child.reverse
+                child.reverse_optional
             ))
-        elif isinstance(child, RepeatableOptionalRule):
+        elif isinstance(child, OptionalRule):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 item.reverse,
-                child.reverse_optional
+                child.reverse
             ))
 
         elif is_min_bounded(child):
-            return RepeatableRule(self.visit(child), item.reverse)
+            return self.squash(RepeatableRule(
+                self.visit(child),
+                item.reverse
+            ))
         elif isinstance(child, (RepeatableRule, BoundedRule)):
             return self.visit(RepeatableRule(child.rule, item.reverse))
         else:
@@ -198,22 +207,22 @@ class SquashExtendedTransformator(RuleTransformator):
 
     def visit_OptionalRule(self, item):
         child = item.rule
-        if isinstance(child, RepeatableRule):
+        if isinstance(child, RepeatableOptionalRule):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
-                child.reverse,
+                child.reverse_repeatable,
                 item.reverse
             ))
-        elif isinstance(child, RepeatableOptionalRule):
+        elif isinstance(child, RepeatableRule):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
-                child.reverse_repeatable,
+                child.reverse,
                 item.reverse
             ))
         elif isinstance(child, OptionalRule):
             return self.visit(OptionalRule(child.rule, item.reverse))
         else:
-            return OptionalRule(self.visit(child), item.reverse)
+            return self.squash(OptionalRule(self.visit(child), item.reverse))
 
     def visit_RepeatableOptionalRule(self, item):
         child = item.rule
@@ -226,22 +235,22 @@ class SquashExtendedTransformator(RuleTransformator):
                 item.reverse_optional
             ))
         else:
-            return RepeatableOptionalRule(
+            return self.squash(RepeatableOptionalRule(
                 self.visit(child),
                 item.reverse_repeatable,
                 item.reverse_optional
-            )
+            ))
 
     def visit_BoundedRule(self, item):
         child = item.rule
-        if isinstance(child, RepeatableRule):
-            return self.visit(RepeatableRule(child.rule, child.reverse))
-        elif isinstance(child, RepeatableOptionalRule):
+        if isinstance(child, RepeatableOptionalRule):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 child.reverse_repeatable,
                 child.reverse_optional
             ))
+        elif isinstance(child, RepeatableRule):
+            return self.visit(RepeatableRule(child.rule, child.reverse))
         raise TypeError
 
     def visit_MinBoundedRule(self, item):
@@ -255,7 +264,10 @@ class SquashExtendedTransformator(RuleTransformator):
                 child.reverse
             ))
         else:
-            return MinBoundedRule(self.visit(child), item.min, item.reverse)
+            return self.squash(MinBoundedRule(
+                self.visit(child),
+                item.min, item.reverse
+            ))
 
     def visit_MaxBoundedRule(self, item):
         child = item.rule
@@ -269,7 +281,10 @@ class SquashExtendedTransformator(RuleTransformator):
                 child.reverse
             ))
         else:
-            return MaxBoundedRule(self.visit(child), item.max, item.reverse)
+            return self.squash(MaxBoundedRule(
+                self.visit(child),
+                item.max, item.reverse
+            ))
 
     def visit_MinMaxBoundedRule(self, item):
         child = item.rule
@@ -283,10 +298,10 @@ class SquashExtendedTransformator(RuleTransformator):
                 child.reverse
             ))
         else:
-            return MinMaxBoundedRule(
+            return self.squash(MinMaxBoundedRule(
                 self.visit(child),
                 item.min, item.max, item.reverse
-            )
+            ))
 
 
 class FlattenTransformator(RuleTransformator):
-- 
2.43.0


From 28a445feec9625b3c9ce27104543c8aab12b8574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:53 +0000
Subject: [PATCH 21/21] fix: tokenizer without rules fails with KeyError

---
 yargy/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index 8c47152..a172b32 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -91,7 +91,8 @@ class Tokenizer(object):
             mapping[name] = type
             types.add(type)
             patterns.append(pattern)
-        pattern = '|'.join(patterns)
+        # without rules nothing matches, not even empty string
+        pattern = '|'.join(patterns) or r'(?!)'
         regexp = re.compile(pattern, re.UNICODE | re.IGNORECASE)
         return regexp, mapping, types
 
-- 
2.43.0

