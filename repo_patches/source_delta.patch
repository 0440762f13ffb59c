From 92b86415471cb6db868fedf762edeb9e22cd8f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 01/35] fix: match and extract(all=False) return only matches
 that start at the first token

For a recursive start rule the last column also has completed states that
start in the middle of the text, so '( a' was matched by E -> a | (E+E).
---
 yargy/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 72866ce..507b635 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -274,11 +274,13 @@ class Parser(object):
 
     def matches(self, text, all=True):
         chart = self.chart(text, all=all)
+        if all:
+            return chart.matches(self.rule)
+        # recursive rule is predicted in the middle of the text too
         return (
-            chart
-            if all
-            else chart.last_column
-        ).matches(self.rule)
+            _ for _ in chart.last_column.matches(self.rule)
+            if _.start_column.first
+        )
 
     def extract(self, text, all=True):
         states = self.matches(text, all=all)
-- 
2.43.0


From 9e4498b676309c72daa41c1e9c49bbf75717374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 02/35] fix: do not produce matches without tokens

A start rule that derives nothing, for example rule('a').optional(), made
match, find, findall and extract fail with ValueError on the empty tree.
---
 yargy/parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 507b635..9dbe4a9 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -158,6 +158,10 @@ class State(object):
     def range(self):
         return self.start_column.index, self.stop_column.index
 
+    @property
+    def empty(self):
+        return self.start_column is self.stop_column
+
     def __str__(self):
         terms = self.production.terms
         production = ' '.join(
@@ -193,10 +197,11 @@ class Match(Record):
 
 def prepare_trees(states):
     for state in states:
-        yield Tree(
-            state.node,
-            state.range
-        )
+        if not state.empty:
+            yield Tree(
+                state.node,
+                state.range
+            )
 
 
 def prepare_match(tree):
-- 
2.43.0


From c1602f247598c6e5e0c3c4ea6ac897f476af0853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 03/35] fix: complete states that wait for an already completed
 empty rule

B = rule('a').optional(); rule(B, rule(B, 'd')) did not match 'd': the
inner B was completed before the state that waits for it was added.
---
 yargy/parser.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 9dbe4a9..266478e 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -76,6 +76,7 @@ class Column(object):
         self.states = []
         self.hashes = set()
         self.states_index = defaultdict(list)
+        self.empty_index = defaultdict(list)
 
     def __iter__(self):
         return iter(self.states)
@@ -93,7 +94,10 @@ class Column(object):
             self.update_index(state)
 
     def update_index(self, state):
-        if not state.completed:
+        if state.completed:
+            if state.empty:
+                self.empty_index[id(state.rule)].append(state)
+        else:
             next_term = state.next_term
             if is_rule(next_term):
                 self.states_index[id(next_term)].append(state)
@@ -273,6 +277,9 @@ class Parser(object):
                     next_term = state.next_term
                     if is_rule(next_term):
                         self.predict(column, next_column, next_term)
+                        # completed before state was added
+                        for empty in column.empty_index[id(next_term)]:
+                            self.advance(column, state, empty)
                     elif next_column:
                         self.scan(next_column, next_term, state)
         return chart
@@ -345,11 +352,14 @@ class Parser(object):
 
     def complete(self, column, completed):
         for state in completed.parents:
-            state = State(
-                state.rule, state.production,
-                dot_index=state.dot_index + 1,
-                start_column=state.start_column,
-                stop_column=column,
-                node=state.node.attached(completed.node)
-            )
-            column.append(state)
+            self.advance(column, state, completed)
+
+    def advance(self, column, state, completed):
+        state = State(
+            state.rule, state.production,
+            dot_index=state.dot_index + 1,
+            start_column=state.start_column,
+            stop_column=column,
+            node=state.node.attached(completed.node)
+        )
+        column.append(state)
-- 
2.43.0


From 59e527ec7e58c3c769eb183b258b8d5c3faa78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 04/35] fix: parsing ends for rules that derive themselves
 without consuming

or_(rule('a').optional(), rule('b')).repeatable() or F -> a | F made the
parser build derivations that go in circles for ever.
---
 yargy/parser.py            | 17 +++++++++++++++++
 yargy/tree/constructors.py |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/yargy/parser.py b/yargy/parser.py
index 266478e..de4b4d5 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -87,6 +87,10 @@ class Column(object):
                 yield state
 
     def append(self, state):
+        if state.completed:
+            state.node.range = state.range
+            if state.cyclic:
+                return
         value = hash(state)
         if value not in self.hashes:
             self.hashes.add(value)
@@ -166,6 +170,19 @@ class State(object):
     def empty(self):
         return self.start_column is self.stop_column
 
+    @property
+    def cyclic(self):
+        # rule derives itself on the same tokens, number of such
+        # derivations is infinite
+        nodes = list(self.node.children)
+        while nodes:
+            node = nodes.pop()
+            if node.range == self.range:
+                if node.rule is self.rule:
+                    return True
+                nodes.extend(node.children)
+        return False
+
     def __str__(self):
         terms = self.production.terms
         production = ' '.join(
diff --git a/yargy/tree/constructors.py b/yargy/tree/constructors.py
index b1c2f03..0ce4078 100644
--- a/yargy/tree/constructors.py
+++ b/yargy/tree/constructors.py
@@ -81,6 +81,8 @@ def dfs_tree(root):
 class Node(Record):
     __attributes__ = ['rule', 'production', 'rank', 'children']
 
+    range = None
+
     def __init__(self, rule, production, rank, children):
         self.rule = rule
         self.production = production
-- 
2.43.0


From 186ae52883e25cca73b899ff48682c3e0994a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 05/35] fix: do not mix up temporary rules in transformators

visited was keyed by id of rules that could be collected already, in
rule(rule('a').optional().repeatable(), rule('b').optional().repeatable(), 'c')
the second item was replaced by the first one.
---
 yargy/rule/transformators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 5edf771..b24af62 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -68,11 +68,12 @@ class RuleTransformator(Visitor):
     def visit(self, item):
         item_id = id(item)
         if item_id in self.visited:
-            return self.visited[item_id]
+            _, result = self.visited[item_id]
         else:
-            item = self.resolve_method(item)(item)
-            self.visited[item_id] = item
-            return item
+            result = self.resolve_method(item)(item)
+            # keep item, id of collected object can be reused
+            self.visited[item_id] = item, result
+        return result
 
     def visit_term(self, item):
         if is_rule(item):
-- 
2.43.0


From dc1d2ff7043635e2278e20ba2f1f8b244c8c98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 06/35] fix: building a parser does not change the rules it is
 built from

Forwards were redefined by every transformation and predicates and pipelines
were activated in place: a second parser for the same recursive rule failed
with RecursionError, gazetteers kept the tokenizer of the first parser.
---
 yargy/rule/bnf.py            |  4 +++-
 yargy/rule/transformators.py | 26 +++++++++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index d1298b2..da79c93 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -115,7 +115,7 @@ class BNFTransformator(RuleTransformator):
     def visit_WrapperRule(self, item):
         item = item.rule
         if is_forward_rule(item):
-            return lift(item)
+            return lift(self.visit(item))
         shared = self.is_shared(item)
         item = self.visit(item)
         if shared:
@@ -164,6 +164,8 @@ class RemoveForwardTransformator(InplaceRuleTransformator):
     def visit_ForwardRule(self, item):
         if not item.rule:
             raise TypeError('forward not defined')
+        if is_forward_rule(item.rule):
+            return self.visit(item.rule)
         return item.rule
 
     def visit_PipelineBNFRule(self, item):
diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index b24af62..27a5a31 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -29,6 +29,7 @@ from .constructors import (
     InterpretationRule,
     RelationRule,
     ForwardRule,
+    PipelineRule,
 )
 
 
@@ -60,9 +61,13 @@ class RuleTransformator(Visitor):
         self.visited = {}
 
     def __call__(self, root):
-        for item in root.walk(types=ForwardRule):
+        # rule can be used in other parsers, do not redefine its forwards
+        items = list(root.walk(types=ForwardRule))
+        for item in items:
+            self.visited[id(item)] = item, ForwardRule()
+        for item in items:
             if item.rule:
-                item.define(self.visit(item.rule))
+                self.visit(item).rule = self.visit(item.rule)
         return self.visit(root)
 
     def visit(self, item):
@@ -100,17 +105,17 @@ class RuleTransformator(Visitor):
         return OrRule([self.visit(_) for _ in item.rules])
 
     def visit_OptionalRule(self, item):
-        return OptionalRule(self.visit(item.rule, item.reverse))
+        return OptionalRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableRule(self, item):
-        return RepeatableRule(self.visit(item.rule, item.reverse))
+        return RepeatableRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableOptionalRule(self, item):
-        return RepeatableOptionalRule(self.visit(
-            item.rule,
+        return RepeatableOptionalRule(
+            self.visit(item.rule),
             item.reverse_repeatable,
             item.reverse_optional
-        ))
+        )
 
     def visit_MinBoundedRule(self, item):
         return MinBoundedRule(self.visit(item.rule), item.min, item.reverse)
@@ -143,7 +148,7 @@ class RuleTransformator(Visitor):
         return item
 
 
-class ActivateTransformator(InplaceRuleTransformator):
+class ActivateTransformator(RuleTransformator):
     def __init__(self, context):
         super(ActivateTransformator, self).__init__()
         self.context = context
@@ -152,11 +157,10 @@ class ActivateTransformator(InplaceRuleTransformator):
         if is_predicate(item):
             return item.activate(self.context)
         else:
-            return item
+            return self.visit(item)
 
     def visit_PipelineRule(self, item):
-        item.pipeline = item.pipeline.activate(self.context)
-        return item
+        return PipelineRule(item.pipeline.activate(self.context))
 
 
 class SquashExtendedTransformator(RuleTransformator):
-- 
2.43.0


From b04c5bac06e53f1f767f751f9b1a930665518caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 07/35] fix: name and interpretation of a recursive use of a
 rule do not leak to the root

E.define(R.named('X')) named the whole grammar X when a parser was built for R.
---
 yargy/rule/bnf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index da79c93..4d6246b 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -92,6 +92,8 @@ class BNFTransformator(RuleTransformator):
         self.parents = {}
 
     def __call__(self, root):
+        # annotations of other uses should not go to root
+        self.parents[id(root)] = 1
         for item in root.walk():
             for child in item.children:
                 child_id = id(child)
-- 
2.43.0


From 024a5771d8635213f59b8e511f894b2358f562ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 08/35] fix: absent optional items do not change the main word

rule(gram('ADJF').optional(), main(gram('NOUN'))).match(gnc) failed with
IndexError or took another word as main when ADJF was absent.
---
 yargy/tree/transformators.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 1fa1660..6ce5e2e 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -7,6 +7,7 @@ from yargy.dot import (
     GREEN
 )
 
+from yargy.rule import Production
 from yargy.pipelines import PipelineProduction
 from yargy.interpretation.interpretator import InterpretatorInput
 
@@ -45,20 +46,28 @@ class TreeTransformator(Visitor):
 
 
 class PropogateEmptyTransformator(TreeTransformator):
-    def visit_children(self, item):
-        return list(filter(
-            None,
-            [self.visit(_) for _ in item.children]
-        ))
+    def visit_production(self, item, children):
+        # drop terms of empty children so that main points to the same term
+        production = item.production
+        if None not in children:
+            return production
+        main = 0
+        if children[production.main]:
+            main = len(list(filter(None, children[:production.main])))
+        terms = [
+            term for term, child in zip(production.terms, children)
+            if child
+        ]
+        return Production(terms, main)
 
     def visit_Node(self, item):
-        children = self.visit_children(item)
-        if children:
+        children = [self.visit(_) for _ in item.children]
+        if any(children):
             return Node(
                 item.rule,
-                item.production,
+                self.visit_production(item, children),
                 item.rank,
-                children
+                list(filter(None, children))
             )
 
 
-- 
2.43.0


From 28d88a4b726378682d1d6105cdf303a277ed2a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 09/35] fix: relations of one match do not constrain tokens of
 other matches

Leaves are shared between candidate trees, forms dropped in one of them
were lost for all of them.
---
 yargy/tree/transformators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 6ce5e2e..03c1fa7 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -127,12 +127,16 @@ class RelationsTransformator(InplaceTreeTransformator):
             self.relations.add(item.relation, item.main)
 
 
-class ApplyRelationsTransformator(InplaceTreeTransformator):
+class ApplyRelationsTransformator(TreeTransformator):
     def __init__(self, relations):
         self.relations = relations
 
     def visit_Leaf(self, item):
-        item.token = self.relations.constrain(item.token)
+        # leaf is shared between trees, do not change it
+        return Leaf(
+            item.predicate,
+            self.relations.constrain(item.token)
+        )
 
 
 class DotTreeTransformator(DotTransformator, InplaceTreeTransformator):
-- 
2.43.0


From 940ab090cc6a6c7b0c1fe2fc29b69189efdb5935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 10/35] fix: merging facts keeps all values of repeatable
 attributes

Right recursive rules with a repeatable attribute kept only the values of
the last merged fact.
---
 yargy/interpretation/fact.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yargy/interpretation/fact.py b/yargy/interpretation/fact.py
index b956d6a..361955b 100644
--- a/yargy/interpretation/fact.py
+++ b/yargy/interpretation/fact.py
@@ -94,7 +94,10 @@ class InterpretatorFact(Record):
     def merge(self, fact):
         for key in fact.modified:
             value = fact.attributes[key]
-            self.attributes[key] = value
+            if key in self.repeatable:
+                self.attributes[key].extend(value)
+            else:
+                self.attributes[key] = value
             self.modified.add(key)
 
     @property
-- 
2.43.0


From 59ca3d37367ce1152f4b34da1ea43cd4641de1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 11/35] fix: spans of facts with const values

InterpretatorInput has no spans, fact.spans failed with AttributeError.
---
 yargy/interpretation/interpretator.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/yargy/interpretation/interpretator.py b/yargy/interpretation/interpretator.py
index bf640eb..8aff499 100644
--- a/yargy/interpretation/interpretator.py
+++ b/yargy/interpretation/interpretator.py
@@ -30,6 +30,19 @@ class InterpretatorInput(Record):
         self.items = list(items)
         self.key = key
 
+    @property
+    def spans(self):
+        if all(is_token(_) for _ in self.items):
+            yield get_tokens_span(self.items)
+            return
+
+        for item in self.items:
+            if is_token(item):
+                yield item.span
+            else:
+                for span in item.spans:
+                    yield span
+
 
 class InterpretatorResult(Record):
     normalized = None
-- 
2.43.0


From 691909a8d2c93e6630bda665c2a8f64bbbec20cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 12/35] fix: normalized() gives the key of a pipeline that is
 shared or wrapped

When a pipeline was used in several places, or stood inside rule(...),
the phrase was normalized word by word.
---
 yargy/tree/transformators.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 03c1fa7..bf32019 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -85,12 +85,21 @@ class KeepInterpretationNodesTransformator(TreeTransformator):
                 for item in self.flatten(child):
                     yield item
 
+    def get_production(self, item):
+        # or_, optional, rule(...) do not hide key of the pipeline inside
+        while len(item.children) == 1:
+            child = item.children[0]
+            if isinstance(child, Leaf) or child.interpretator:
+                break
+            item = child
+        return item.production
+
     def visit_Node(self, item):
         if item.interpretator:
             children = [self.visit(_) for _ in self.flatten(item)]
             return Node(
                 item.rule,
-                item.production,
+                self.get_production(item),
                 item.rank,
                 children
             )
-- 
2.43.0


From aaa0ca644143eb2abce446c40d784d658ca01b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 13/35] fix: relation on a word without morphology rejects the
 match
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

morph_pipeline(['dvd диск']).match(gnc) failed with AttributeError.
---
 yargy/relations/graph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index 7be590c..d743d56 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -3,6 +3,7 @@ from collections import defaultdict
 from itertools import combinations
 
 from yargy.record import Record
+from yargy.token import is_morph_token
 
 
 class Edge(Record):
@@ -43,8 +44,12 @@ class TokenRelationsGraph(RelationsGraph):
         token_id = id(token)
         self.tokens[token_id] = token
         if token_id not in self.token_forms:
-            for form in token.forms:
-                self.token_forms[token_id].append(form)
+            # token without morphology agrees with nothing
+            self.token_forms[token_id] = (
+                list(token.forms)
+                if is_morph_token(token)
+                else []
+            )
 
     def validate(self):
         for relation, first, second in self.edges:
-- 
2.43.0


From b506ebf6eb396e206b64a573a363d0d6e3e350c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 14/35] fix: a word is not related to itself by a relation of
 nested rules

A.match(gnc) inside of rule(A.match(gnc)).match(gnc) dropped forms of the
word that do not agree with any of its own forms.
---
 yargy/relations/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index d743d56..3c78208 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -40,6 +40,10 @@ class TokenRelationsGraph(RelationsGraph):
         self.token_forms = defaultdict(list)
 
     def add(self, relation, token):
+        items = self.relation_items[id(relation)]
+        if any(_ is token for _ in items):
+            # main word of nested rules, word is not related to itself
+            return
         super(TokenRelationsGraph, self).add(relation, token)
         token_id = id(token)
         self.tokens[token_id] = token
-- 
2.43.0


From 961e7bfb12e0a07fafa632f44992a465c5169649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 15/35] fix: agreement of more than two words is checked until
 it is stable

Relations were checked pair by pair once, forms that lost their counterpart
in a later pair were kept and inconsistent phrases were accepted.
---
 yargy/relations/graph.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index 3c78208..6f73ee2 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -56,6 +56,22 @@ class TokenRelationsGraph(RelationsGraph):
             )
 
     def validate(self):
+        # forms dropped by one edge can be required by others
+        count = None
+        while count != self.forms_count:
+            count = self.forms_count
+            self.reduce()
+
+        for token_id in self.tokens:
+            if not self.token_forms[token_id]:
+                return False
+        return True
+
+    @property
+    def forms_count(self):
+        return sum(len(_) for _ in self.token_forms.values())
+
+    def reduce(self):
         for relation, first, second in self.edges:
             first_id = id(first)
             second_id = id(second)
@@ -73,11 +89,6 @@ class TokenRelationsGraph(RelationsGraph):
             self.token_forms[first_id] = checked_first_forms
             self.token_forms[second_id] = checked_second_forms
 
-        for token_id in self.tokens:
-            if not self.token_forms[token_id]:
-                return False
-        return True
-
     def constrain(self, token):
         token_id = id(token)
         if token_id in self.tokens:
-- 
2.43.0


From a39df934deeaa04a37c70d3cca60a4a7c4ff7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 16/35] fix: words of common gender agree in gender
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

gender_relation was False for 'сирота' and 'сирота', gnc_relation rejected
any two words of common gender.
---
 yargy/relations/bank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/relations/bank.py b/yargy/relations/bank.py
index ded58e3..aab9f15 100644
--- a/yargy/relations/bank.py
+++ b/yargy/relations/bank.py
@@ -25,7 +25,7 @@ class gender_relation(Relation):
             (form_male and other_male)
             or (form_female and other_female)
             or (form_neutral and other_neutral)
-            or (form_bi and (other_male or other_female))
+            or (form_bi and (other_male or other_female or other_bi))
             or (other_bi and (form_male or form_female))
             or form_general
             or other_general
-- 
2.43.0


From 89805d568ad8f6898c7dc14e6e709275fec9a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 17/35] fix: nested optional and repeatable keep their bounds

A.optional().repeatable(min=2) did not accept one A, in
A.repeatable(min=2).repeatable() and A.repeatable().repeatable(min=2, max=3)
the lower bound was lost.
---
 yargy/rule/transformators.py | 44 ++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 27a5a31..5b8206f 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -163,6 +163,11 @@ class ActivateTransformator(RuleTransformator):
         return PipelineRule(item.pipeline.activate(self.context))
 
 
+def is_single_min(item):
+    # X{2,3} can not be replaced with X in (X{2,3})+
+    return not isinstance(item, MinBoundedRule) or item.min == 1
+
+
 class SquashExtendedTransformator(RuleTransformator):
     def visit_RepeatableRule(self, item):
         child = item.rule
@@ -179,8 +184,13 @@ class SquashExtendedTransformator(RuleTransformator):
                 child.reverse_optional
             ))
 
-        elif isinstance(child, (RepeatableRule, BoundedRule)):
+        elif (isinstance(child, (RepeatableRule, BoundedRule))
+              and is_single_min(child)):
             return self.visit(RepeatableRule(child.rule, item.reverse))
+        elif type(child) is MinBoundedRule:
+            return self.visit(MinBoundedRule(
+                child.rule, child.min, item.reverse
+            ))
         else:
             return RepeatableRule(self.visit(child), item.reverse)
 
@@ -205,13 +215,21 @@ class SquashExtendedTransformator(RuleTransformator):
 
     def visit_RepeatableOptionalRule(self, item):
         child = item.rule
-        if isinstance(child, (RepeatableRule, BoundedRule,
-                              OptionalRule, RepeatableOptionalRule)):
+        if (isinstance(child, (RepeatableRule, BoundedRule,
+                               OptionalRule, RepeatableOptionalRule))
+                and is_single_min(child)):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 item.reverse_repeatable,
                 item.reverse_optional
             ))
+        elif type(child) is MinBoundedRule:
+            return self.visit(OptionalRule(
+                MinBoundedRule(
+                    child.rule, child.min, item.reverse_repeatable
+                ),
+                item.reverse_optional
+            ))
         else:
             return RepeatableOptionalRule(
                 self.visit(child),
@@ -236,10 +254,9 @@ class SquashExtendedTransformator(RuleTransformator):
         if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
-            return self.visit(OptionalRule(
-                MinBoundedRule(
-                    child.rule, item.min, item.reverse
-                ),
+            return self.visit(RepeatableOptionalRule(
+                child.rule,
+                item.reverse,
                 child.reverse
             ))
         else:
@@ -261,12 +278,19 @@ class SquashExtendedTransformator(RuleTransformator):
 
     def visit_MinMaxBoundedRule(self, item):
         child = item.rule
-        if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
+        if type(child) is RepeatableRule and item.min > 1:
+            rule = child.rule
+            while type(rule) is RepeatableRule:
+                rule = rule.rule
+            return self.visit(MinBoundedRule(
+                rule, item.min, child.reverse
+            ))
+        elif isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
             return self.visit(OptionalRule(
-                MinMaxBoundedRule(
-                    child.rule, item.min, item.max, item.reverse
+                MaxBoundedRule(
+                    child.rule, item.max, item.reverse
                 ),
                 child.reverse
             ))
-- 
2.43.0


From ac2df9f83e4e550b678853e9b12420732af22f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 18/35] fix: repeatable(min=0) and repeatable(max=0) raise
 ValueError

Zero bounds were silently treated as no bounds at all.
---
 yargy/rule/constructors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yargy/rule/constructors.py b/yargy/rule/constructors.py
index 6489777..d665038 100644
--- a/yargy/rule/constructors.py
+++ b/yargy/rule/constructors.py
@@ -72,11 +72,11 @@ class Rule(Record):
         return OptionalRule(self, reverse)
 
     def repeatable(self, min=None, max=None, reverse=False):
-        if min and max:
+        if min is not None and max is not None:
             return MinMaxBoundedRule(self, min, max, reverse)
-        elif min:
+        elif min is not None:
             return MinBoundedRule(self, min, reverse)
-        elif max:
+        elif max is not None:
             return MaxBoundedRule(self, max, reverse)
         else:
             return RepeatableRule(self, reverse)
-- 
2.43.0


From 8cc251c040bc62a840749e06fa3492c9b2fede4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 19/35] fix: predicates accept optional(reverse=True) like
 rules do

---
 yargy/predicates/constructors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yargy/predicates/constructors.py b/yargy/predicates/constructors.py
index 41b0f91..d544ba1 100644
--- a/yargy/predicates/constructors.py
+++ b/yargy/predicates/constructors.py
@@ -10,9 +10,9 @@ class Predicate(Record):
         # return True of False
         raise NotImplementedError
 
-    def optional(self):
+    def optional(self, reverse=False):
         from yargy.api import rule
-        return rule(self).optional()
+        return rule(self).optional(reverse=reverse)
 
     def repeatable(self, min=None, max=None, reverse=False):
         from yargy.api import rule
-- 
2.43.0


From 61f856b55e8051d4f15dec75ae8a4990737b81f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 20/35] fix: quote backslash in DOT source

Graphs with a backslash in a label were not valid, labels like \N were
replaced with other text.
---
 yargy/dot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/dot.py b/yargy/dot.py
index 6fdbf5c..b011edd 100644
--- a/yargy/dot.py
+++ b/yargy/dot.py
@@ -35,6 +35,7 @@ class style(Record):
     def quote(self, value):
         value = str(value)
         replace = {
+            '\\': r'\\',
             '"': r'\"',
             '\n': r'\n',
             '\r': r'\r'
-- 
2.43.0


From 9fdab3d266c4b8f525867a0645365956ac45de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 21/35] fix: tag that tagger does not know raises ValueError

Result of check_tag was ignored.
---
 yargy/predicates/bank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 28ed691..c264ddf 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -416,7 +416,8 @@ class tag(ParameterPredicateScheme):
     """
 
     def activate(self, context):
-        context.tagger.check_tag(self.value)
+        if not context.tagger.check_tag(self.value):
+            raise ValueError(self.value)
         return TagPredicate(self.value)
 
 
-- 
2.43.0


From 91b79a3f5732e378f46001738a3ad156953cc74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 22/35] fix: choice between keys of morph_pipeline does not
 depend on hash seed

Normal forms of an ambiguous word were tried in the order of a set.
---
 yargy/pipelines.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index 93ac7ed..a661bac 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -1,5 +1,5 @@
 
-from collections import defaultdict
+from collections import defaultdict, OrderedDict
 
 from .record import Record
 from .check import assert_type
@@ -63,7 +63,11 @@ class MorphPipelineBNFRule(PipelineBNFRule):
 
     def predict(self, token):
         if is_morph_token(token):
-            normalized = {_.normalized for _ in token.forms}
+            # order of alternatives should not depend on hash seed
+            normalized = OrderedDict(
+                (_.normalized, None)
+                for _ in token.forms
+            )
             for value in normalized:
                 if value in self.index:
                     for production in self.index[value]:
-- 
2.43.0


From ced1b23059dd4fcc5a835e60c19199a1e8ad4250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 23/35] fix: spans and tokens are hashable

Span defines __eq__ but not __hash__.
---
 yargy/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yargy/span.py b/yargy/span.py
index cce713a..2edea13 100644
--- a/yargy/span.py
+++ b/yargy/span.py
@@ -14,6 +14,8 @@ class Span(Record):
             return tuple(self) == other
         return Record.__eq__(self, other)
 
+    __hash__ = Record.__hash__
+
     def __lt__(self, other):
         return tuple(self) < tuple(other)
 
-- 
2.43.0


From 4d6554d64186517f78e034acc0b4cd7e2aa38003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 24/35] fix: inflected() without arguments is nominative
 singular

inflected() failed with TypeError while F.a.inflected() worked.
---
 yargy/interpretation/normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 42367ed..f096365 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -35,7 +35,7 @@ class NormalizedNormalizer(MorphNormalizer):
 class InflectedNormalizer(MorphNormalizer):
     __attributes__ = ['grams']
 
-    def __init__(self, grams=None):
+    def __init__(self, grams={'nomn', 'sing'}):
         self.grams = grams
 
     def custom(self, function):
-- 
2.43.0


From 94a515772e358342fb0a7b832792236bb9807770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 25/35] fix: the same token rule can be added twice

Tokenizer().add_rules(EMAIL_RULE).add_rules(EMAIL_RULE) failed with re.error,
redefinition of group name.
---
 yargy/tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index 8c47152..8238048 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -81,9 +81,9 @@ class Tokenizer(object):
         types = set()
         mapping = {}
         patterns = []
-        for rule in rules:
+        for index, rule in enumerate(rules):
             type, pattern = rule
-            name = 'rule_{id}'.format(id=id(rule))
+            name = 'rule_{index}'.format(index=index)
             pattern = r'(?P<{name}>{pattern})'.format(
                 name=name,
                 pattern=pattern
-- 
2.43.0


From 530948374bf57fb19100942a5c85831f35b8d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 26/35] fix: tokenizer without rules gives no tokens

With all types removed any call failed with KeyError.
---
 yargy/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index 8238048..b80bbe5 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -91,7 +91,8 @@ class Tokenizer(object):
             mapping[name] = type
             types.add(type)
             patterns.append(pattern)
-        pattern = '|'.join(patterns)
+        # no rules, match nothing
+        pattern = '|'.join(patterns) or r'(?!)'
         regexp = re.compile(pattern, re.UNICODE | re.IGNORECASE)
         return regexp, mapping, types
 
-- 
2.43.0


From 07c68343f5d9b321ae0df02dd06fa6b2790479d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 27/35] fix: tokenizer keeps its own list of rules

add_rules failed for rules given as tuple, a generator of rules was
exhausted, changes of the list made later leaked into the tokenizer.
---
 yargy/tokenizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index b80bbe5..0bd9e27 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -55,6 +55,7 @@ class Tokenizer(object):
         self.reset(rules)
 
     def reset(self, rules):
+        rules = list(rules)
         for rule in rules:
             assert_type(rule, TokenRule)
         self.rules = rules
-- 
2.43.0


From 0a67833d896af694cab63358f1e219a0ac9ac42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 28/35] fix: gte and lte accept numbers of any length

int(...) of more than 4300 digits raises ValueError.
---
 yargy/predicates/bank.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index c264ddf..2afb34c 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -38,11 +38,20 @@ __all__ = [
 ]
 
 
+def parse_int(value, size=4000):
+    # int(value) fails if there are more than 4300 digits
+    number = 0
+    for index in range(0, len(value), size):
+        part = value[index:index + size]
+        number = number * 10 ** len(part) + int(part)
+    return number
+
+
 def int_required(method):
     @wraps(method)
     def wrapper(self, token):
         if token.type == INT:
-            value = int(token.value)
+            value = parse_int(token.value)
             return method(self, value)
         else:
             return False
-- 
2.43.0


From 8518fd857ab1d31c31f1b9c23d81af66464d9a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 29/35] fix: forward defined with at most one repetition of
 itself

---
 yargy/rule/transformators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 5b8206f..d81169c 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -14,6 +14,7 @@ from yargy.dot import (
 from yargy.predicates import is_predicate
 from .constructors import (
     is_rule,
+    is_forward_rule,
     Production,
     EmptyProduction,
     Rule,
@@ -427,6 +428,10 @@ class ReplaceExtendedTransformator(RuleTransformator):
 
     def visit_MaxBoundedRule(self, item):
         child = self.visit(item.rule)
+        if item.max == 1 and is_forward_rule(child):
+            # forward can be defined with itself
+            from yargy.api import rule
+            return rule(child)
         return max_bound(child, item.max, item.reverse)
 
     def visit_MinMaxBoundedRule(self, item):
-- 
2.43.0


From 493b3d6e49f364cc38654eda582b7bc7650d82a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 30/35] fix: BNF of a rule with a pipeline

---
 yargy/pipelines.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index a661bac..dacce30 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -158,6 +158,11 @@ class PipelineScheme(Pipeline):
             for _ in self.lines
         )
 
+    @property
+    def as_bnf(self):
+        # words of lines are not known before activation
+        return self.pipeline.bnf([])
+
 
 class CaselessPipelineScheme(PipelineScheme):
     pipeline = CaselessPipeline
-- 
2.43.0


From 74574a2fc30769f561bfbca932e3eb0e914ce4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:39 +0000
Subject: [PATCH 31/35] fix: blank lines in pipelines, IndexError in Parser

---
 yargy/pipelines.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index dacce30..bb21a80 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -153,10 +153,12 @@ class PipelineScheme(Pipeline):
         )
 
     def activate(self, context):
-        return self.pipeline(
+        keys = [
             self.get_key(_, context.tokenizer)
             for _ in self.lines
-        )
+        ]
+        # no tokens in blank line, nothing to match
+        return self.pipeline(_ for _ in keys if _.terms)
 
     @property
     def as_bnf(self):
-- 
2.43.0


From 3586c9de22573de25b812b1bbe71615043a877db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:53 +0000
Subject: [PATCH 32/35] fix: generated names in BNF repeat names given by user

---
 yargy/rule/bnf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index 4d6246b..a2b66b7 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -13,9 +13,14 @@ from .constructors import (
 
 
 def generate_names(rules):
+    rules = list(rules)
+    # do not name two rules the same
+    names = {_.name for _ in rules}
     count = 0
     for rule in rules:
         if not rule.name:
+            while 'R%d' % count in names:
+                count += 1
             rule.name = 'R%d' % count
             count += 1
         yield rule
-- 
2.43.0


From db9fc821b519dd0375fbc3498d3b940b573561b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:57 +0000
Subject: [PATCH 33/35] fix: label of inflected does not depend on hash seed

---
 yargy/interpretation/normalizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index f096365..096f9e9 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -50,7 +50,8 @@ class InflectedNormalizer(MorphNormalizer):
     @property
     def label(self):
         return 'inflected({grams})'.format(
-            grams=', '.join(self.grams)
+            # order of set depends on hash seed
+            grams=', '.join(sorted(self.grams))
         )
 
 
-- 
2.43.0


From f7f846bbe39ea30660f0aed193cfab7ae5341e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:20 +0000
Subject: [PATCH 34/35] fix: label functions without a name (partial, callable
 objects)

---
 yargy/interpretation/normalizer.py | 9 +++++----
 yargy/label.py                     | 5 +++++
 yargy/predicates/bank.py           | 3 ++-
 3 files changed, 12 insertions(+), 5 deletions(-)
 create mode 100644 yargy/label.py

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 096f9e9..96e1ba8 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -1,6 +1,7 @@
 
 from yargy.record import Record
 from yargy.check import assert_type
+from yargy.label import function_label
 from yargy.token import (
     join_normalized_tokens,
     join_inflected_tokens
@@ -94,7 +95,7 @@ class FunctionNormalizer(CustomNormalizer):
     @property
     def label(self):
         return 'custom({name})'.format(
-            name=self.function.__name__
+            name=function_label(self.function)
         )
 
 
@@ -112,8 +113,8 @@ class FunctionFunctionNormalizer(CustomNormalizer):
     @property
     def label(self):
         return 'custom({first}).custom({second})'.format(
-            first=self.first.__name__,
-            second=self.second.__name__
+            first=function_label(self.first),
+            second=function_label(self.second)
         )
 
 
@@ -132,5 +133,5 @@ class MorphFunctionNormalizer(MorphNormalizer, CustomNormalizer):
     def label(self):
         return '{morph}.{function}'.format(
             morph=self.morph.label,
-            function=self.function.__name__
+            function=function_label(self.function)
         )
diff --git a/yargy/label.py b/yargy/label.py
new file mode 100644
index 0000000..414146a
--- /dev/null
+++ b/yargy/label.py
@@ -0,0 +1,5 @@
+
+
+def function_label(function):
+    # functools.partial and callable objects do not have a name
+    return getattr(function, '__name__', function.__class__.__name__)
diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 2afb34c..921ff28 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -2,6 +2,7 @@
 from functools import wraps
 
 from yargy.tokenizer import INT
+from yargy.label import function_label
 from yargy.token import (
     is_tag_token,
     is_morph_token
@@ -513,5 +514,5 @@ class CustomPredicate(Predicate):
     @property
     def label(self):
         return 'custom({name})'.format(
-            name=self.function.__name__
+            name=function_label(self.function)
         )
-- 
2.43.0


From 9f65fa4f5d03c2464e0158325460aae9f8905447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:26 +0000
Subject: [PATCH 35/35] fix: label of custom does not depend on memory address

---
 yargy/predicates/bank.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 921ff28..92ba8dd 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -498,6 +498,13 @@ class custom(PredicateScheme):
                 context.tokenizer.check_type(type)
         return CustomPredicate(self.function, self.types)
 
+    @property
+    def label(self):
+        # repr of function has its address
+        return 'custom({name})'.format(
+            name=function_label(self.function)
+        )
+
 
 class CustomPredicate(Predicate):
     __attributes__ = ['function', 'types']
-- 
2.43.0

