From a7ab34882159d250bf2fa3dec655ccd65051e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 01/64] fix: keep text and line breaks of quoted values in
 Prolog facts

A text such as a'b lost its first letter (taken as the prefix of a string
literal), and line breaks (e.g. docstrings) produced unreadable quoted atoms
---
 capture/noworkflow/now/utils/prolog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/utils/prolog.py b/capture/noworkflow/now/utils/prolog.py
index cdc3a01..ce36db1 100644
--- a/capture/noworkflow/now/utils/prolog.py
+++ b/capture/noworkflow/now/utils/prolog.py
@@ -113,10 +113,11 @@ class PrologRepr(PrologAttribute):
         value = self.value(obj)
         if not isinstance(value, str):
             value = repr(value)
-        value = value.replace("\\", "\\\\")
+        value = value.replace("\\", "\\\\").replace("\n", "\\n")
 
         if len(value) > 1:
-            if value[0] in ascii_letters and value[1] in ('"', "'"):
+            if (len(value) > 2 and value[0] in ascii_letters
+                    and value[1] in ('"', "'") and value[-1] == value[1]):
                 value = value[1:]
             if value[0] in ('"', "'") and value[-1] == value[0]:
                 value = value[1:-1]
-- 
2.43.0


From 709e10aeedce84ea96ffbc54c1335ce00058f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 02/64] fix: export module facts that can be read and joined in
 Prolog

The boolean was exported as True/False, which are variables in Prolog, and the
code block id as a quoted atom, which does not unify with code_block ids
---
 capture/noworkflow/now/persistence/models/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/module.py b/capture/noworkflow/now/persistence/models/module.py
index 3268443..95b9e7c 100644
--- a/capture/noworkflow/now/persistence/models/module.py
+++ b/capture/noworkflow/now/persistence/models/module.py
@@ -11,6 +11,7 @@ from sqlalchemy import PrimaryKeyConstraint, ForeignKeyConstraint
 
 from ...utils.prolog import PrologDescription, PrologTrial, PrologRepr
 from ...utils.prolog import PrologAttribute, PrologNullableRepr
+from ...utils.prolog import PrologBoolean, PrologNullable
 
 from .. import relational
 
@@ -80,8 +81,8 @@ class Module(AlchemyProxy):
         PrologRepr("name"),
         PrologNullableRepr("version"),
         PrologRepr("path"),
-        PrologNullableRepr("code_block_id", link="code_block.id"),
-        PrologAttribute("transformed"),
+        PrologNullable("code_block_id", link="code_block.id"),
+        PrologBoolean("transformed"),
         PrologRepr("fullpath"),
     ), description=(
         "informs that in a given trial (*TrialId*),\n"
-- 
2.43.0


From 192db1cf2982233c2accd18005a50c4dd59b27e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 03/64] fix: distinguish activations by all their calls in
 exact match graphs

---
 capture/noworkflow/now/models/graphs/trial_graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/trial_graph.py b/capture/noworkflow/now/models/graphs/trial_graph.py
index 8f92d0c..6f4e867 100644
--- a/capture/noworkflow/now/models/graphs/trial_graph.py
+++ b/capture/noworkflow/now/models/graphs/trial_graph.py
@@ -258,8 +258,7 @@ class NoMatchSummarization(LineNameSummarization):
 
     def insert_sequence(self, call, last):
         """Inser last caller and comma to caller"""
-        if not last.children:
-            self.nodes[last.parent_index].repr += last.repr + ","
+        self.nodes[last.parent_index].repr += last.repr + ","
         return super(NoMatchSummarization, self).insert_sequence(call, last)
 
 
-- 
2.43.0


From f839872ef0590cb04018436fc03e478998518120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 04/64] fix: pair each removed record of a diff with a single
 added record

---
 capture/noworkflow/now/models/diff.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/models/diff.py b/capture/noworkflow/now/models/diff.py
index 79fb984..8b2e98c 100644
--- a/capture/noworkflow/now/models/diff.py
+++ b/capture/noworkflow/now/models/diff.py
@@ -132,11 +132,12 @@ def diff_set(before, after, create_replaced=True):
 
     removed_by_name = {}
     for element_removed in removed:
-        removed_by_name[element_removed.name] = element_removed
+        removed_by_name.setdefault(
+            element_removed.name, []).append(element_removed)
     for element_added in added:
-        element_removed = removed_by_name.get(element_added.name)
-        if element_removed and create_replaced:
-            replaced.add((element_removed, element_added))
+        same_name = removed_by_name.get(element_added.name)
+        if same_name and create_replaced:
+            replaced.add((same_name.pop(), element_added))
     if create_replaced:
         for (element_removed, element_added) in replaced:
             removed.discard(element_removed)
-- 
2.43.0


From bf7c5d6990ff9ddd7a2dd3d33576efa8644f2e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 05/64] fix: history cache mixed experiments with the same
 number of trials

---
 capture/noworkflow/now/models/graphs/history_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/graphs/history_graph.py b/capture/noworkflow/now/models/graphs/history_graph.py
index c30d8d3..f599162 100644
--- a/capture/noworkflow/now/models/graphs/history_graph.py
+++ b/capture/noworkflow/now/models/graphs/history_graph.py
@@ -50,7 +50,7 @@ class HistoryGraph(Graph):
 
         key = (
             self.history.script, self.history.status, self.history.summarize,
-            Trial.count(None,self.history.expId)
+            self.history.expId, Trial.count(None,self.history.expId)
         )
         
         if self.use_cache and key in self.cache:
-- 
2.43.0


From 9ac731dc6417fc7b99411f85f76226e8dbecf4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 06/64] fix: history failed when the parent of a trial is in
 another experiment

---
 capture/noworkflow/now/models/graphs/history_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/graphs/history_graph.py b/capture/noworkflow/now/models/graphs/history_graph.py
index f599162..3966db2 100644
--- a/capture/noworkflow/now/models/graphs/history_graph.py
+++ b/capture/noworkflow/now/models/graphs/history_graph.py
@@ -158,7 +158,7 @@ class HistoryGraph(Graph):
 
         for trial in viewvalues(trial_map):
             graph[trial.id][trial.id] = 0
-            if trial.parent_id is not None:
+            if trial.parent_id in trial_map:
                 graph[trial.id][trial.parent_id] = 1
 
         return graph
-- 
2.43.0


From f28236ad1690c4241185731a6968cfcd6988c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:32 +0000
Subject: [PATCH 07/64] fix: last trial of a script could be a trial of another
 script that started at the same time

---
 capture/noworkflow/now/persistence/models/trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index f90df9c..12cf6a3 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -865,7 +865,7 @@ class Trial(AlchemyProxy):
         session = session or relational.session
         trial = (
             session.query(model)
-            .filter(model.start.in_(
+            .filter((model.script == script) & model.start.in_(
                 select([func.max(model.start)])
                 .where(model.script == script)
             ))
-- 
2.43.0


From 3ba790d7c84764f2db90cffdf8cda51829311965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:35 +0000
Subject: [PATCH 08/64] fix: starred assignment failed for values that are not
 sequences

---
 .../now/collection/prov_execution/collector.py   | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d5553bb..440c75e 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1070,7 +1070,6 @@ class Collector(object):
     def assign_multiple_apply(self, activation, assign, target_info, custom, back):
         """Create dependencies for assignment to tuple/list"""
         # pylint: disable=too-many-locals
-        assign_value = assign.value
         subcomps = target_info
         # Assign until starred
         starred = None
@@ -1086,22 +1085,19 @@ class Collector(object):
         if starred is None:
             return delta
 
+        # The starred target is a list with everything between the others
         star = subcomps[starred][0]
-        rdelta = -1
+        new_value = self.value_from_target_expr(activation, assign, star, back + 1)
+        size = len(subcomps) - 1 + len(new_value)
         for index in range(len(subcomps) - 1, starred, -1):
             subcomp = subcomps[index]
             val = self.value_from_target_expr(activation, assign, subcomp, back + 1)
-            new_index = len(assign_value) + rdelta
-            adepa, _ = custom(new_index)
-            rdelta -= self.assign(
-                activation, assign.sub(val, adepa), subcomp, back + 1)
-
-        # ToDo: treat it as a plain slice
-        new_value = assign_value[delta:rdelta + 1]
+            adepa, _ = custom(size - len(subcomps) + index)
+            self.assign(activation, assign.sub(val, adepa), subcomp, back + 1)
 
         depas = [
             custom(index)[0]
-            for index in range(delta, len(assign_value) + rdelta + 1)
+            for index in range(starred, starred + len(new_value))
         ]
 
         return self.assign(activation, assign.sub(new_value, depas), star, back + 1)
-- 
2.43.0


From 1502cace8882fdb2ec2356afc1809cc7fb305012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:09 +0000
Subject: [PATCH 09/64] fix: unpacking a generator lost all but its last item

---
 capture/noworkflow/now/collection/prov_execution/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index 1e3610e..d833ced 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -56,7 +56,7 @@ class Assign(namedtuple("Assign", "checkpoint value dependency")):
             self.accesses[code_id] = access
 
         for obj_id, generator in other.generators.items():
-            self.generators[obj_id] = generator
+            self.generators[obj_id].extend(generator)
 
 
 class ConditionExceptions(object):
-- 
2.43.0


From 3bd052a583ab58196a120dc235217b5cb0073a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 10/64] fix: lambda inside of a collection aborted the script

---
 .../now/collection/prov_execution/collector.py         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 440c75e..cb5b53a 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1385,10 +1385,12 @@ class Collector(object):
                 return result
             if default_values[0]:
                 function_def.__defaults__ = default_values[0]
-            closure_activation.dependencies.append(DependencyAware(
-                exc_handler=defaults.exc_handler,
-                code_id=block_id,
-            ))
+            if function_def.__name__ != "<lambda>":
+                # collect_function_def removes it
+                closure_activation.dependencies.append(DependencyAware(
+                    exc_handler=defaults.exc_handler,
+                    code_id=block_id,
+                ))
             if closure_activation.active:
                 self.eval_dep(
                     closure_activation, block_id, new_function_def, mode
-- 
2.43.0


From a5974eb9e8e199a307af841eae07ea176b92a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:10 +0000
Subject: [PATCH 11/64] fix: filters in comprehensions with several loops
 aborted the script

---
 .../prov_definition/transformer_expr.py       | 24 +++++++++----------
 .../collection/prov_execution/collector.py    | 15 ++++++++----
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 0a6cc99..f0b752c 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -399,8 +399,8 @@ class RewriteDependencies(ast.NodeTransformer):
             set_key=lambda: ('item', none())
         )
 
-    def visit_generator(self, node, code_id=-1, count=0):
-        """Visit comprehension"""
+    def visit_generator(self, node, code_id=-1, outer=0):
+        """Visit comprehension. Remove outer conditions when its loop ends"""
         # ToDo: consider node.is_async
         id_ = self.rewriter.create_ast_component(node, Component.COMPREHENSION)
         self.create_composition(id_, *self.composition_edge)
@@ -424,7 +424,7 @@ class RewriteDependencies(ast.NodeTransformer):
             ], [
                 activation(),
                 self.rewriter.capture(new_node.iter, mode=Dependency.DEPENDENCY)
-            ]
+            ] + ([ast.Num(outer)] if outer else [])
         ), new_node.iter)
 
         ifs = []
@@ -453,7 +453,7 @@ class RewriteDependencies(ast.NodeTransformer):
                     ast.Num(self.rewriter.current_exc_handler),
                 ], [
                     activation(),
-                    ast.Num(count),
+                    ast.Num(1),
                     if1
                 ]
             ), new_node.ifs[0]))
@@ -472,14 +472,14 @@ class RewriteDependencies(ast.NodeTransformer):
                     <now>.item(<act>, #, <exc>)(
                         <act>, #, |x|, -1
                     ),
-                    2
+                    1
                 )
                 for x in <now>.loop(<act>, #, <exc>)(<act>, |l|)
                 if <now>.assign(<act>, <now>.pop_assign(<act>), target(x))
                 if <now>.rcondition(<act>, <exc>)(<act>, 1, |y| and |z|)
-                for k in <now>.loop(<act>, #, <exc>)(<act>, |l2|)
+                for k in <now>.loop(<act>, #, <exc>)(<act>, |l2|, 1)
                 if <now>.assign(<act>, <now>.pop_assign(<act>), target(k))
-                if <now>.rcondition(<act>, <exc>)(<act>, 2, |w|)
+                if <now>.rcondition(<act>, <exc>)(<act>, 1, |w|)
             ], <mode>)
         """
 
@@ -499,11 +499,10 @@ class RewriteDependencies(ast.NodeTransformer):
         total = 0
         for index, gen in enumerate(new_node.generators):
             self.composition_edge = (list_code_component, Component.M_GENERATORS, index)
-            if gen.ifs:
-                total += 1
             gens.append(self.visit_generator(
-                gen, code_id=list_code_component, count=total
+                gen, code_id=list_code_component, outer=total
             ))
+            total = 1 if gen.ifs else 0
         new_node.generators = gens
 
         item = ast_copy(noworkflow(
@@ -575,11 +574,10 @@ class RewriteDependencies(ast.NodeTransformer):
         total = 0
         for index, gen in enumerate(node.generators):
             self.composition_edge = (list_code_component, Component.M_GENERATORS, index)
-            if gen.ifs:
-                total += 1
             gens.append(self.visit_generator(
-                gen, code_id=list_code_component, count=total
+                gen, code_id=list_code_component, outer=total
             ))
+            total = 1 if gen.ifs else 0
 
         new_node = copy(node)
         new_node.generators = gens
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index cb5b53a..0e1fb07 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1674,10 +1674,12 @@ class Collector(object):
         ))
         return self._loop
 
-    def _loop(self, activation, value):
+    def _loop(self, activation, value, conditions=0):
         """Capture loop after. Return generator"""
         dependency = activation.dependencies.pop()
-        return self._loop_generator(activation, value, dependency)
+        return self._loop_generator(
+            activation, value, dependency, conditions
+        )
 
     def enumerate_generator(self, activation, value, code_id, exc_handler):
         """Iterate on generator"""
@@ -1711,8 +1713,11 @@ class Collector(object):
             for index, element in enumerate(value):
                 yield index, element, sdepa
 
-    def _loop_generator(self, activation, value, dependency):
-        """Loop generator that creates a assign for each iteration"""
+    def _loop_generator(self, activation, value, dependency, conditions=0):
+        """Loop generator that creates a assign for each iteration
+
+        Remove conditions of the outer loop of a comprehension in the end
+        """
         it_ = self.enumerate_generator(
             activation, value, dependency.code_id, dependency.exc_handler
         )
@@ -1742,6 +1747,8 @@ class Collector(object):
             activation.assignments.append(assign)
             yield element
 
+        self.remove_conditions(activation, conditions)
+
     def condition(self, activation, exc_handler):
         """Capture condition before"""
         activation.dependencies.append(DependencyAware(
-- 
2.43.0


From dd8e4c0e12dd205408d8676cb8d39b8f582ff254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:58 +0000
Subject: [PATCH 12/64] fix: with statement on script objects failed when no
 assignment was pending

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 0e1fb07..ab1d285 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1321,7 +1321,7 @@ class Collector(object):
                         future.dependencies[0].replace(activation.dependencies[1])
                     
                     find_bound_self = None
-                    if function_def.__name__ == "__enter__":
+                    if function_def.__name__ == "__enter__" and activation.assignments:
                         # ToDo: check the proper __enter__ assignment
                         find_bound_self = activation.assignments[-1].dependency
                     if function_def.__name__ == "__init__":
@@ -1352,7 +1352,7 @@ class Collector(object):
                             activation.assignments[-1].dependency.dependencies.extend(
                                 self.last_activation.dependencies[-1].dependencies
                             )
-                        except AttributeError:
+                        except (AttributeError, IndexError):
                             pass
                     if is_augassign:
                         activation.dependencies.pop()
-- 
2.43.0


From 885ae53373176576143cb5626ef1890a2eb83717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:58 +0000
Subject: [PATCH 13/64] fix: conditional expressions compared the values of the
 script to a marker

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index ab1d285..52beeef 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1806,7 +1806,7 @@ class Collector(object):
     def ifexp(self, activation, code_id, exc_handler, if_lambda, mode):
         """Collect ifexp"""
         # pylint: disable=too-many-arguments
-        value = "<<<noWorkflow>>>"
+        value = no_value = object()
         try:
             activation.dependencies.append(DependencyAware(
                 exc_handler=exc_handler,
@@ -1819,7 +1819,7 @@ class Collector(object):
             raise
         finally:
             depa = activation.dependencies.pop()
-            if activation.active and value != "<<<noWorkflow>>>":
+            if activation.active and value is not no_value:
                 self.eval_dep(activation, code_id, value, mode, depa)
             self.remove_condition(activation)
 
-- 
2.43.0


From 358b937414b9485ddca5179eb3837a08cf802065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 14/64] fix: items of sets were recorded with the key of lists

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 52beeef..3f5c117 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -760,7 +760,7 @@ class Collector(object):
         value_depa = activation.dependencies.pop()
         if key is None:
             key = value
-        if key == -1:
+        elif key == -1:
             key = len(activation.dependencies[-1].items)
         if activation.active:
             if len(value_depa.dependencies) == 1:
-- 
2.43.0


From 30dd7cff2a3fdf5da14a38cd66497b579d60448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 15/64] fix: methods decorated as properties aborted the script

---
 .../noworkflow/now/collection/prov_execution/collector.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 3f5c117..29c930a 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1407,7 +1407,10 @@ class Collector(object):
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
                 activation.context[function_name] = dependency.evaluation
-            function_def.original_def = original_def
+            try:
+                function_def.original_def = original_def
+            except AttributeError:
+                pass # property or object without attributes
             return function_def
         return dec
 
-- 
2.43.0


From 79858ca2834f4881da2bfea83b428f33c179cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 16/64] fix: bare except did not handle every exception

---
 .../now/collection/prov_definition/transformer_stmt.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 9688db8..949b421 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -1216,7 +1216,7 @@ class RewriteAST(ast.NodeTransformer):
         """
         new_node = copy(node)
         if new_node.type is None:
-            new_node.type = ast.Name('Exception', L())
+            new_node.type = ast.Name('BaseException', L())
         name = '__now_exception__'
         if new_node.name is None:
             new_node.name = name if PY3 else ast.Name(name, S())
-- 
2.43.0


From ffd25297fe24919acbfe58d0d41380ba823a28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 17/64] fix: class definitions created each class twice

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 29c930a..7383973 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1448,7 +1448,9 @@ class Collector(object):
                     orig_vars.pop(slots_var)
             orig_vars.pop('__dict__', None)
             orig_vars.pop('__weakref__', None)
-            class_def = metaclass(cls.__name__, bases, orig_vars, **kwargs)
+            class_def = cls
+            if not PY3:
+                class_def = metaclass(cls.__name__, bases, orig_vars, **kwargs)
 
             activation = orig_vars['__now_activation__']
             evaluation = activation.evaluation
-- 
2.43.0


From 8467787f19c4bda0b4f9981fab9e488a1a26b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 18/64] fix: class defined inside of a function or class
 aborted the script

---
 .../noworkflow/now/collection/prov_execution/collector.py    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 7383973..c645570 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -100,6 +100,7 @@ class Collector(object):
         self.first_activation.depth = 0
         self.last_activation = self.first_activation
         self.future_activation = []
+        self.class_closures = []
         self.shared_types = {}
 
         # Original globals
@@ -1416,6 +1417,9 @@ class Collector(object):
 
     def start_class(self, last_activation, class_name, code_component_id):
         """Start script collection. Create new activation"""
+        if self.class_closures:
+            # inside of other scopes, the name refers to the global activation
+            last_activation = self.class_closures.pop()
         activation = self.start_activation(
             class_name, code_component_id, code_component_id,
             last_activation
@@ -1427,6 +1431,7 @@ class Collector(object):
         """Decorate class definition.
         Start collecting base dependencies
         """
+        self.class_closures.append(activation)
         activation.dependencies.append(DependencyAware(
             exc_handler=exc_handler,
             code_id=code_id,
-- 
2.43.0


From cbb2a0a8d0e670367635d09c4400d31fa248eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 19/64] fix: functions lost their docstrings

---
 .../now/collection/prov_definition/transformer_stmt.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 949b421..3defd93 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -437,7 +437,10 @@ class RewriteAST(ast.NodeTransformer):
                 ]
             ), new_node))
 
-            body = [
+            docstring = []
+            if ast.get_docstring(new_node) is not None:
+                docstring = [deepcopy(new_node.body[0])]
+            body = docstring + [
                 ast_copy(ast.Expr(noworkflow('match_arguments', [
                     activation(),
                     ast.Name('__now_function_def__', L()),
-- 
2.43.0


From a0e5dc4229178374b41ab5cef7b77a803a78bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 20/64] fix: decorators of functions were executed twice

---
 .../now/collection/prov_definition/transformer_stmt.py           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 3defd93..f6be9d3 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -239,6 +239,7 @@ class RewriteAST(ast.NodeTransformer):
             elif isinstance(stmt, ast.FunctionDef) or (PY36 and isinstance(stmt, ast.AsyncFunctionDef)):
                 old_fd = deepcopy(stmt)
                 old_fd.name = "__now_original_" + stmt.name
+                old_fd.decorator_list = []
                 new_body.append(old_fd) 
                 new_body.append(self.visit(stmt))
             elif isinstance(stmt, ast.Break):
-- 
2.43.0


From 1fba4c5a4230e55ca1e37c56680d3126e065072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 21/64] fix: unpacking a call inside of a collection aborted
 the script

---
 .../now/collection/prov_definition/transformer_expr.py          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index f0b752c..59bf14d 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -1164,6 +1164,8 @@ class RewriteDependencies(ast.NodeTransformer):
 
         new_node = copy(node)
         new_node.value = self.visit(node.value)
+        if isinstance(node.ctx, ast.Load):
+            return new_node
         new_node.target_expr = ast.Tuple([
             new_node.value.target_expr,
             ast.Str('starred')
-- 
2.43.0


From 1ed30a105c98718b7a25e37727aa6cf0078ef485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 22/64] fix: unpacking inside of a dictionary aborted the
 script

---
 .../now/collection/prov_definition/transformer_expr.py        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 59bf14d..cbda208 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -363,6 +363,10 @@ class RewriteDependencies(ast.NodeTransformer):
         new_keys, new_values = [], []
         for index, (key, value) in enumerate(zip(node.keys, node.values)):
             self.composition_edge = (dict_code_component, Component.S_KEY_VALUE, index)
+            if key is None: # {**value}
+                new_keys.append(None)
+                new_values.append(self.rewriter.capture(value, mode=Dependency.VALUE))
+                continue
             new_key, new_value = self._dict_itemize(key, value)
             new_keys.append(new_key)
             new_values.append(new_value)
-- 
2.43.0


From 3d37be773f337f051a2bdbe1737e89ec55704f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 23/64] fix: positional-only parameters aborted the script

---
 .../collection/prov_definition/ast_elements.py   | 16 ++++++++++++++++
 .../prov_definition/transformer_expr.py          | 10 ++--------
 .../prov_definition/transformer_stmt.py          | 15 +++++----------
 3 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/ast_elements.py b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
index 251cda7..779a57f 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_elements.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
@@ -193,3 +193,19 @@ def raise_(exc, cause=None):
         return ast.Raise(exc, cause)
     else:
         return ast.Raise(exc, None, cause)
+
+
+def add_internal_params(arguments):
+    """Add parameters of noWorkflow before the parameters of a function"""
+    params = [
+        param('__now_activation__'),
+        param('__now_function_def__'),
+        param('__now_args__'),
+        param('__now_kwargs__'),
+        param('__now_default_values__'),
+        param('__now_default_dependencies__'),
+    ]
+    if getattr(arguments, 'posonlyargs', None):
+        arguments.posonlyargs = params + arguments.posonlyargs
+    else:
+        arguments.args = params + arguments.args
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index cbda208..b7d0653 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -17,6 +17,7 @@ from .ast_helpers import ast_copy
 from .ast_elements import L, S, context, none, call, param, true
 from .ast_elements import noworkflow, double_noworkflow
 from .ast_elements import nlambda, activation, act_attribute
+from .ast_elements import add_internal_params
 
 from . import dependency_constants as Dependency
 from . import component_constants as Component
@@ -262,14 +263,7 @@ class RewriteDependencies(ast.NodeTransformer):
             ), new_node),
             [new_node]
         ), new_node)
-        new_node.args.args = [
-            param('__now_activation__'),
-            param('__now_function_def__'),
-            param('__now_args__'),
-            param('__now_kwargs__'),
-            param('__now_default_values__'),
-            param('__now_default_dependencies__'),
-        ] + new_node.args.args
+        add_internal_params(new_node.args)
         new_node.args.defaults = [none() for _ in new_node.args.defaults]
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index f6be9d3..2ec8a07 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -16,7 +16,8 @@ from .ast_helpers import ReplaceContextWithLoad, ast_copy, temporary
 from .ast_helpers import select_future_imports
 
 from .ast_elements import maybe, context, raise_, now_attribute
-from .ast_elements import L, S, none, call, param, true_false, true, false
+from .ast_elements import L, S, none, call, true_false, true, false
+from .ast_elements import add_internal_params
 from .ast_elements import noworkflow, double_noworkflow
 from .ast_elements import activation, function_def, class_def, try_def
 
@@ -341,7 +342,8 @@ class RewriteAST(ast.NodeTransformer):
         self.create_composition(arguments_id, *self.composition_edge)
 
         arg_list = []
-        for index, arg in enumerate(arguments.args):
+        posonlyargs = getattr(arguments, 'posonlyargs', [])
+        for index, arg in enumerate(posonlyargs + arguments.args):
             self.composition_edge = (arguments_id, Component.M_ARGS, index)
             arg_list.append(self.process_arg(arg, arguments))
         args = ast.List(arg_list, L())
@@ -453,14 +455,7 @@ class RewriteAST(ast.NodeTransformer):
                 ])), new_node)
             ] + self.process_body(new_node.body, func_id)
 
-            new_node.args.args = [
-                param('__now_activation__'),
-                param('__now_function_def__'),
-                param('__now_args__'),
-                param('__now_kwargs__'),
-                param('__now_default_values__'),
-                param('__now_default_dependencies__'),
-            ] + new_node.args.args
+            add_internal_params(new_node.args)
             new_node.args.defaults = [
                 ast_copy(none(), arg) for arg in new_node.args.defaults
             ]
-- 
2.43.0


From 1d6bd9c3a2ca0125e7d1004e1263b33eb963881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:08 +0000
Subject: [PATCH 24/64] fix: super, locals, globals, vars, dir, eval and exec
 used the frame of the collector

---
 .../now/collection/prov_execution/caller.py   | 88 +++++++++++++++++++
 .../collection/prov_execution/collector.py    |  4 +-
 2 files changed, 91 insertions(+), 1 deletion(-)
 create mode 100644 capture/noworkflow/now/collection/prov_execution/caller.py

diff --git a/capture/noworkflow/now/collection/prov_execution/caller.py b/capture/noworkflow/now/collection/prov_execution/caller.py
new file mode 100644
index 0000000..60ed3f9
--- /dev/null
+++ b/capture/noworkflow/now/collection/prov_execution/caller.py
@@ -0,0 +1,88 @@
+# This file is part of noWorkflow.
+# Please, consult the license terms in the LICENSE file.
+"""Builtin functions that use the frame of their caller.
+
+Calls of the script occur inside of the collector. Thus, these functions have
+to receive explicitly what they would obtain from the script.
+"""
+from __future__ import (absolute_import, print_function,
+                        division, unicode_literals)
+
+from ...utils.cross_version import PY3
+
+
+def _variables(frame):
+    """Return variables of the script in frame"""
+    variables = frame.f_locals
+    if variables is frame.f_globals or "__now_function_def__" not in variables:
+        return variables
+    return {name: value for name, value in variables.items()
+            if not name.startswith("__now_")}
+
+
+def _super(frame):
+    """super() -> super(__class__, first_argument)"""
+    def call(*args, **kwargs):
+        current = frame
+        while not args and current is not None:
+            code = current.f_code
+            names = code.co_varnames[:code.co_argcount]
+            if names[:1] == ("__now_activation__",):
+                names = [x for x in names if not x.startswith("__now_")]
+                if names and "__class__" in current.f_locals:
+                    args = (current.f_locals["__class__"],
+                            current.f_locals[names[0]])
+                break
+            current = current.f_back
+        return super(*args, **kwargs)
+    return call
+
+
+def _globals(frame):
+    """globals()"""
+    return lambda: frame.f_globals
+
+
+def _locals(frame):
+    """locals()"""
+    return lambda: _variables(frame)
+
+
+def _vars(frame):
+    """vars() or vars(obj)"""
+    return lambda *args: vars(*args) if args else _variables(frame)
+
+
+def _dir(frame):
+    """dir() or dir(obj)"""
+    return lambda *args: dir(*args) if args else sorted(_variables(frame))
+
+
+def _with_namespaces(function):
+    """eval(source) -> eval(source, globals, locals)"""
+    def replace(frame):
+        def call(*args, **kwargs):
+            if len(args) == 1 and not ("globals" in kwargs or
+                                       "locals" in kwargs):
+                args += (frame.f_globals, frame.f_locals)
+            return function(*args, **kwargs)
+        return call
+    return replace
+
+
+_FUNCTIONS = [
+    (super, _super), (globals, _globals), (locals, _locals), (vars, _vars),
+    (dir, _dir), (eval, _with_namespaces(eval)),
+]
+if PY3:
+    import builtins
+    _exec = getattr(builtins, "exec")
+    _FUNCTIONS.append((_exec, _with_namespaces(_exec)))
+
+
+def bind_to_caller(function, frame):
+    """Replace function by one that uses frame as the frame of its caller"""
+    for original, replace in _FUNCTIONS:
+        if function is original:
+            return replace(frame)
+    return function
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index c645570..01255fa 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -24,6 +24,7 @@ from ...persistence.models import Trial
 from ...utils.cross_version import IMMUTABLE, isiterable, PY3
 from ...utils.cross_version import cross_print, PY38
 
+from .caller import bind_to_caller
 from .structures import AssignAccess, Assign, Generator, FutureActivation
 from .structures import DependencyAware, Dependency, Parameter
 from .structures import MemberDependencyAware, CollectionDependencyAware
@@ -1201,8 +1202,9 @@ class Collector(object):
         #activation = self.last_activation
         eva = activation.evaluation
         result = None
+        func = bind_to_caller(future.func, inspect.currentframe().f_back)
         try:
-            result = future.func(*args, **kwargs)
+            result = func(*args, **kwargs)
         except Exception:
             self.collect_exception(activation)
             raise
-- 
2.43.0


From 0e87c2592feaa53dfbf362efe3fd597a012f3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:43 +0000
Subject: [PATCH 25/64] fix: class with a metaclass of the script aborted the
 script

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 01255fa..993d859 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1338,7 +1338,8 @@ class Collector(object):
                             )
                         else:
                             future.bound_dependency = True
-                    if function_def.__name__ in ("__new__", "__call__"):
+                    if (function_def.__name__ in ("__new__", "__call__") and
+                            activation.func_evaluation is not None):
                         future.bound_dependency = Dependency(
                             activation.func_evaluation, activation.func, "bound"
                         )
-- 
2.43.0


From 01501c23deeaf4d934e04c72d06c62992e93c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:43 +0000
Subject: [PATCH 26/64] fix: unpacking an object of the script started two
 iterations

---
 capture/noworkflow/now/utils/cross_version.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/utils/cross_version.py b/capture/noworkflow/now/utils/cross_version.py
index cbe0552..c6b64af 100644
--- a/capture/noworkflow/now/utils/cross_version.py
+++ b/capture/noworkflow/now/utils/cross_version.py
@@ -74,13 +74,10 @@ def bytes_string(text, encode="utf-8"):
 
 
 def isiterable(element):
-    """Check if element is iterable"""
-    try:
-        iter(element)
-    except TypeError:
-        return False
-    else:
-        return True
+    """Check if element is iterable, without iterating it"""
+    typ = type(element)
+    return (getattr(typ, "__iter__", None) is not None or
+            hasattr(typ, "__getitem__"))
 
 def only(*versions):
     """Check python version"""
-- 
2.43.0


From 9b8dbeaacb169f5ed2da91b60ade5b741e1c6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:26 +0000
Subject: [PATCH 27/64] fix: unpacking sets and dictionaries failed or mixed
 their items

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 993d859..ed71e98 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1000,7 +1000,9 @@ class Collector(object):
     def sub_dependency(self, dep, value, index, clone_depa):
         """Get dependency aware inside of another dependency aware"""
         # pylint: disable=too-many-locals
-        meta = self.metascript
+        if not isinstance(value, (list, tuple)):
+            # the order of the items is not the order of the members
+            return clone_depa, None
         new_eva = None
         val = NOW_UNSET
         sub = []
-- 
2.43.0


From 37241b0fc23f03234c92d3d22c0a868ad0aba479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:09 +0000
Subject: [PATCH 28/64] fix: raise inside of an if did not raise the exception
 being handled

---
 .../collection/prov_definition/transformer_stmt.py  |  3 +++
 .../now/collection/prov_execution/collector.py      | 13 ++++++++++++-
 .../now/collection/prov_execution/structures.py     |  6 +++++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 2ec8a07..2a08e29 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -1103,6 +1103,9 @@ class RewriteAST(ast.NodeTransformer):
         # ToDo: collect raise
         raise_id = self.create_ast_component(node, Component.RAISE)
         self.create_composition(raise_id, *self.composition_edge)
+        if PY3 and node.exc is None:
+            # ifs are transformed into exception handlers
+            return ast_copy(raise_(noworkflow('script_exception', [])), node)
         return node
 
     def visit_Try(self, node):
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index ed71e98..976bdec 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -28,7 +28,8 @@ from .caller import bind_to_caller
 from .structures import AssignAccess, Assign, Generator, FutureActivation
 from .structures import DependencyAware, Dependency, Parameter
 from .structures import MemberDependencyAware, CollectionDependencyAware
-from .structures import ConditionExceptions, WithContext
+from .structures import ConditionExceptions, ConditionExceptionBase
+from .structures import WithContext
 
 NOW_UNSET = "<now_unset>"
 
@@ -450,6 +451,16 @@ class Collector(object):
             result = sys.modules[now_activation.name]
         self.close_activation(now_activation, result, None)
 
+    def script_exception(self):
+        """Return the exception that the script is handling"""
+        # pylint: disable=no-self-use
+        exception = sys.exc_info()[1]
+        while isinstance(exception, ConditionExceptionBase):
+            exception = exception.__context__
+        if exception is None:
+            return RuntimeError("No active exception to reraise")
+        return exception
+
     def collect_exception(self, activation, exc_handler=None):
         """Collect activation exceptions"""
         exc = sys.exc_info()
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index d833ced..c12b249 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -59,6 +59,10 @@ class Assign(namedtuple("Assign", "checkpoint value dependency")):
             self.generators[obj_id].extend(generator)
 
 
+class ConditionExceptionBase(Exception):
+    """Base of the exceptions that select the body of ifs"""
+
+
 class ConditionExceptions(object):
     """Exception factory for handling ifs transformed into tries"""
     # pylint: disable=too-few-public-methods
@@ -67,7 +71,7 @@ class ConditionExceptions(object):
 
     def __getitem__(self, item):
         if item not in self.exceptions:
-            class ConditionException(Exception):
+            class ConditionException(ConditionExceptionBase):
                 """If body Exception"""
                 pass
             self.exceptions[item] = ConditionException
-- 
2.43.0


From 8ee746e194d0f7d00288f3daa5e09a8dc62f65b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:02 +0000
Subject: [PATCH 29/64] fix: dependencies of generators on the items they
 produce

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 976bdec..858cb06 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -841,6 +841,10 @@ class Collector(object):
                 assign.generators[id(generator.value)].append(
                     (code_id, value, checkpoint, dependency)
                 )
+            if generator is not None and generator.evaluation is not None:
+                item_depa = DependencyAware()
+                item_depa.add(copy(dependency))
+                self.create_dependencies(generator.evaluation, item_depa)
         return value
 
     def yielditem(self, activation, code_id, exc_handler):
-- 
2.43.0


From 9cb078cadbd6241b07eb8817172cd87ba99005af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:36 +0000
Subject: [PATCH 30/64] fix: defaults of keyword-only parameters shift the ones
 of positional parameters

---
 .../now/collection/prov_execution/collector.py       | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 858cb06..d7dcf87 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1528,9 +1528,12 @@ class Collector(object):
         if not activation.active:
             return self.as_is
         # pylint: disable=too-many-locals, too-many-branches
-        # ToDo: use kw_defaults from default_values # pylint: disable=unused-variable
         time = self.time()
-        defaults = default_dependencies.dependencies
+        # dependencies of the defaults of args, followed by the ones of
+        # the defaults of kwonlyargs
+        amount = len(default_values[0])
+        defaults = default_dependencies.dependencies[:amount]
+        kw_defaults = iter(default_dependencies.dependencies[amount:])
         args, vararg, kwarg, kwonlyargs = params
 
         arguments = []
@@ -1557,8 +1560,11 @@ class Collector(object):
         if vararg:
             parameters[vararg[0]] = Parameter(*vararg, is_vararg=True)
         if kwonlyargs:
+            with_default = getattr(function_def, "__kwdefaults__", None) or {}
             for arg in kwonlyargs:
-                parameters[arg[0]] = Parameter(*arg)
+                param = parameters[arg[0]] = Parameter(*arg)
+                if arg[0] in with_default:
+                    param.default = next(kw_defaults, None)
         if kwarg:
             parameters[kwarg[0]] = Parameter(*kwarg)
 
-- 
2.43.0


From 893cce9d9d912696dc8756ce7c1236dc9b0cbaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:59 +0000
Subject: [PATCH 31/64] fix: variadic parameters lose arguments and record the
 wrong value

---
 .../collection/prov_execution/collector.py    | 42 +++++++++----------
 .../collection/prov_execution/structures.py   |  4 +-
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d7dcf87..00def2e 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1566,7 +1566,7 @@ class Collector(object):
                 if arg[0] in with_default:
                     param.default = next(kw_defaults, None)
         if kwarg:
-            parameters[kwarg[0]] = Parameter(*kwarg)
+            parameters[kwarg[0]] = Parameter(*kwarg, is_kwarg=True)
 
         parameter_order = list(viewvalues(parameters))
         last_unfilled = 0
@@ -1609,11 +1609,15 @@ class Collector(object):
             arg.mode = "argument"
             if arg is bound_dependency and new_bind:
                 evaluation = bound_dependency.evaluation
-            else: 
+            elif param.is_vararg or param.is_kwarg:
+                # evaluated after all the arguments that it receives
+                param.received.add(arg)
+                return
+            else:
                 depa = DependencyAware()
                 depa.add(arg)
                 evaluation = self.evaluate_depa(
-                    activation, param.code_id, arg.value, time, depa
+                    activation, param.code_id, param.value, time, depa
                 )
                 arg.mode = "argument"
             activation.context[param.name] = evaluation
@@ -1650,24 +1654,17 @@ class Collector(object):
 
         # Match keywords
         for keyword in keywords:
-            param = None
-            if keyword.arg in parameters:
-                key = keyword.arg
-                param = parameters[key]
-            elif kwarg:
-                key = kwarg[0]
-                param = parameters[key]
-            if param is not None:
-                match(keyword, param)
-                new_kwargs[key] = keyword.value
-                param.filled = True
-            elif keyword.arg == "**":
-                for key in viewkeys(keyword.value):
-                    if key in parameters:
-                        param = parameters[key]
-                        match(keyword, param)
-                        new_kwargs[key] = keyword.value
-                        param.filled = True
+            names = [keyword.arg]
+            if keyword.arg == "**":
+                names = viewkeys(keyword.value)
+            for key in names:
+                param = parameters.get(key)
+                if param is None or param.is_vararg or param.is_kwarg:
+                    param = parameters[kwarg[0]] if kwarg else None
+                if param is not None:
+                    match(keyword, param)
+                    new_kwargs[key] = keyword.value
+                    param.filled = True
 
         # Default parameters
         for param in viewvalues(parameters):
@@ -1679,7 +1676,8 @@ class Collector(object):
         for param in viewvalues(parameters):
             if param.name not in activation.context:
                 evaluation = self.evaluate_depa(
-                    activation, param.code_id, param.value, time, None
+                    activation, param.code_id, param.value, time,
+                    param.received or None
                 )
                 activation.context[param.name] = evaluation
 
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index c12b249..bc75af1 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -193,10 +193,12 @@ class Dependency(object):
 
 class Parameter(object):
 
-    def __init__(self, name, code_id, value, is_vararg=False):
+    def __init__(self, name, code_id, value, is_vararg=False, is_kwarg=False):
         self.name = name
         self.code_id = code_id
         self.is_vararg = is_vararg
+        self.is_kwarg = is_kwarg
+        self.received = DependencyAware()
         self.filled = False
         self.default = None
         self.value = value
-- 
2.43.0


From 7307cfec5af41fd481055f1780f3e19c2297367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:12 +0000
Subject: [PATCH 32/64] fix: representing values executed and recorded __repr__
 of the script as calls

---
 .../now/collection/prov_execution/collector.py        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 00def2e..f783608 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -135,7 +135,16 @@ class Collector(object):
                 repr_fn = original_def
             except AttributeError:
                 pass
-        return repr_fn(value)
+        activation = self.last_activation
+        # Calls to __repr__ of objects inside of value do not belong to script
+        self.dry_activation(activation)
+        try:
+            return repr_fn(value)
+        except Exception:  # pylint: disable=broad-except
+            # value may be incomplete. Do not affect the script
+            return object.__repr__(value)
+        finally:
+            self.last_activation = activation
 
     def as_is(self, value):
         """Return value without any processing"""
-- 
2.43.0


From b9f3bea6acb7e1a3a4e9758937a6c4c038d3550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 33/64] fix: calls below the depth limit lost the last
 activation or aborted the script

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index f783608..b199807 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -403,6 +403,7 @@ class Collector(object):
             exc_handler=float('inf'), # do not delete
         ))
         activation.parent = act
+        activation.last_activation = self.last_activation
         self.last_activation = activation
         return activation
 
@@ -1398,7 +1399,8 @@ class Collector(object):
                     activation, function_def, args, kwargs, default_values, defaults, *args, **kwargs
                 )
                 bound_dependency = activation.bound_dependency
-                if function_def.__name__ == "__init__" and bound_dependency:
+                if (function_def.__name__ == "__init__" and bound_dependency and
+                        activation.active):
                     old_mode = bound_dependency.mode
                     depa = DependencyAware()
                     value = args[0]
-- 
2.43.0


From 0cdebca7815162e1780e09114ee293cf7c14a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 34/64] fix: nested implicit calls of a function shared the
 activation of the outer call

---
 .../noworkflow/now/collection/prov_execution/collector.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index b199807..0651b43 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1331,7 +1331,10 @@ class Collector(object):
                 Pass __now_activation__ as parameter
                 """
                 activation = self.last_activation
-                if activation.active and activation.name != function_def.__name__: # White box after black box call
+                # White box after black box call, or call without an activation
+                if activation.active and (
+                        activation.name != function_def.__name__ or
+                        activation.code_block_id != -1):
                     is_augassign = function_def.__name__ in {
                         '__iadd__', '__isub__', '__imul__', '__imatmul__', '__itruediv__', 
                         '__ifloordiv__', '__imod__', '__ipow__', '__ilshift__', '__irshift__', 
-- 
2.43.0


From 177fb8970badb5ee48dc9f671c38c99cd3a9165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:32 +0000
Subject: [PATCH 35/64] fix: evaluations of calls to generators were replaced
 by what they return

---
 .../noworkflow/now/collection/prov_execution/collector.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 0651b43..0ca8a29 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1708,9 +1708,11 @@ class Collector(object):
         """Capture return after"""
         dependency_aware = activation.dependencies.pop()
         evaluation = activation.evaluation
-        reference = self.find_reference_dependency(value, dependency_aware)
-        evaluation.repr = self.get_value(value)
-        evaluation.set_reference(reference)
+        if not evaluation.is_complete():
+            # The value of a call to a generator is not what it returns
+            reference = self.find_reference_dependency(value, dependency_aware)
+            evaluation.repr = self.get_value(value)
+            evaluation.set_reference(reference)
         self.make_dependencies(activation, evaluation, dependency_aware)
         return value
 
-- 
2.43.0


From c3193a9678bb3d9139e5c3b2cd32f880cec66a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:34 +0000
Subject: [PATCH 36/64] fix: calling an object of the script executed its
 __getattr__

---
 .../noworkflow/now/collection/prov_execution/caller.py | 10 ++++++++++
 .../now/collection/prov_execution/collector.py         |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/caller.py b/capture/noworkflow/now/collection/prov_execution/caller.py
index 60ed3f9..f2bd45c 100644
--- a/capture/noworkflow/now/collection/prov_execution/caller.py
+++ b/capture/noworkflow/now/collection/prov_execution/caller.py
@@ -11,6 +11,16 @@ from __future__ import (absolute_import, print_function,
 from ...utils.cross_version import PY3
 
 
+def own_attribute(obj, name, default):
+    """Return attribute of obj without executing __getattr__ of the script"""
+    if hasattr(type(obj), "__getattr__"):
+        try:
+            return object.__getattribute__(obj, name)
+        except AttributeError:
+            return default
+    return getattr(obj, name, default)
+
+
 def _variables(frame):
     """Return variables of the script in frame"""
     variables = frame.f_locals
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 0ca8a29..c1285b3 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -24,7 +24,7 @@ from ...persistence.models import Trial
 from ...utils.cross_version import IMMUTABLE, isiterable, PY3
 from ...utils.cross_version import cross_print, PY38
 
-from .caller import bind_to_caller
+from .caller import bind_to_caller, own_attribute
 from .structures import AssignAccess, Assign, Generator, FutureActivation
 from .structures import DependencyAware, Dependency, Parameter
 from .structures import MemberDependencyAware, CollectionDependencyAware
@@ -1186,7 +1186,7 @@ class Collector(object):
         if activation.active:
             future = self.future_activation[-1]
             future.dependencies[-1].add(dependency)
-            if hasattr(func, '__self__'):
+            if own_attribute(func, '__self__', NOW_UNSET) is not NOW_UNSET:
                 future.bound_dependency = self.current_attr or True
             future.func_evaluation = dependency.evaluation
 
@@ -1196,7 +1196,7 @@ class Collector(object):
         """Capture call before"""
         # pylint: disable=too-many-arguments
         future = FutureActivation(
-            getattr(func, '__name__', type(func).__name__),
+            own_attribute(func, '__name__', type(func).__name__),
             code_id, activation, func, mode
         )
         depa = DependencyAware(
-- 
2.43.0


From ed4be77e7bfce96d5d9c4d69959afec5b9216d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:05 +0000
Subject: [PATCH 37/64] fix: calls executed the function of another call whose
 arguments raised an exception

---
 .../collection/prov_execution/collector.py    | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index c1285b3..cf4cf07 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -14,7 +14,7 @@ import inspect
 from collections import OrderedDict
 from copy import copy
 from datetime import datetime, timedelta
-from functools import wraps
+from functools import partial, wraps
 from types import GeneratorType
 
 from future.utils import viewvalues, viewkeys, viewitems, exec_
@@ -101,7 +101,7 @@ class Collector(object):
         )
         self.first_activation.depth = 0
         self.last_activation = self.first_activation
-        self.future_activation = []
+        self.future_activation = None
         self.class_closures = []
         self.shared_types = {}
 
@@ -1184,7 +1184,7 @@ class Collector(object):
         result = self.call(activation, code_id, depa.exc_handler, func, mode)
 
         if activation.active:
-            future = self.future_activation[-1]
+            future = self.future_activation
             future.dependencies[-1].add(dependency)
             if own_attribute(func, '__self__', NOW_UNSET) is not NOW_UNSET:
                 future.bound_dependency = self.current_attr or True
@@ -1204,14 +1204,16 @@ class Collector(object):
             code_id=code_id,
         )
         future.dependencies.append(depa)
-        self.future_activation.append(future)
+        self.future_activation = future
 
         activation.dependencies.append(depa)
-        return self._call
+        # calls may be abandoned, when their arguments raise exceptions
+        return partial(self._call, future)
 
-    def _call(self, *args, **kwargs):
-        """Capture call activation"""        
-        future = self.future_activation.pop()
+    def _call(*args, **kwargs):
+        """Capture call activation"""
+        # pylint: disable=no-method-argument
+        self, future, args = args[0], args[1], args[2:]
         parent_activation = future.activation
         parent_depa = parent_activation.dependencies.pop()
         if future.activation.active:
@@ -1343,7 +1345,7 @@ class Collector(object):
                     _call = self.call(
                         activation, block_id, defaults.exc_handler, new_function_def, 'internal'
                     )
-                    future = self.future_activation[-1]
+                    future = self.future_activation
                     if is_augassign:
                         assign = activation.assignments[-1]
                         future.dependencies[0].replace(assign.dependency.clone(mode="argument", kind="argument"))
-- 
2.43.0


From 28600b1b25a2fba67981bf6b211553fc460716ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:30 +0000
Subject: [PATCH 38/64] fix: comprehensions below the depth limit were empty

---
 .../noworkflow/now/collection/prov_execution/collector.py  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index cf4cf07..f03225e 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1132,9 +1132,9 @@ class Collector(object):
         return self.assign(activation, assign.sub(new_value, depas), star, back + 1)
 
     def assign(self, activation, assign, target_expr, back=1):
-        """Create dependencies"""
+        """Create dependencies. Return a true value for comprehensions"""
         if not activation.active:
-            return 0
+            return 1
         ldepa = []
         _, _, depa = assign
         if isinstance(depa, list):
@@ -1145,7 +1145,8 @@ class Collector(object):
         if type_ == "access":
             return self.assign_access(activation, assign, target_info, depa, back + 1)
         if type_ == "multiple":
-            return self.assign_multiple(activation, assign, target_info, depa, ldepa, back + 1)
+            self.assign_multiple(activation, assign, target_info, depa, ldepa, back + 1)
+            return 1
 
     def withitem(self, activation, code_id, exc_handler):
         activation.dependencies.append(CollectionDependencyAware(
-- 
2.43.0


From fe7435c13d59aea61dd2b2835d6a47d320092023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:30 +0000
Subject: [PATCH 39/64] fix: functions called by others with fewer arguments
 aborted the script

---
 .../now/collection/prov_execution/collector.py         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index f03225e..509d138 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1641,13 +1641,17 @@ class Collector(object):
 
         # Match args
         for arg in arguments:
+            if last_unfilled >= len(parameter_order):
+                # Implicit calls may have less arguments than the outer call
+                break
             if arg is None:
                 param = parameter_order[last_unfilled]
                 param.filled = True
                 last_unfilled += 1
             elif arg.arg == "*":
                 new_args.extend(arg.value)
-                for _ in range(len(arg.value)):
+                for _ in range(min(
+                        len(arg.value), len(parameter_order) - last_unfilled)):
                     param = parameter_order[last_unfilled]
                     match(arg, param)
                     if param.is_vararg:
@@ -1661,10 +1665,6 @@ class Collector(object):
                 if not param.is_vararg:
                     param.filled = True
                     last_unfilled += 1
-                if (((function_def.__name__ == "__enter__") or (function_def.__name__ == "__exit__")) 
-                    and (last_unfilled >= len(parameter_order))):
-                    break
-       
 
         if vararg:
             parameters[vararg[0]].filled = True
-- 
2.43.0


From bd85dd08ca8c92dd9a4cd61c13523b26c2ffc8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:07 +0000
Subject: [PATCH 40/64] fix: accesses below the depth limit left dependencies
 behind and aborted collections

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 509d138..fcd3d17 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -277,6 +277,7 @@ class Collector(object):
                 addr = "[{}]".format(nvindex)
                 value = vcontainer[vindex]
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     collection = value_dep.evaluation
@@ -286,6 +287,7 @@ class Collector(object):
                 addr = ".{}".format(vindex)
                 value = getattr(vcontainer, vindex)
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     self.full_member_lookup(
-- 
2.43.0


From d1115a399ece3eee54ffd2b6c53158d36b86f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:10 +0000
Subject: [PATCH 41/64] fix: members with keys that are texts had two names,
 and negative indexes required a length

---
 .../collection/prov_execution/collector.py    | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index fcd3d17..4e9c2d8 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -254,6 +254,13 @@ class Collector(object):
         else:
             return self.simple_member_lookup(collection, addr, value, depa)
 
+    def item_address(self, vcontainer, vindex):
+        """Return key of the member of vcontainer at vindex"""
+        if (isinstance(vcontainer, (list, tuple)) and
+                isinstance(vindex, int) and vindex < 0):
+            vindex += len(vcontainer)
+        return "[{}]".format(self.get_value(vindex))
+
     def __getitem__(self, index):
         # pylint: disable=too-many-locals
         operation, subindex = index
@@ -271,10 +278,7 @@ class Collector(object):
             if value_dep is not None:
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
-                addr = "[{}]".format(nvindex)
+                addr = self.item_address(vcontainer, vindex)
                 value = vcontainer[vindex]
                 if not activation.active:
                     activation.dependencies.pop()
@@ -362,10 +366,7 @@ class Collector(object):
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
 
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
-                addr = "[{}]".format(nvindex)
+                addr = self.item_address(vcontainer, vindex)
                 vcontainer[vindex] = value
             elif access == ".":
                 setattr(vcontainer, vindex, value)
@@ -647,7 +648,7 @@ class Collector(object):
             evaluation = self.eval_dep(activation, code_id, value, mode, depa)
             same = evaluation.same()
             for key, part, checkpoint in depa.items:
-                tkey = "[{0!r}]".format(key)
+                tkey = "[{}]".format(self.get_value(key))
                 same.members[tkey] = part
                 self.members.add_object(
                     self.trial_id, same.activation_id, same.id,
@@ -747,7 +748,7 @@ class Collector(object):
             dependency.sub_dependencies.extend(depa.dependencies)
             activation.dependencies[-1].add(dependency)
             for key, part, checkpoint in depa.items:
-                tkey = "[{0!r}]".format(key)
+                tkey = "[{}]".format(self.get_value(key))
                 same.members[tkey] = part
                 self.members.add_object(
                     self.trial_id, same.activation_id, same.id,
-- 
2.43.0


From ed2923336f4ad095d02f5c5520abefa3c17d4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 42/64] fix: calls and arguments evaluated by generators were
 given to the consumer of the generator

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 4e9c2d8..e8c6734 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1263,7 +1263,7 @@ class Collector(object):
 
                 # Just add dependency if it is expecting one
                 dependency = Dependency(eva, result, future.dependency_type)
-                self.last_activation.dependencies[-1].add(dependency)
+                parent_activation.dependencies[-1].add(dependency)
                 if activation.generator is not None:
                     activation.generator.evaluation = eva
                     activation.generator.dependency = dependency
@@ -1309,7 +1309,7 @@ class Collector(object):
             dependency.arg = arg
             dependency.kind = kind
 
-            self.last_activation.dependencies[-1].add(dependency)
+            activation.dependencies[-1].add(dependency)
 
         return value
 
-- 
2.43.0


From 4afb194a379eb00b0dff7cc463258ea2dde16101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:26 +0000
Subject: [PATCH 43/64] fix: removing a record from a store raised RuntimeError

---
 capture/noworkflow/now/persistence/lightweight/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/lightweight/base.py b/capture/noworkflow/now/persistence/lightweight/base.py
index 1651e4e..46afd6a 100644
--- a/capture/noworkflow/now/persistence/lightweight/base.py
+++ b/capture/noworkflow/now/persistence/lightweight/base.py
@@ -65,7 +65,7 @@ class ObjectStore(object):
 
     def remove(self, value):
         """Remove object from storage"""
-        for key, val in viewitems(self.store):
+        for key, val in list(viewitems(self.store)):
             if val == value:
                 #self.order.remove(key)
                 del self.store[key]
-- 
2.43.0


From b7796167cea558dd021a909ef5632df48c1b38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:37 +0000
Subject: [PATCH 44/64] fix: code blocks of activations were lost by partial
 saves

---
 .../noworkflow/now/persistence/lightweight/activation.py  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/persistence/lightweight/activation.py b/capture/noworkflow/now/persistence/lightweight/activation.py
index 8fe6c61..ea42542 100644
--- a/capture/noworkflow/now/persistence/lightweight/activation.py
+++ b/capture/noworkflow/now/persistence/lightweight/activation.py
@@ -106,9 +106,11 @@ class ActivationLW(BaseLW):
 
 
     def is_complete(self):
-        """Activation can always be removed from object store"""
-        # pylint: disable=no-self-use
-        return True
+        """Activation can only be removed from object store
+        if its evaluation is complete, since its code block is set while
+        it executes
+        """
+        return self.evaluation.is_complete()
 
     def __repr__(self):
         return (
-- 
2.43.0


From 990399693d180e776c27a508cf0be283c40d6121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:37 +0000
Subject: [PATCH 45/64] fix: unpacked generators recorded dependencies of an
 invalid activation

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index e8c6734..d66dbc1 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1085,7 +1085,7 @@ class Collector(object):
                     new_depa = clone_depa.clone(extra_only=True)
                     new_depa.add(idep)
                     self.create_dependencies_id(
-                        activation, dep.evaluation.id, new_depa
+                        activation.id, dep.evaluation.id, new_depa
                     )
                     return new_depa.clone(mode="assign"), idep.evaluation
                     #return self.sub_dependency(dep, value, index, clone_depa)
-- 
2.43.0


From 18dcca625283f764f797fed30d5675ace7b85a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:12 +0000
Subject: [PATCH 46/64] fix: files of directories named as the project followed
 by a suffix could not be committed to the git content database

---
 capture/noworkflow/now/persistence/content/gitbase.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index eb224d0..2de158b 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -61,12 +61,17 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
             return filename
         return "{} - v{}".format(filename, count)
 
+    @staticmethod
+    def _is_inside(filename, directory):
+        """Check if file is in directory or in one of its subdirectories"""
+        return filename.startswith(os.path.join(directory, ""))
+
     def _inc_name(self, filename):
         """Define name for file in repository"""
         filename = os.path.abspath(filename)
-        if filename.startswith(self.base_path):
+        if self._is_inside(filename, self.base_path):
             filename = os.path.relpath(filename, self.base_path)
-        elif filename.startswith(self.user_path):
+        elif self._is_inside(filename, self.user_path):
             filename = os.path.join("noworkflow_home", os.path.relpath(filename, self.user_path))
         else:
             drive, rest = os.path.splitdrive(filename)
-- 
2.43.0


From a90a95875b1b4c0d58d874d6edc6e8f85680718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:48 +0000
Subject: [PATCH 47/64] fix: names refused by git, or repeated names, broke or
 hid files of the git content database

---
 .../now/persistence/content/gitbase.py        | 46 ++++++++++++++++---
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index 2de158b..59ad529 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -1,4 +1,5 @@
 import os
+import re
 import hashlib
 
 from collections import Counter
@@ -10,6 +11,9 @@ from .base import ContentDatabaseEngine
 
 GIT_DATABASE_DIR = 'content.git'
 
+# Names that git refuses in trees
+REFUSED_NAME = re.compile(r"(\.git|git~1)([ .]*|[:\\].*)$", re.IGNORECASE)
+
 
 class GitContentDatabaseEngine(ContentDatabaseEngine):
     def __init__(self, config):
@@ -19,6 +23,8 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
         self._commit_ref = 'refs/heads/master'
         self._initial_message = "Initial Commit"
         self.name_counter = Counter()
+        self.file_names = set()
+        self.directory_names = set()
         self.base_path = None
         self.user_path = os.path.expanduser("~")
         self._max_filename_size = 4096
@@ -52,14 +58,40 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
 
         return self.create_commit_object(message, tree_hashes[''])
 
-    def _increment(self, filename):
-        """Increment filename to avoid collisions"""
-        filename = filename.strip()
-        self.name_counter[filename] += 1
-        count = self.name_counter[filename] 
+    def _valid_name(self, name):
+        """Return name that git accepts in a tree"""
+        if not name or REFUSED_NAME.match(name):
+            return "noworkflow_" + name
+        return name
+
+    def _version(self, name):
+        """Return next version of name"""
+        self.name_counter[name] += 1
+        count = self.name_counter[name]
         if count == 1:
-            return filename
-        return "{} - v{}".format(filename, count)
+            return name
+        return "{} - v{}".format(name, count)
+
+    def _increment(self, filename):
+        """Increment filename to avoid collisions
+
+        A tree cannot have two files with the same name, nor a file and a
+        directory with the same name
+        """
+        parts = [self._valid_name(x) for x in filename.strip().split(os.sep)]
+        directory = ""
+        for part in parts[:-1]:
+            path = directory = os.path.join(directory, part)
+            while directory in self.file_names:
+                directory = self._version(path)
+            self.directory_names.add(directory)
+
+        path = os.path.join(directory, parts[-1])
+        result = self._version(path)
+        while result in self.file_names or result in self.directory_names:
+            result = self._version(path)
+        self.file_names.add(result)
+        return result
 
     @staticmethod
     def _is_inside(filename, directory):
-- 
2.43.0


From 5c66eeb915bbbce526c28dc5b4c0cb2b51e6ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:48 +0000
Subject: [PATCH 48/64] fix: searching a hash with the dulwich engine raised
 TypeError

---
 capture/noworkflow/now/persistence/content/dulwich_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index fe13a10..e2e8909 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -67,7 +67,9 @@ class DulwichEngine(GitContentDatabaseEngine):
         """Find hash in git"""
         try:
             content_hash = content_hash.encode("utf-8")
-            result = scan_for_short_id(self.repo.object_store, content_hash)
+            result = scan_for_short_id(
+                self.repo.object_store, content_hash, Blob
+            )
             if result:
                 return result.id.decode("utf-8")
         except KeyError:
-- 
2.43.0


From c7a65c85128f5a9c6d6ddad6b68a7258fbd68aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:48 +0000
Subject: [PATCH 49/64] fix: searching a hash with the puregit engine printed
 messages and returned bytes or names of files

---
 capture/noworkflow/now/persistence/content/git_system.py | 9 ++++-----
 .../noworkflow/now/persistence/content/puregit_engine.py | 9 ++-------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index 3d93ed7..f5457db 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -97,11 +97,10 @@ def count_loose_objects(git_path):
 
 
 def all_objects(git_path):
-    cmd = ["git", "rev-list", "--objects", "--all"]
-    out = execute(cmd, cwd=git_path)
-    if out:
-        return [x.strip() for x in out.split() if x.strip()]
-    return []
+    cmd = ["git", "cat-file", "--batch-all-objects",
+           "--batch-check=%(objecttype) %(objectname)"]
+    lines = execute(cmd, cwd=git_path).decode().splitlines()
+    return [x.split()[1] for x in lines if x.startswith("blob ")]
 
 
 def show_ref(ref, git_path):
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index d11b414..fb8b792 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -46,13 +46,8 @@ class PureGitEngine(GitContentDatabaseEngine):
 
     def find_subhash(self, content_hash):
         """Find hash in database"""
-        bytes_content_hash = content_hash.encode("utf-8")
-        print(bytes_content_hash)
-        objects = git_system.all_objects(self.content_path)
-        print(objects)
-        for obj in objects:
-            print(obj)
-            if obj.startswith(bytes_content_hash):
+        for obj in git_system.all_objects(self.content_path):
+            if obj.startswith(content_hash):
                 return obj
         return None
 
-- 
2.43.0


From 49f960c26b806ae672aed9e807333838db9c01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:33 +0000
Subject: [PATCH 50/64] fix: the dulwich engine returned texts with replaced
 bytes instead of the stored contents

---
 capture/noworkflow/now/persistence/content/dulwich_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index e2e8909..9305039 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -60,7 +60,7 @@ class DulwichEngine(GitContentDatabaseEngine):
         with self.use_safe_open():
             return_data = self.repo.__getitem__(
                 content_hash.encode()
-            ).as_pretty_string()
+            ).as_raw_string()
             return return_data
 
     def find_subhash(self, content_hash):
-- 
2.43.0


From 763fbfc3354dc25333ca7a73f35051dd42fd0e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:21 +0000
Subject: [PATCH 51/64] fix: the puregit engine could not be used without a
 configured git user

---
 capture/noworkflow/now/persistence/content/git_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index f5457db..56901b9 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -81,6 +81,7 @@ def commit_tree(tree_hash, commit_message, git_path, author=None, parent=None):
     if author:
         env = env.copy()
         env["GIT_AUTHOR_NAME"], env["GIT_AUTHOR_EMAIL"] = author
+        env["GIT_COMMITTER_NAME"], env["GIT_COMMITTER_EMAIL"] = author
     return execute(cmd, cwd=git_path, env=env).decode().replace("\n", "")
 
 
-- 
2.43.0


From 9ee63b9f2dd74c206b7afa9582b951f6df9b404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:33 +0000
Subject: [PATCH 52/64] fix: interrupted writes left truncated contents in the
 plain content database

---
 .../now/persistence/content/plain_engine.py         | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index a7e0143..7027c28 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -1,6 +1,7 @@
 import hashlib
 import os
 from os.path import join, isdir, isfile
+from uuid import uuid4
 
 from .base import ContentDatabaseEngine
 from .parallel import create_distributed, create_pool, create_threading
@@ -31,8 +32,16 @@ class PlainEngine(ContentDatabaseEngine):
             os.makedirs(content_dirname)
         content_filename = join(content_dirname, content_hash[2:])
         if not isfile(content_filename):
-            with safeopen.std_open(content_filename, "wb") as content_file:
-                content_file.write(content)
+            # An interrupted write must not leave a truncated content
+            temp_filename = "{}-{}.tmp".format(content_path, uuid4().hex)
+            try:
+                with safeopen.std_open(temp_filename, "wb") as content_file:
+                    content_file.write(content)
+                os.rename(temp_filename, content_filename)
+            except Exception:
+                if isfile(temp_filename):
+                    os.remove(temp_filename)
+                raise
         return content_hash
 
     def put_attr(self, content, filename):
-- 
2.43.0


From cbbdbadade9746c628779f272b2166bcc2fe1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:18 +0000
Subject: [PATCH 53/64] fix: simultaneous writes to the plain content database
 failed when both created a directory

---
 capture/noworkflow/now/persistence/content/plain_engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index 7027c28..169779d 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -17,7 +17,7 @@ class PlainEngine(ContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not isdir(self.content_path):
-            os.makedirs(self.content_path)
+            os.makedirs(self.content_path, exist_ok=True)
 
     def set_path(self, config):
         """Set content path"""
@@ -29,7 +29,7 @@ class PlainEngine(ContentDatabaseEngine):
         content_hash = hashlib.sha1(content).hexdigest()
         content_dirname = join(content_path, content_hash[:2])
         if not isdir(content_dirname):
-            os.makedirs(content_dirname)
+            os.makedirs(content_dirname, exist_ok=True)
         content_filename = join(content_dirname, content_hash[2:])
         if not isfile(content_filename):
             # An interrupted write must not leave a truncated content
-- 
2.43.0


From 80d36a1263703cfb6ae179bd2fcf7f3849b17a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:37 +0000
Subject: [PATCH 54/64] fix: looking up attributes broke objects with slots,
 and executed __getattr__ of descriptors

---
 .../now/collection/prov_execution/collector.py  | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d66dbc1..55009c4 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -70,6 +70,11 @@ OPEN_MODES = {
 }
 
 
+def is_accessor(value):
+    """Check if value is a descriptor, without executing code of the script"""
+    return inspect.getattr_static(type(value), "__get__", None) is not None
+
+
 class Collector(object):
     """Collector called by the transformed AST. __noworkflow__ object"""
     # pylint: disable=too-many-instance-attributes
@@ -228,14 +233,18 @@ class Collector(object):
             # Default implementation
             if vindex in cls_value.__dict__:
                 accessor = cls_value.__dict__[vindex]
-                if hasattr(accessor, '__get__'):
+                if is_accessor(accessor):
                     # ToDo: accessor provenance
                     return False
-            if vindex in vcontainer.__dict__:
+            try:
+                attributes = object.__getattribute__(vcontainer, "__dict__")
+            except AttributeError:
+                attributes = ()  # object with slots
+            if vindex in attributes:
                 # In instance
                 if isinstance(vcontainer, type):
-                    accessor = vcontainer.__dict__[vindex]
-                    if hasattr(accessor, '__get__'):
+                    accessor = attributes[vindex]
+                    if is_accessor(accessor):
                         # ToDo: accessor provenance
                         return False
                 return self.simple_member_lookup(collection, addr, value, depa)
-- 
2.43.0


From 59abc3c15de7c805ce0e8c284fa541b4b0c3f6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:49 +0000
Subject: [PATCH 55/64] fix: file accesses recorded wrong contents, modes and
 names, and broke openings of devices, directories and keyword names

---
 .../collection/prov_execution/collector.py    | 87 +++++++++++++------
 .../collection/prov_execution/execution.py    |  6 +-
 .../persistence/lightweight/file_access.py    |  3 +-
 3 files changed, 67 insertions(+), 29 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 55009c4..b05f139 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -155,48 +155,85 @@ class Collector(object):
         """Return value without any processing"""
         return value
 
-    def new_open(self, old_open, osopen=False):
+    def store_file(self, file_access):
+        """Store content of the accessed file. Return its hash"""
+        # pylint: disable=no-self-use
+        if not os.path.isfile(file_access.path):
+            # Directories have no content, and devices may have no end
+            return None
+        try:
+            with content.std_open(file_access.path, "rb") as fil:
+                data = fil.read()
+        except (IOError, OSError):
+            # Unreadable file. Do not affect the script
+            return None
+        return content.put(data, file_access.name)
+
+    def new_open(self, old_open, osopen=False,
+                 parameters=("file", "mode", "buffering")):
         """Wrap the open builtin function to register file access"""
-        def open(name, *args, **kwargs):  # pylint: disable=redefined-builtin
+        def open(*args, **kwargs):  # pylint: disable=redefined-builtin
             """Open file and add it to file_accesses"""
+            informed = dict(zip(parameters, args))
+            informed.update(kwargs)
+            name = informed.get(parameters[0])
             if content.should_use_safe_open():
-                return old_open(name, *args, **kwargs)
+                return old_open(*args, **kwargs)
             if isinstance(name, int):
                 # ToDo: support file descriptor
-                return old_open(name, *args, **kwargs)
+                return old_open(*args, **kwargs)
             activation = self.last_activation
             while activation and not activation.active:
                 activation = activation.parent
 
             if not activation:
-                return old_open(name, *args, **kwargs)
+                return old_open(*args, **kwargs)
+            try:
+                name = os.fsdecode(name)
+                path = os.path.join(os.getcwd(), name)
+            except (TypeError, OSError):
+                # Invalid name or invalid directory
+                return old_open(*args, **kwargs)
             # Create a file access object with default values
             file_access = self.file_accesses.add_object(
                 self.trial_id, name, self.get_time()
             )
-            if os.path.exists(name):
-                # Read previous content if file exists
-                with content.std_open(name, "rb") as fil:
-                    file_access.content_hash_before = content.put(fil.read(), name)
+            # The script may change its directory before the end of the access
+            file_access.path = path
+            # Read previous content if file exists
+            file_access.content_hash_before = self.store_file(file_access)
             file_access.activation_id = activation.id
-            # Update with the informed keyword arguments (mode / buffering)
-            file_access.update(kwargs)
-            # Update with the informed positional arguments
-            if len(args) > 1:
-                file_access.buffering = args[1]
-            elif args:
-                mode = args[0]
-                if osopen:
-                    mode = ""
+            # Update with the informed arguments (mode / buffering)
+            if "buffering" in informed:
+                file_access.buffering = informed["buffering"]
+            if osopen:
+                flags = informed.get("flags")
+                if isinstance(flags, int):
+                    mode = "" if flags & (os.O_WRONLY | os.O_RDWR) else "r"
                     for key, value in viewitems(OPEN_MODES):
                         flag = getattr(os, key, 0)
-                        if args[0] & flag:
+                        if flag and flags & flag == flag:
                             value = value or "({})".format(key)
                             mode += value
-
-                file_access.mode = mode
-            activation.file_accesses.append(file_access)
-            return old_open(name, *args, **kwargs)
+                    file_access.mode = mode
+            elif "mode" in informed:
+                file_access.mode = informed["mode"]
+            # The content after the access is the one at the end of the
+            # function that uses the file. Calls without definition, such as
+            # open itself, end before, and calls of generators already ended
+            closing = activation
+            while closing.parent and (
+                    closing.code_block_id == -1 or
+                    closing.evaluation.is_complete()):
+                closing = closing.parent
+            if closing.code_block_id == -1:
+                closing = activation
+            closing.file_accesses.append(file_access)
+            if "opener" in informed:
+                return old_open(*args, **kwargs)
+            with content.use_safe_open():
+                # codecs.open uses open
+                return old_open(*args, **kwargs)
 
         return open
 
@@ -445,9 +482,7 @@ class Collector(object):
         self.add_type(evaluation, value)
         self.last_activation = activation.last_activation
         for file_access in activation.file_accesses:
-            if os.path.exists(file_access.name):
-                with content.std_open(file_access.name, "rb") as fil:
-                    file_access.content_hash_after = content.put(fil.read(), file_access.name)
+            file_access.content_hash_after = self.store_file(file_access)
             file_access.done = True
 
     def start_script(self, module_name, code_component_id, iscell):
diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index e6172fd..e5a594f 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -42,8 +42,10 @@ class Execution(object):
             builtin.__noworkflow__ = self.collector
             builtin.open = self.collector.new_open(content.std_open)
         io.open = self.collector.new_open(content.io_open)
-        codecs.open = self.collector.new_open(content.codecs_open)
-        os.open = self.collector.new_open(content.os_open, osopen=True)
+        codecs.open = self.collector.new_open(content.codecs_open, parameters=(
+            "filename", "mode", "encoding", "errors", "buffering"))
+        os.open = self.collector.new_open(
+            content.os_open, osopen=True, parameters=("path", "flags"))
 
         debugger_builtins(
             self.collector, builtin, self.metascript
diff --git a/capture/noworkflow/now/persistence/lightweight/file_access.py b/capture/noworkflow/now/persistence/lightweight/file_access.py
index 36d2d3d..4a220a5 100644
--- a/capture/noworkflow/now/persistence/lightweight/file_access.py
+++ b/capture/noworkflow/now/persistence/lightweight/file_access.py
@@ -21,7 +21,7 @@ class FileAccessLW(BaseLW):
         ["trial_id", "id", "name", "mode", "buffering",
          "content_hash_before", "content_hash_after",
          "checkpoint", "activation_id"],
-        ["done"]
+        ["done", "path"]
     )
     nullable = {"activation_id"}
     model = FileAccess
@@ -40,6 +40,7 @@ class FileAccessLW(BaseLW):
         self.checkpoint = checkpoint
         self.activation_id = activation_id
         self.done = False
+        self.path = None  # Path at the moment of the access
 
     def update(self, variables):
         """Update file access with dict"""
-- 
2.43.0


From 4daf878dccc97412f2f4076d3e91841d13f1db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:49 +0000
Subject: [PATCH 56/64] fix: versioned files mixed files of other projects and
 different files with the same ending

---
 .../now/persistence/models/file_access.py     |  6 +--
 .../now/persistence/models/trial.py           | 54 ++++++++++++++-----
 2 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/file_access.py b/capture/noworkflow/now/persistence/models/file_access.py
index bd55319..bc997b2 100644
--- a/capture/noworkflow/now/persistence/models/file_access.py
+++ b/capture/noworkflow/now/persistence/models/file_access.py
@@ -6,7 +6,6 @@
 from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
-import os
 
 from datetime import timedelta
 from sqlalchemy import Column, Integer, String, Text, Float
@@ -196,10 +195,7 @@ class FileAccess(AlchemyProxy):
         >>> FileAccess((trial_id, access_config.w_access.id)).is_internal
         False
         """
-        return (
-            (not os.path.isabs(self.name)) or
-            self.trial.path in self.name
-        )
+        return self.trial.project_path(self.name) is not None
 
     @classmethod  # query
     def find_by_name_and_time(cls, name, timestamp, trial=None, session=None):
diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index 12cf6a3..a1caa0d 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -344,6 +344,33 @@ class Trial(AlchemyProxy):
         return self.main.this_component.first_evaluation.this_activation
 
         
+    def _full_path(self, path):
+        """Return absolute path of a path recorded by the trial"""
+        return os.path.abspath(os.path.join(self.path, path))
+
+    def project_path(self, path):
+        """Return path relative to the trial path, or None if it is outside
+
+
+        Doctest:
+        >>> from noworkflow.tests.helpers.models import TrialConfig, new_trial
+        >>> trial = Trial(new_trial(TrialConfig(path="/home/now"), erase=True))
+
+        Return relative path:
+        >>> trial.project_path("/home/now/a.txt")
+        'a.txt'
+        >>> trial.project_path("./b/../a.txt")
+        'a.txt'
+
+        Return None if it is outside:
+        >>> trial.project_path("/home/now2/a.txt")
+        >>> trial.project_path("../a.txt")
+        """
+        path = os.path.relpath(self._full_path(path), self._full_path(""))
+        if path == os.pardir or path.startswith(os.pardir + os.sep):
+            return None
+        return path
+
     @property
     def local_modules(self):
         """Load local modules
@@ -384,9 +411,7 @@ class Trial(AlchemyProxy):
             path = module.path
             if path is None:
                 continue
-            elif not os.path.isabs(path):
-                yield module
-            elif path.startswith(self.path):
+            elif self.project_path(path) is not None:
                 yield module
 
     @property
@@ -631,13 +656,14 @@ class Trial(AlchemyProxy):
         files = {}
         def add(path, info):
             """Add file to dict"""
-            if os.path.isabs(path):
-                if not path.startswith(self.path):
-                    return
-                path = os.path.relpath(path, self.path)
-            files[path] = info
+            path = self.project_path(path)
+            if path is None:
+                return
+            # The script is loaded before any access
+            if path not in files or files[path]["type"] != "script":
+                files[path] = info
 
-        if script:
+        if script and self.main:
             add(self.script, {"code_hash": self.code_hash, "type": "script"})
         if local:
             # pylint: disable=not-an-iterable
@@ -693,18 +719,22 @@ class Trial(AlchemyProxy):
         [('file2.txt', [('checkpoint', ...), ('code_hash', None), ('type', 'access')]),
          ('file2.txt', [('checkpoint', ...), ('code_hash', 'def'), ('type', 'access')])]
         """
-        if not path or self.script.endswith(path):
+        def match(name):
+            """Check if name refers to path"""
+            return not path or self._full_path(name) == self._full_path(path)
+
+        if self.main and match(self.script):
             yield self.script, {"code_hash": self.code_hash, "type": "script"}
         # pylint: disable=not-an-iterable
         for module in self.local_modules:
-            if not path or module.path.endswith(path):
+            if match(module.path):
                 yield module.path, {
                     "code_hash": module.code_hash,
                     "type": "module",
                     "name": module.name
                 }
         for faccess in list(self.file_accesses):
-            if not path or faccess.name.endswith(path):
+            if match(faccess.name):
                 yield faccess.name, {
                     "code_hash": faccess.content_hash_before,
                     "type": "access",
-- 
2.43.0


From 7c90fb815bd86a3a966a4759d3b7680ce0fdd0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:49 +0000
Subject: [PATCH 57/64] fix: restore wrote outside of the project directory,
 lost contents and aborted on missing files

---
 capture/noworkflow/now/cmd/cmd_restore.py | 42 +++++++++++++++--------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index a1b1e47..edceac0 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -65,20 +65,27 @@ class Restore(Command):
         arguments = metascript.arguments_store
 
         old_id = metascript.trial_id
+        # The backup has its own modules
+        metascript.bypass_modules = False
+        metascript.path = project_path(os.path.basename(metascript.name))
         metascript.trial_id = Trial.create(*metascript.create_trial_args())
         tid = metascript.trial_id
         metascript.create_arguments(args)
         metascript.arguments_store.add(tid, "restore", repr(old_id))
 
 
+        metascript.main_id = None
         for path, info in viewitems(files):
+            if info["type"] != "access" and info["code_hash"] is None:
+                # There is nothing to backup
+                continue
             if info["type"] == "script":
-                metascript.path = path
-                metascript.definition.create_code_block(
+                metascript.path = path = project_path(path)
+                metascript.main_id = metascript.definition.create_code_block(
                     None, path, "script", False, True
-                )
+                )[1]
             elif info["type"] == "module":
-                path = os.path.abspath(path)
+                path = project_path(path)
                 cid = metascript.definition.create_code_block(
                     None, path, "module", False, True
                 )[1]
@@ -133,17 +140,16 @@ class Restore(Command):
         new_code_hash = file_hash(path)
         if code_hash == new_code_hash:
             return False
+        full_path = project_path(path)
         if code_hash is None and mode != "script":
-            os.remove(path)
+            os.remove(full_path)
             print_msg("File {} removed".format(path), self.print_msg)
             return True
         elif code_hash is not None:
             load_file = content.get(code_hash)
             try:
-                parent = os.path.dirname(path)
-                if parent:
-                    os.makedirs(parent, exist_ok=True)
-                with open(path, "wb") as fil:
+                os.makedirs(os.path.dirname(full_path), exist_ok=True)
+                with open(full_path, "wb") as fil:
                     fil.write(load_file)
                 msg = "File {}".format(path)
                 if trial_id:
@@ -152,7 +158,8 @@ class Restore(Command):
 
                 print_msg(msg, self.print_msg)
                 return True
-            except NotADirectoryError as exc:
+            except (NotADirectoryError, IsADirectoryError,
+                    FileExistsError) as exc:
                 msg = "Unable to restore file {}".format(path)
                 if trial_id:
                     msg += " from trial {}".format(trial_id)
@@ -225,7 +232,9 @@ class Restore(Command):
 
             parsed = parser.parse_args(args.file)
 
-            restore = self.find_file(args.trial, parsed.path, parsed.id)
+            restore = self.find_file(
+                args.trial and trial.id, parsed.path, parsed.id
+            )
             if not restore:
                 print_msg("File version not found!", self.print_msg)
             else:
@@ -261,10 +270,10 @@ class Restore(Command):
             if code_hash:
                 return path, code_hash
 
-        if tid and fid.isnumeric():
+        if fid.isnumeric():
             # Count accesses
             fid = int(fid)
-            trial = Trial(tid)
+            trial = Trial(tid) if tid else self.trial
             for i, result in enumerate(trial.iterate_accesses(path)):
                 if fid == i + 1:
                     return path, result[1]["code_hash"]
@@ -286,9 +295,14 @@ def time_str(arg):
     return None
 
 
+def project_path(path):
+    """Return absolute path of a file of the project"""
+    return os.path.abspath(os.path.join(persistence_config.base_path, path))
+
+
 def file_hash(path):
     """Return hash of file in path or None"""
-    abs_path = os.path.join(persistence_config.base_path, path)
+    abs_path = project_path(path)
     if not os.path.isfile(abs_path):
         return None
     else:
-- 
2.43.0


From 09b93096b42be52cb0fefd7f252bad4cd5d542af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:49 +0000
Subject: [PATCH 58/64] fix: code blocks recorded re-encoded texts instead of
 the bytes of the files

---
 .../now/collection/prov_definition/definition.py          | 7 +++++--
 capture/noworkflow/now/models/code_display.py             | 8 +++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/definition.py b/capture/noworkflow/now/collection/prov_definition/definition.py
index 98946d1..4775780 100644
--- a/capture/noworkflow/now/collection/prov_definition/definition.py
+++ b/capture/noworkflow/now/collection/prov_definition/definition.py
@@ -48,10 +48,11 @@ class Definition(object):
     def create_code_block(self, code, path, type_, binary, load):
         """Create code block for script/module"""
         # pylint: disable=too-many-arguments
+        data = None
         if load:
             try:
                 with content.std_open(path, "rb") as script_file:
-                    code = script_file.read()
+                    code = data = script_file.read()
                     if not binary:
                         code = pyposast.native_decode_source(code)
             except UnicodeError:
@@ -73,6 +74,8 @@ class Definition(object):
             lines = [code]
 
         path = os.path.relpath(path, self.metascript.dir) 
+        # Decoding changes line breaks and the encoding of the file
+        code_hash = None if data is None else content.put(data, path)
         id_ = self.metascript.code_components_store.add(
             self.metascript.trial_id,
             path,
@@ -81,7 +84,7 @@ class Definition(object):
             1, 0, len(lines), len(lines[-1]), -1
         )
         self.metascript.code_blocks_store.add(
-            id_, self.metascript.trial_id, code, binary, None, path
+            id_, self.metascript.trial_id, code, binary, None, path, code_hash
         )
         return code, id_
 
diff --git a/capture/noworkflow/now/models/code_display.py b/capture/noworkflow/now/models/code_display.py
index 0aeae4c..c0c0728 100644
--- a/capture/noworkflow/now/models/code_display.py
+++ b/capture/noworkflow/now/models/code_display.py
@@ -7,6 +7,7 @@
 import time
 
 from future.utils import viewvalues
+from pyposast import native_decode_source
 
 from ..persistence import content
 
@@ -26,7 +27,12 @@ class CodeDisplay(object):
                 comp.id: comp
                 for comp in block.all_components
             }
-            self.code = content.get(block.code_hash).decode("utf-8")
+            code = content.get(block.code_hash)
+            try:
+                self.code = code.decode("utf-8")
+            except UnicodeDecodeError:
+                # File with another encoding
+                self.code = native_decode_source(code)
 
     def __getitem__(self, item):
         code = self.code.split('\n')
-- 
2.43.0


From 65a6b3ec3f215b4b7d9abedd3a475e3472d2c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:20 +0000
Subject: [PATCH 59/64] fix: functions defined in classes depended on the names
 of the class

---
 .../now/collection/prov_execution/collector.py         | 10 +++++++---
 .../now/persistence/lightweight/activation.py          |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index b05f139..7938585 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -540,10 +540,13 @@ class Collector(object):
 
     def lookup(self, activation, name):
         """Lookup for variable name"""
+        current = activation
         while activation:
-            evaluation = activation.context.get(name, None)
-            if evaluation:
-                return evaluation
+            # Functions do not see the names of the classes around them
+            if activation is current or not activation.is_class:
+                evaluation = activation.context.get(name, None)
+                if evaluation:
+                    return evaluation
             activation = activation.closure
         evaluation = self.global_evaluations.get(name, None)
         if evaluation:
@@ -1509,6 +1512,7 @@ class Collector(object):
             last_activation
         )
         activation.closure = last_activation
+        activation.is_class = True
         return activation
 
     def class_def(self, activation, code_id, exc_handler):
diff --git a/capture/noworkflow/now/persistence/lightweight/activation.py b/capture/noworkflow/now/persistence/lightweight/activation.py
index ea42542..c004825 100644
--- a/capture/noworkflow/now/persistence/lightweight/activation.py
+++ b/capture/noworkflow/now/persistence/lightweight/activation.py
@@ -49,7 +49,8 @@ class ActivationLW(BaseLW):
         ["file_accesses", "context", "conditions", "permanent_conditions",
          "evaluation", "assignments", "closure", "func",
          "active", "depth", "parent", "generator", "last_activation", 
-         "bound_dependency", "func_evaluation", "iscell"]
+         "bound_dependency", "func_evaluation", "iscell",
+         "is_class"]
     )
     nullable = {"code_block_id"}
     model = Activation
@@ -104,6 +105,9 @@ class ActivationLW(BaseLW):
         # Notebook
         self.iscell = False
 
+        # Class body
+        self.is_class = False
+
 
     def is_complete(self):
         """Activation can only be removed from object store
-- 
2.43.0


From 674fda5da815e65948fd936b3bf15ff1ff42dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:38 +0000
Subject: [PATCH 60/64] fix: modules beside the script were not found when the
 project directory is another one

---
 capture/noworkflow/now/cmd/cmd_run.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capture/noworkflow/now/cmd/cmd_run.py b/capture/noworkflow/now/cmd/cmd_run.py
index ed01e83..4b18f1c 100644
--- a/capture/noworkflow/now/cmd/cmd_run.py
+++ b/capture/noworkflow/now/cmd/cmd_run.py
@@ -167,6 +167,8 @@ class Run(Command):
 
         # Clear boilerplate
         metascript.clear_sys()
+        # The project directory may not be the directory of the script
+        sys.path[0] = os.path.dirname(args.script)
         metascript.clear_namespace()
 
         # Run script
-- 
2.43.0


From caccb59a687ba82b9654e9c604756a13fc1d9fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:38 +0000
Subject: [PATCH 61/64] fix: relative names of accesses were resolved against
 the project instead of the working directory

---
 .../now/persistence/models/file_access.py     |  8 ++-
 .../now/persistence/models/trial.py           | 58 +++++++++++++++----
 2 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/file_access.py b/capture/noworkflow/now/persistence/models/file_access.py
index bc997b2..fd68e5c 100644
--- a/capture/noworkflow/now/persistence/models/file_access.py
+++ b/capture/noworkflow/now/persistence/models/file_access.py
@@ -195,7 +195,10 @@ class FileAccess(AlchemyProxy):
         >>> FileAccess((trial_id, access_config.w_access.id)).is_internal
         False
         """
-        return self.trial.project_path(self.name) is not None
+        trial = self.trial
+        return trial.project_path(
+            self.name, trial.working_directory
+        ) is not None
 
     @classmethod  # query
     def find_by_name_and_time(cls, name, timestamp, trial=None, session=None):
@@ -251,7 +254,8 @@ class FileAccess(AlchemyProxy):
             query = query.filter(model.trial_id == trial)
         for access in query:
             paccess = proxy(access)
-            if str(paccess.timestamp).startswith(timestamp):
+            moment = paccess.timestamp.strftime("%Y-%m-%d %H:%M:%S.%f")
+            if moment.startswith(timestamp):
                 return paccess
         return None
 
diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index a1caa0d..587958b 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -344,13 +344,45 @@ class Trial(AlchemyProxy):
         return self.main.this_component.first_evaluation.this_activation
 
         
-    def _full_path(self, path):
+    def _full_path(self, path, directory=""):
         """Return absolute path of a path recorded by the trial"""
-        return os.path.abspath(os.path.join(self.path, path))
+        return os.path.abspath(os.path.join(self.path, directory, path))
 
-    def project_path(self, path):
+    @property
+    def working_directory(self):
+        """Return directory in which the trial was executed
+
+
+        Doctest:
+        >>> from noworkflow.tests.helpers.models import TrialConfig, new_trial
+        >>> from noworkflow.tests.helpers.models import environment_attrs
+        >>> trial = Trial(new_trial(TrialConfig(path="/home/now"), erase=True))
+
+        Return trial path if it was not recorded:
+        >>> trial.working_directory
+        '/home/now'
+
+        Return recorded directory:
+        >>> _ = environment_attrs.add(trial.id, "PWD", "/home")
+        >>> environment_attrs.do_store()
+        >>> trial.working_directory
+        '/home'
+        """
+        from .environment_attr import EnvironmentAttr  # avoid circular import
+        model = EnvironmentAttr.m
+        attr = (
+            relational.session.query(model)
+            .filter((model.trial_id == self.id) & (model.name == "PWD"))
+            .order_by(model.id.desc())
+        ).first()
+        return attr.value if attr else self.path
+
+    def project_path(self, path, directory=""):
         """Return path relative to the trial path, or None if it is outside
 
+        Keyword Arguments:
+        directory -- directory of relative paths (default=trial path)
+
 
         Doctest:
         >>> from noworkflow.tests.helpers.models import TrialConfig, new_trial
@@ -366,7 +398,9 @@ class Trial(AlchemyProxy):
         >>> trial.project_path("/home/now2/a.txt")
         >>> trial.project_path("../a.txt")
         """
-        path = os.path.relpath(self._full_path(path), self._full_path(""))
+        path = os.path.relpath(
+            self._full_path(path, directory), self._full_path("")
+        )
         if path == os.pardir or path.startswith(os.pardir + os.sep):
             return None
         return path
@@ -654,9 +688,9 @@ class Trial(AlchemyProxy):
          ('main.py', [('code_hash', '...'), ('type', 'script')])]
         """
         files = {}
-        def add(path, info):
+        def add(path, info, directory=""):
             """Add file to dict"""
-            path = self.project_path(path)
+            path = self.project_path(path, directory)
             if path is None:
                 return
             # The script is loaded before any access
@@ -676,12 +710,13 @@ class Trial(AlchemyProxy):
                         "name": module.name
                     })
         if access:
+            directory = self.working_directory
             for faccess in reversed(list(self.file_accesses)):
                 add(faccess.name, {
                     "code_hash": faccess.content_hash_before,
                     "type": "access",
                     "checkpoint": faccess.checkpoint,
-                })
+                }, directory)
 
         return files
 
@@ -719,9 +754,11 @@ class Trial(AlchemyProxy):
         [('file2.txt', [('checkpoint', ...), ('code_hash', None), ('type', 'access')]),
          ('file2.txt', [('checkpoint', ...), ('code_hash', 'def'), ('type', 'access')])]
         """
-        def match(name):
+        def match(name, directory=""):
             """Check if name refers to path"""
-            return not path or self._full_path(name) == self._full_path(path)
+            return not path or (
+                self._full_path(name, directory) == self._full_path(path)
+            )
 
         if self.main and match(self.script):
             yield self.script, {"code_hash": self.code_hash, "type": "script"}
@@ -733,8 +770,9 @@ class Trial(AlchemyProxy):
                     "type": "module",
                     "name": module.name
                 }
+        directory = self.working_directory
         for faccess in list(self.file_accesses):
-            if match(faccess.name):
+            if match(faccess.name, directory):
                 yield faccess.name, {
                     "code_hash": faccess.content_hash_before,
                     "type": "access",
-- 
2.43.0


From ded77c4d07d2cd56e917a510e5fbaba856935fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:38 +0000
Subject: [PATCH 62/64] fix: restore used the wrong directory for scripts in
 other directories of the project

---
 capture/noworkflow/now/cmd/cmd_restore.py | 51 ++++++++++++++---------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index edceac0..7f03a56 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -58,8 +58,8 @@ class Restore(Command):
                 help="set the content database engine")
 
 
-    def create_backup(self, metascript, files, args):
-        """Create a backup trial"""
+    def create_backup(self, metascript, files, args, trial):
+        """Create a backup trial of the files of trial"""
         modules = metascript.modules_store
         accesses = metascript.file_accesses_store
         arguments = metascript.arguments_store
@@ -67,7 +67,9 @@ class Restore(Command):
         old_id = metascript.trial_id
         # The backup has its own modules
         metascript.bypass_modules = False
-        metascript.path = project_path(os.path.basename(metascript.name))
+        metascript.path = project_path(
+            os.path.basename(metascript.name), trial
+        )
         metascript.trial_id = Trial.create(*metascript.create_trial_args())
         tid = metascript.trial_id
         metascript.create_arguments(args)
@@ -80,12 +82,12 @@ class Restore(Command):
                 # There is nothing to backup
                 continue
             if info["type"] == "script":
-                metascript.path = path = project_path(path)
+                metascript.path = path = project_path(path, trial)
                 metascript.main_id = metascript.definition.create_code_block(
                     None, path, "script", False, True
                 )[1]
             elif info["type"] == "module":
-                path = project_path(path)
+                path = project_path(path, trial)
                 cid = metascript.definition.create_code_block(
                     None, path, "module", False, True
                 )[1]
@@ -137,10 +139,10 @@ class Restore(Command):
 
     def restore(self, path, code_hash, trial_id, mode="normal"):
         """Restore file with <code_hash> from <trial_id>"""
-        new_code_hash = file_hash(path)
+        full_path = project_path(path, self.trial)
+        new_code_hash = file_hash(full_path)
         if code_hash == new_code_hash:
             return False
-        full_path = project_path(path)
         if code_hash is None and mode != "script":
             os.remove(full_path)
             print_msg("File {} removed".format(path), self.print_msg)
@@ -172,8 +174,8 @@ class Restore(Command):
         """Restore the main script from <trial>"""
         self.restore(trial.script, trial.code_hash, trial.id)
 
-    def find_differences(self, files):
-        """Compare files with existing files
+    def find_differences(self, files, trial):
+        """Compare files of trial with existing files
         Return match and dict with the most updated version of files
 
         match = True if all files match.
@@ -182,7 +184,7 @@ class Restore(Command):
         new_files = {}
 
         for path, info in viewitems(files):
-            new_code_hash = file_hash(path)
+            new_code_hash = file_hash(project_path(path, trial))
             if info["code_hash"] != new_code_hash:
                 info["code_hash"] = new_code_hash
                 match = False
@@ -195,6 +197,7 @@ class Restore(Command):
         persistence_config.connect_existing(args.dir or os.getcwd())
         self.trial = trial = metascript.trial = Trial(trial_ref=args.trial)
         metascript.trial_id = trial.id
+        metascript.dir = persistence_config.base_path
         metascript.name = trial.script
         metascript.path = trial.path
 
@@ -203,9 +206,9 @@ class Restore(Command):
             head = Trial.load_parent(trial.script, remove=False)
 
             last_files = head.versioned_files(**skip_dict(args))
-            match, new_files = self.find_differences(last_files)
+            match, new_files = self.find_differences(last_files, head)
             if not match:
-                self.create_backup(metascript, new_files, args)
+                self.create_backup(metascript, new_files, args, head)
 
             for path, info in viewitems(restore_files):
                 self.restore(path, info["code_hash"], trial.id,
@@ -295,19 +298,29 @@ def time_str(arg):
     return None
 
 
-def project_path(path):
-    """Return absolute path of a file of the project"""
-    return os.path.abspath(os.path.join(persistence_config.base_path, path))
+def project_path(path, trial):
+    """Return absolute path of a file of trial in the project"""
+    directory = ""
+    if trial.main:
+        # The script may be in another directory of the project
+        directory = os.path.dirname(trial.main.this_component.name)
+    elif trial.path:
+        # Backup without script
+        relative = os.path.relpath(trial.path, persistence_config.base_path)
+        if relative.split(os.sep)[0] != os.pardir:
+            directory = relative
+    return os.path.abspath(
+        os.path.join(persistence_config.base_path, directory, path)
+    )
 
 
 def file_hash(path):
     """Return hash of file in path or None"""
-    abs_path = project_path(path)
-    if not os.path.isfile(abs_path):
+    if not os.path.isfile(path):
         return None
     else:
-        with open(abs_path, "rb") as fil:
-            return content.put(fil.read(), abs_path)
+        with open(path, "rb") as fil:
+            return content.put(fil.read(), path)
 
 
 def skip_dict(args):
-- 
2.43.0


From bb9472f19e832f48e497f8ed38cb4edc66ac5341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:38 +0000
Subject: [PATCH 63/64] fix: pattern queries lost or kept bindings of other
 results

---
 capture/noworkflow/patterns/machinery.py | 62 ++++++++++++++++--------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/capture/noworkflow/patterns/machinery.py b/capture/noworkflow/patterns/machinery.py
index b153341..113fb34 100644
--- a/capture/noworkflow/patterns/machinery.py
+++ b/capture/noworkflow/patterns/machinery.py
@@ -11,7 +11,7 @@ from copy import copy
 from itertools import chain, product
 
 from future.utils import viewitems, viewvalues
-from sqlalchemy.sql.expression import and_, ColumnElement
+from sqlalchemy.sql.expression import and_, or_, ColumnElement
 
 from ..now.persistence import relational
 from ..now.utils.cross_version import zip_longest
@@ -149,16 +149,24 @@ class BoundQuery(object):
 
     def __iter__(self):
         self.binds.clear()
-        for result in self.iterate():
-            for attr, pattern in viewitems(self.patterns):
-                temp = self.get_bound(result, attr)
-                pattern.results.add(temp)
-                pattern.bound = temp
-                self.binds[pattern] = temp
-            yield result, {k: v for k, v in viewitems(self.binds) if not k.temp}
-
-        for pattern in self.binds:
-            pattern.bound = BLANK
+        try:
+            for result in self.iterate():
+                for attr, pattern in viewitems(self.patterns):
+                    temp = self.get_bound(result, attr)
+                    pattern.results.add(temp)
+                    pattern.bound = temp
+                    self.binds[pattern] = temp
+                binds = dict(self.binds)
+                yield result, {
+                    k: v for k, v in viewitems(binds) if not k.temp
+                }
+                # The query that uses this result may have reset the variables
+                for pattern, value in viewitems(binds):
+                    pattern.bound = value
+        finally:
+            # The iteration may be abandoned
+            for pattern in self.binds:
+                pattern.bound = BLANK
 
 
 class NullQuery(BoundQuery):
@@ -185,6 +193,7 @@ class RuleQuery(BoundQuery):
     def apply_function(self, values):
         """Apply function to values"""
         kwargs = {}
+        options = set(self.binds)  # Bound by the options, for all results
         if self.has_binds:
             kwargs["_binds"] = self.binds
         func_result = self.func(*values, **kwargs)
@@ -192,18 +201,25 @@ class RuleQuery(BoundQuery):
             for result, binds in func_result:
                 if binds is not self.binds:
                     self.binds.update(binds)
+                for pattern, value in viewitems(self.binds):
+                    pattern.bound = value
                 yield result
 
-                for pattern in self.binds:
-                    pattern.bound = BLANK
+                for pattern in list(self.binds):
+                    if pattern not in options:
+                        pattern.bound = BLANK
+                        if binds is not self.binds:
+                            del self.binds[pattern]
         for pattern in self.binds:
             pattern.bound = BLANK
+        self.binds.clear()
 
 
     def get_bound(self, result, attr):
         """Get bound value in result"""
         if attr in self.patterns:
-            return self.patterns[attr].bound
+            pattern = self.patterns[attr]
+            return self.binds.get(pattern, pattern.bound)
         return BLANK
 
 
@@ -223,10 +239,14 @@ class RuleQuery(BoundQuery):
         for i, arg in enumerate(order):
             prevalue = new_values[self.args[arg]]
             val = self.process_value(arg, prevalue)
-            if val is not BLANK and val != bind[i]:
-                # Variable bound to a different value
-                return None
-            elif val != bind[i] and isinstance(prevalue, Variable):
+            if val is not BLANK:
+                # Variable bound to a value, that may not be an option
+                others = self.unbound_options[arg]
+                if bind[i] is BLANK and val not in others:
+                    continue
+                if val != bind[i]:
+                    return None
+            if val != bind[i] and isinstance(prevalue, Variable):
                 prevalue.bound = bind[i]
                 self.binds[prevalue] = bind[i]
             if bind[i] is not BLANK:
@@ -275,6 +295,7 @@ class ModelQuery(BoundQuery):
         """Iterate on query generation"""
         session = relational.session
         conditions = []
+        self.reset_patterns()
         for attr, val in self.conditions:
             val = self.process_value(attr, val)
             if val is not BLANK:
@@ -283,7 +304,10 @@ class ModelQuery(BoundQuery):
             attr0 = attrs[0]
             for attr in attrs:
                 if attr != attr0:
-                    conditions.append(self._eq(attr0, self._get(attr)))
+                    col0, col = self._get(attr0), self._get(attr)
+                    conditions.append(or_(
+                        col0 == col, and_(col0.is_(None), col.is_(None))
+                    ))
 
         sql_result = session.query(self.model_rule.get_model()).filter(
             and_(*conditions)
-- 
2.43.0


From 95e54e6f46be7844b82f84816c1742c8d84eb1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:38 +0000
Subject: [PATCH 64/64] fix: timestamp rules used attributes that do not exist

---
 capture/noworkflow/patterns/rules/timestamp_rules.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/patterns/rules/timestamp_rules.py b/capture/noworkflow/patterns/rules/timestamp_rules.py
index 5c053c9..97fb0cf 100644
--- a/capture/noworkflow/patterns/rules/timestamp_rules.py
+++ b/capture/noworkflow/patterns/rules/timestamp_rules.py
@@ -50,11 +50,11 @@ def timestamp_id(trial_id, id, timestamp, model_moment):
             return trial(trial_id, finish=timestamp)
 
     model_map = {
-        "start": activation(trial_id, id, start=timestamp),
+        "start": activation(trial_id, id, start_checkpoint=timestamp),
         "finish": evaluation(trial_id, id, checkpoint=timestamp),
         "evaluation": evaluation(trial_id, id, checkpoint=timestamp),
-        "activation": activation(trial_id, id, start=timestamp),
-        "access": access(trial_id, id, timestamp=timestamp),
+        "activation": activation(trial_id, id, start_checkpoint=timestamp),
+        "access": access(trial_id, id, checkpoint=timestamp),
     }
     if model_moment not in model_map:
         return
@@ -76,10 +76,12 @@ def duration_id(trial_id, id, duration, _binds):
         query = trial(trial_id, start=start, finish=finish)
     else:
         query = (
-            evaluation(trial_id, id, moment=finish) &
-            activation(trial_id, id, start=start)
+            evaluation(trial_id, id, checkpoint=finish) &
+            activation(trial_id, id, start_checkpoint=start)
         )
     for result, binds in _apply(_binds, query):
+        if start.bound is None or finish.bound is None:
+            continue  # It did not finish
         temp_duration = finish.bound - start.bound
         if _match(temp_duration, duration, binds):
             yield result, binds
-- 
2.43.0

