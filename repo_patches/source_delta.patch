From ac0fdf948d8256c4a3374c501ff3ed51b7eaf738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 01/54] fix: raise UtilityBoundsError for infeasible rows
 outside of the parallel loops

---
 cheval/core.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 7a1a4fc..435c851 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -303,6 +303,14 @@ def nested_multisample(utilities: NDArray, parents, levels, ls_scales, bottom_fl
 
 # region High level functions
 
+@njit(void(ndouble[:], nbool), nogil=True, cache=True)
+def _check_logsums(ls_array: NDArray, check_infeasible: bool):
+    """Checks the logsums of all rows, outside of any parallel loop (exceptions cannot be raised reliably inside)"""
+    for ls in ls_array:
+        if check_infeasible and ls <= 0:
+            raise UtilityBoundsError("Utilities all exceeded minimum value (Logsum == 0.0)")
+
+
 @njit(nlong[:, :](ndouble[:, :], nlong, nlong), parallel=True, nogil=True, cache=True)
 def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
@@ -339,15 +347,18 @@ def worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[ND
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            result[i, 0], ls = multinomial_sample(utility_row, r)
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = multinomial_multisample(utility_row, n, seed_i, result[i, :])
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+    _check_logsums(ls_array, True)
     return result, ls_array
 
 
@@ -364,11 +375,12 @@ def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool)
 
     for i in prange(n_rows):
         utility_row = utilities[i, :]
-        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, check_infeasible)
+        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, False)
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    _check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
 
@@ -388,20 +400,22 @@ def worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            this_result, ls = nested_sample(
-                utility_row, r, parents, levels, ls_scales, bottom_flags, scale_utilities
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
-            result[i, 0] = this_result
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = nested_multisample(
-                utility_row, parents, levels, ls_scales, bottom_flags, n, seed_i, scale_utilities, out=result[i, :]
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+    _check_logsums(ls_array, True)
     return result, ls_array
 
 
@@ -420,12 +434,13 @@ def worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales,
     for i in prange(n_rows):
         utility_row = utilities[i, :]
         p_array, top_ls, nested_ls = nested_probabilities(
-            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, check_infeasible
+            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
         )
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    _check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
 # endregion
-- 
2.43.0


From 8778cd2cc6c8de87bf029c6292ee1f52e95564e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 02/54] fix: report utilities too large to exponentiate instead
 of using NaN probabilities

---
 cheval/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cheval/core.py b/cheval/core.py
index 435c851..1b7541d 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -145,6 +145,8 @@ def multinomial_probabilities(utilities: NDArray, check_infeasible: bool) -> Tup
         p[i] = expu
         ls_terms[i] = expu
 
+    if check_infeasible and not total_ls < np.inf:
+        raise UtilityBoundsError("MNL utilities exceeded maximum value (Logsum is not finite)")
     if total_ls <= 0:
         if check_infeasible:
             raise UtilityBoundsError("MNL utilities all exceeded minimum value (Logsum == 0.0)")
@@ -205,6 +207,8 @@ def nested_probabilities(utilities: NDArray, hierarchy, levels, logsum_scales, b
             final_logsums[index] = expu
         current_level -= 1
 
+    if check_infeasible and not top_logsum < np.inf:
+        raise UtilityBoundsError("Nested logit top-level logsum is not finite")
     if top_logsum <= 0:
         if check_infeasible:
             raise UtilityBoundsError("Nested logit top-level logsum is 0.0")
@@ -307,6 +311,8 @@ def nested_multisample(utilities: NDArray, parents, levels, ls_scales, bottom_fl
 def _check_logsums(ls_array: NDArray, check_infeasible: bool):
     """Checks the logsums of all rows, outside of any parallel loop (exceptions cannot be raised reliably inside)"""
     for ls in ls_array:
+        if not ls < np.inf:
+            raise UtilityBoundsError("Utilities exceeded maximum value (Logsum is not finite)")
         if check_infeasible and ls <= 0:
             raise UtilityBoundsError("Utilities all exceeded minimum value (Logsum == 0.0)")
 
-- 
2.43.0


From ef31f25e10bd5480edd86488bbdedd2c5e55c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 03/54] fix: never sample a zero-probability alternative when
 probabilities round to less than 1

---
 cheval/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 1b7541d..3f69d36 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -31,12 +31,15 @@ def sample_once(p_array: NDArray, r: float) -> int:
     r = max(r, MIN_RANDOM_VALUE)
     cumsum = 0.0
     index = 0
+    last_feasible = len(p_array) - 1
     for p in p_array:
         cumsum += p
         if r <= cumsum:
             return index
+        if p > 0:
+            last_feasible = index
         index += 1
-    return len(p_array) - 1
+    return last_feasible  # The probabilities can add up to slightly less than 1
 
 
 @njit(nlong(ndouble, ndouble[:]), nogil=True, cache=True)
@@ -74,8 +77,10 @@ def logarithmic_search(r: float, cps: NDArray) -> int:
     cp_at_left = cps[lower_bound]
     if r <= cp_at_left:
         return lower_bound
-    else:
-        return upper_bound
+    # The probabilities can add up to slightly less than 1, so don't select a trailing 0-probability choice
+    while upper_bound > 0 and cps[upper_bound] < r and cps[upper_bound - 1] >= cps[upper_bound]:
+        upper_bound -= 1
+    return upper_bound
 
 
 @njit(void(ndouble[:]), nogil=True, cache=True)
-- 
2.43.0


From 570a8acf11d13f7f6c8af16ed1317f5e132d9c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 04/54] fix: make worker_weighted_sample work for several draws
 and independent of threads

---
 cheval/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 3f69d36..31f66c9 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -327,19 +327,18 @@ def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
     result = np.zeros((n_rows, n), dtype=np.int64)
 
-    np.random.seed(seed)
     if n <= 1:
-        r_array = np.random.uniform(MIN_RANDOM_VALUE, 1.0, n_rows)
+        r_array = generate_rand_floats_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             r = r_array[i]
             result[i, 0] = simple_sample(weight_row, r)
     else:
-        seed_array = np.random.randint(0, MAX_RANDOM_VALUE, n_rows)
+        seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             seed_i = seed_array[i]
-            _, ls = simple_multisample(weight_row, n, seed_i, result[i, :])
+            simple_multisample(weight_row, n, seed_i, result[i, :])
     return result
 
 
-- 
2.43.0


From 162876d679784dee84e06d0828d0f519359f781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 05/54] fix: do not accumulate the utilities of a run into the
 cached partial utilities

---
 cheval/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/model.py b/cheval/model.py
index a5b50ba..f935e74 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -463,7 +463,7 @@ class ChoiceModel(object):
         if self.debug_id:
             debug_label = row_index.get_loc(self.debug_id)
 
-        utilities = to_numpy(self._partial_utilities)
+        utilities = to_numpy(self._partial_utilities).copy()  # Don't accumulate into the cached partial utilities
 
         # Prepare locals, including scalar, vector, and matrix variables that don't need any further processing.
         shared_locals = {NAN_STR: np.nan, OUT_STR: utilities, NEG_INF_STR: NEG_INF_VAL}
-- 
2.43.0


From ae24a111ea4f04d35af1be16fb5b3ea006bec237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 06/54] fix: discard partial utilities when the decision units
 change

---
 cheval/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/model.py b/cheval/model.py
index f935e74..6aa453e 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -235,6 +235,7 @@ class ChoiceModel(object):
             if isinstance(symbol, NumberSymbol):
                 continue  # Don't empty symbols that don't depend on the DU.
             symbol.empty()
+        self._cached_utils = None
 
         if isinstance(item, pd.Index):
             self._decision_units = item
-- 
2.43.0


From 0cba1a5cadcecac027fb772b3a7be632d1985baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 07/54] fix: transform the operand of a unary minus

---
 cheval/parsing/ast_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index e4eaab4..b0568fd 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -58,7 +58,7 @@ class ExpressionParser(ast.NodeTransformer):
         if isinstance(node.op, ast.Not):
             return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
         elif isinstance(node.op, ast.USub):
-            return node
+            return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
         raise NotImplementedError(type(node.op))
 
     def visit_boolop(self, node):
-- 
2.43.0


From 723cb0d836d969c686cd7de4843c2a3c1fa80910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 08/54] fix: treat the None literal as NaN

---
 cheval/parsing/ast_transformer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index b0568fd..dd0827b 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -53,6 +53,12 @@ class ExpressionParser(ast.NodeTransformer):
         # Converts text-strings to NumExpr-supported byte-strings
         return ast.Bytes(node.s.encode())
 
+    def visit_constant(self, node):
+        # Parsers since Python 3.8 produce Constant nodes for all literals
+        if node.value is None:
+            return ast.Name(NAN_STR, ast.Load())
+        return node
+
     def visit_unaryop(self, node):
         # Converts 'not' into '~' which NumExpr supports
         if isinstance(node.op, ast.Not):
-- 
2.43.0


From 384e57f9b3668b6160949c13478b34e544e3f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 09/54] fix: keep rejected and grouped expressions from
 changing the ungrouped symbols

---
 cheval/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 2d5a086..5fb072d 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -152,9 +152,9 @@ class ExpressionGroup(object):
         self._subgroups: Dict[Hashable, ExpressionSubGroup] = {}
 
     def append(self, e: str, group: Hashable = None):
-        # Parse the expression and look for invalid syntax and inconsistent usage. self._simple_symbols and
-        # self._chained_symbols are modified in-place during parsing.
-        expr = Expression.parse(e, self._simple_symbols, self._chained_symbols)
+        # Parse the expression and look for invalid syntax and inconsistent usage (with respect to all groups). The
+        # sets are modified in-place during parsing, so copies are used in case the expression is rejected.
+        expr = Expression.parse(e, set(self.itersimple()), set(self.iterchained()))
         if group is not None:
             if group not in self._subgroups:
                 subgroup = ExpressionSubGroup(group)
-- 
2.43.0


From 5a98785ede5338262e3a17249138270767147b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 10/54] fix: only clean up symbols that no other group uses in
 preval()

---
 cheval/model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 6aa453e..3fbcd10 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -651,13 +651,12 @@ class ChoiceModel(object):
 
         if cleanup_scope:
             # Need to get a set of only those symbols unique to this group, using set math
-            all_symbols = set(iter_chain(self.expressions.itersimple(), self.expressions.itersimple()))
-            ungrouped_symbols = set(
-                iter_chain(self._expressions.iterchained(groups=False), self._expressions.itersimple(groups=False)))
+            other_expressions = self._expressions.copy()
+            other_expressions.drop_group(group)
+            other_symbols = set(iter_chain(other_expressions.iterchained(), other_expressions.itersimple()))
             group_symbols = set(iter_chain(subgroup.iterchained(), subgroup.itersimple()))
-            other_symbols = all_symbols - ungrouped_symbols - group_symbols
 
-            symbols_to_clear = group_symbols - ungrouped_symbols - other_symbols
+            symbols_to_clear = group_symbols - other_symbols - RESERVED_WORDS
 
             for name in symbols_to_clear:
                 del self._scope[name]
-- 
2.43.0


From e9f6a9ab0fbc5da9de8444f1d4ac85b9097d7c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 11/54] fix: allow aggregating directly over a link of a table
 symbol

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 5fb072d..650f8b0 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -375,7 +375,7 @@ class TableSymbol(AbstractSymbol):
     def _get(self, chain_info: ChainTuple = None):
         assert chain_info is not None
 
-        chained = len(chain_info.chain) > 1
+        chained = len(chain_info.chain) > 1 or chain_info.withfunc
 
         if chained:
             assert isinstance(self._table, LinkedDataFrame)
-- 
2.43.0


From 26c2dcf30d44dfe2850f0c45e053b18bd6e9c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 12/54] fix: reject LinkedDataFrames, not plain tables, when
 links are not allowed

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 650f8b0..d8b8d0f 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -367,7 +367,7 @@ class TableSymbol(AbstractSymbol):
         for column in self._mandatory_attributes:
             assert column in data, f"Mandatory attribute {column} not found in DataFrame"
 
-        if not self._allow_links and not isinstance(data, LinkedDataFrame):
+        if not self._allow_links and isinstance(data, LinkedDataFrame):
             raise TypeError(f"LinkedDataFrames not allowed for symbol {self._name}")
 
         self._table = data
-- 
2.43.0


From cd5da5b65b5d5b1a1595d4eaa8f46bdcf579b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 13/54] fix: align matrices which differ in both rows and
 columns

---
 cheval/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/api.py b/cheval/api.py
index d8b8d0f..330d2fd 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -463,6 +463,8 @@ class MatrixSymbol(AbstractSymbol):
                 else:
                     row_indexer = slice(None)
 
+                if not rows_match and not cols_match:
+                    row_indexer = row_indexer[:, np.newaxis]  # Index the cross product of the rows and columns
                 matrix[row_indexer, col_indexer] = data
                 self._matrix = matrix
 
-- 
2.43.0


From 28ac1aeb1afaaf66a6d77c29fb581a02a2b03887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 14/54] fix: replace existing choices with everything beneath
 them, and only after validation

---
 cheval/model.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 3fbcd10..a13516f 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -78,18 +78,23 @@ class ChoiceModel(object):
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
         expected_namespace = name
-        if parent is None and name in self._all_nodes:
-            old_node = self._all_nodes.pop(name)  # Remove from model dictionary
-            self._top_nodes.remove(old_node)  # Remove from top-level choices
-        elif parent is not None:
+        if parent is not None:
             expected_namespace = parent.full_name + '.' + name
-            if expected_namespace in self._all_nodes:
-                del self._all_nodes[expected_namespace]  # Remove from model dictionary
 
         level = 1 if parent is None else (parent.level + 1)
         node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
+
+        # The name and scale are valid, so replace any existing node and everything beneath it
+        for full_name in list(self._all_nodes.keys()):
+            if full_name == expected_namespace or full_name.startswith(expected_namespace + '.'):
+                old_node = self._all_nodes.pop(full_name)  # Remove from model dictionary
+                self._top_nodes.discard(old_node)  # Remove from top-level choices
         self._all_nodes[expected_namespace] = node
 
+        # Nested choices get here without going through the model
+        self._cached_cols = None
+        self._cached_utils = None
+
         return node
 
     def add_choice(self, name: str, logsum_scale: float = 1.0) -> ChoiceNode:
-- 
2.43.0


From f84203314e587a0cdee3f209e3191556e99e164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 15/54] fix: accept iterators in add_choices()

---
 cheval/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/model.py b/cheval/model.py
index a13516f..b988fe2 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -141,6 +141,7 @@ class ChoiceModel(object):
         if self._cached_utils is not None:
             self._cached_utils = None
 
+        names = list(names)
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
         retval = {}
-- 
2.43.0


From 5d6f42c3f3d11b48cf55aea8fef413e0818838a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 16/54] fix: keep the value of a nest in a dict literal which
 also names its children

---
 cheval/parsing/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/expressions.py b/cheval/parsing/expressions.py
index a30ed9c..3745206 100644
--- a/cheval/parsing/expressions.py
+++ b/cheval/parsing/expressions.py
@@ -100,8 +100,9 @@ class Expression(object):
                 locs = choice_index.get_loc(tuple(new_key))
                 parent_loc = choice_index.get_loc(tuple(new_key + delta))
 
+                parent_val = new_array[0, parent_loc]
                 new_array[0, locs] = val
-                new_array[0, parent_loc] = 0
+                new_array[0, parent_loc] = parent_val
             else:
                 loc = choice_index.get_loc(tuple(new_key + delta))
                 new_array[0, loc] = val
-- 
2.43.0


From f46df5bfefe400ecf6f55b9db510ef1c6a87c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 17/54] fix: reject dict literals and choice filters outside of
 utility expressions

---
 cheval/parsing/ast_transformer.py | 2 +-
 cheval/parsing/expressions.py     | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index dd0827b..f9a4d6b 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -178,7 +178,7 @@ class ExpressionParser(ast.NodeTransformer):
         return resovled_keys
 
     def visit_dict(self, node):
-        if not self.mode != EvaluationMode.UTILITIES:
+        if self.mode != EvaluationMode.UTILITIES:
             raise UnsupportedSyntaxError("Dict literals not allowed in this context")
 
         substitution = '__dict%s' % len(self.dict_literals)
diff --git a/cheval/parsing/expressions.py b/cheval/parsing/expressions.py
index 3745206..e294bd7 100644
--- a/cheval/parsing/expressions.py
+++ b/cheval/parsing/expressions.py
@@ -10,7 +10,7 @@ import pandas as pd
 
 from .ast_transformer import ExpressionParser
 from .exceptions import UnsupportedSyntaxError
-from .expr_items import ChainedSymbol
+from .expr_items import ChainedSymbol, EvaluationMode
 
 
 def _split_filter(e: str) -> Tuple[str, Optional[str]]:
@@ -36,8 +36,11 @@ class Expression(object):
     symbols: Set[str] = attr.ib()
 
     @staticmethod
-    def parse(e: str, prior_simple: Set[str] = None, prior_chained: Set[str] = None, mode='cheval') -> Expression:
+    def parse(e: str, prior_simple: Set[str] = None, prior_chained: Set[str] = None,
+              mode=EvaluationMode.UTILITIES) -> Expression:
         split_e, filter_ = _split_filter(e)
+        if filter_ is not None and mode != EvaluationMode.UTILITIES:
+            raise UnsupportedSyntaxError("Choice filters using '@' are not allowed in this context")
 
         tree = ast.parse(split_e, mode='eval').body
         transformer = ExpressionParser(prior_simple, prior_chained, mode=mode)
-- 
2.43.0


From 23deb88be183428838588c669e4a2d40963b72f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 18/54] fix: accept column names and empty arguments inside
 aggregations

---
 cheval/parsing/ast_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index f9a4d6b..0f54090 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -274,7 +274,7 @@ class ExpressionParser(ast.NodeTransformer):
             raise UnsupportedSyntaxError("Keyword args are not supported inside aggregations")
         if call_node.starargs is not None or call_node.kwargs is not None:
             raise UnsupportedSyntaxError("Star-args or star-kwargs are not supported inside aggregations")
-        arg_expression = astor.to_source(call_node.args[0])
+        arg_expression = astor.to_source(call_node.args[0]).strip() if call_node.args else '1'
 
         if name in self.simple_symbols:
             raise UnsupportedSyntaxError("Inconsistent usage of symbol '%s'" % name)
-- 
2.43.0


From 57cad1947f417819fb3e3ccea76f0265b00ee915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 19/54] fix: keep the links of derived frames aligned with
 their own rows

---
 cheval/ldf/api.py | 72 +++++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 93f39b4..fb9e091 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -73,6 +73,13 @@ class _IndexMeta:
             return Index(arrays[0], name=name)
         return MultiIndex.from_arrays(arrays, names=self.labels)
 
+    def available(self, frame: DataFrame) -> bool:
+        if self.labels is None:
+            return True
+        if self.from_row_labels:
+            return all(label in frame.index.names or label in range(frame.index.nlevels) for label in self.labels)
+        return all(label in frame.columns for label in self.labels)
+
     def nlevels(self, frame: DataFrame) -> int:
         if self.labels is None:
             return frame.index.nlevels
@@ -89,7 +96,7 @@ class _IndexMeta:
 
 
 class _LinkMeta:
-    owner: LinkedDataFrame
+    owner: Optional[LinkedDataFrame]
     other: Union[LinkedDataFrame, DataFrame]
     _other_has_links: bool
     aggregation_required: bool
@@ -183,6 +190,8 @@ class _LinkMeta:
 
     def precompute(self):
         """Top-level method to precompute the indexer"""
+        if self.owner is None:
+            return  # The keys are gone, but the indexer was kept
         self._make_indexer(*self._get_indexers())
 
     def copy_meta(self) -> _LinkMeta:
@@ -190,6 +199,36 @@ class _LinkMeta:
         copied.aggregation_required = self.aggregation_required
         return copied
 
+    def _keys_follow(self, source: LinkedDataFrame, target: LinkedDataFrame) -> bool:
+        """Whether rows taken from `source` (which has this link) into `target` took their keys with them"""
+        if self.owner is None:
+            return False
+        if self.self_meta.from_row_labels and not source.index.equals(self.owner.index):
+            return False  # The index of `source` was replaced since the link was made
+        return self.self_meta.available(target)
+
+    def derive(self, source: LinkedDataFrame, target: LinkedDataFrame, same_rows: bool) -> Optional[_LinkMeta]:
+        """Makes the link for a frame derived from the owner of this link, to be indexed again when it is used. Returns
+        None if that's not possible."""
+        if same_rows:
+            return self.copy()
+        if not self._keys_follow(source, target):
+            return None
+        if self.self_meta.from_row_labels and isinstance(target.index, pd.RangeIndex):
+            return None  # Row labels were generated (e.g. ignore_index=True)
+        derived = self.copy_meta()
+        derived.owner = target
+        return derived
+
+    def subset(self, source: LinkedDataFrame, target: LinkedDataFrame, indices) -> _LinkMeta:
+        """Makes the link for a frame with only the specified rows of the owner of this link"""
+        keys_follow = self._keys_follow(source, target)
+        if self.flat_indexer is None and not keys_follow:
+            self.precompute()
+        copied = self.copy(indices)
+        copied.owner = target if keys_follow else None
+        return copied
+
     def copy(self, indices=None) -> _LinkMeta:
         copied = self.copy_meta()
 
@@ -621,34 +660,19 @@ class LinkedDataFrame(DataFrame):
         # Copy the link metadata from the parent dataframe
         # Note that as of pandas 1.5, the names of the methods is not considered stable
         # and may change in future versions.
-        if method == "groupby":
-            self._copy_links(other, reindex=True)
-        else:
-            for link_name, link in other._links.items():
-                self._links[link_name] = link.copy_meta()
-            self._identified_links = other._identified_links.copy()
+        same_rows = self.index.is_(other.index)  # Otherwise, rows have been selected or put in another order
+        for link_name, link in other._links.items():
+            derived = link.derive(other, self, same_rows)
+            if derived is not None:
+                self._links[link_name] = derived
+        self._identified_links = other._identified_links & set(self._links)
 
         return self
 
-    def _copy_links(self, parent: LinkedDataFrame, reindex: bool = False):
-        """Copies linkage information from a parent dataframe
-
-        If `reindex` is True, computes an indexer based on the parent DataFrame's and
-        this DataFrame's indexes and passes it to `_LinkMeta.copy` to modify the linkage.
-        """
-        if reindex:
-            indexer = parent.index.get_indexer(self.index)
-        else:
-            indexer = None
-        link_names = set()
-        for link_name, link in parent._links.items():
-            self._links[link_name] = link.copy(indexer)
-            link_names.add(link_name)
-        self._identified_links = link_names
-
     def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray):
         for link_name, link_entry in self._links.items():
-            target._links[link_name] = link_entry.copy(indexer)
+            target._links[link_name] = link_entry.subset(self, target, indexer)
+        target._identified_links = self._identified_links.copy()
 
     def _take_with_is_copy(self, indices, axis=0):  # pandas >= 1.0.x
         sliced: LinkedDataFrame = super()._take_with_is_copy(indices, axis=axis)
-- 
2.43.0


From 78fa2bd14686749854a636bcb414dc6db7eab6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 20/54] fix: rows added by reindexing are not linked to the
 last row's targets

---
 cheval/ldf/api.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index fb9e091..c9e4cc8 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -220,20 +220,22 @@ class _LinkMeta:
         derived.owner = target
         return derived
 
-    def subset(self, source: LinkedDataFrame, target: LinkedDataFrame, indices) -> _LinkMeta:
+    def subset(self, source: LinkedDataFrame, target: LinkedDataFrame, indices, allow_new=False) -> _LinkMeta:
         """Makes the link for a frame with only the specified rows of the owner of this link"""
         keys_follow = self._keys_follow(source, target)
         if self.flat_indexer is None and not keys_follow:
             self.precompute()
-        copied = self.copy(indices)
+        copied = self.copy(indices, allow_new)
         copied.owner = target if keys_follow else None
         return copied
 
-    def copy(self, indices=None) -> _LinkMeta:
+    def copy(self, indices=None, allow_new=False) -> _LinkMeta:
         copied = self.copy_meta()
 
         if self.flat_indexer is not None:
-            copied.flat_indexer = self.flat_indexer[indices] if indices is not None else self.flat_indexer
+            # With `allow_new`, an index of -1 stands for a row which doesn't exist, so it gets no linkage
+            flat_indexer = np.append(self.flat_indexer, -1) if allow_new else self.flat_indexer
+            copied.flat_indexer = flat_indexer[indices] if indices is not None else self.flat_indexer
 
         # If we are not taking a slice, copy missing indices (if they exist)
         # If we are taking a slice, leave missing indices to be lazy-computed
@@ -669,9 +671,9 @@ class LinkedDataFrame(DataFrame):
 
         return self
 
-    def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray):
+    def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray, allow_new: bool = False):
         for link_name, link_entry in self._links.items():
-            target._links[link_name] = link_entry.subset(self, target, indexer)
+            target._links[link_name] = link_entry.subset(self, target, indexer, allow_new)
         target._identified_links = self._identified_links.copy()
 
     def _take_with_is_copy(self, indices, axis=0):  # pandas >= 1.0.x
@@ -691,7 +693,7 @@ class LinkedDataFrame(DataFrame):
 
         if isinstance(new_frame, LinkedDataFrame) and (0 in reindexers):
             _, indexer = reindexers[0]
-            self.__subset_links(new_frame, indexer)
+            self.__subset_links(new_frame, indexer, allow_new=True)
         return new_frame
 
     def _slice(self, slobj, axis=0, kind=None):
-- 
2.43.0


From 4f884f98ac269aa6f97e3b61b91eac783e888993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 21/54] fix: keep links aligned when rows are changed in place

---
 cheval/ldf/api.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index c9e4cc8..f34d5d0 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -704,6 +704,16 @@ class LinkedDataFrame(DataFrame):
             self.__subset_links(new_frame, slobj)
         return new_frame
 
+    def _update_inplace(self, result, **kwargs):
+        if isinstance(result, LinkedDataFrame):
+            if not result._links:
+                result.__finalize__(self)
+            for link_entry in result._links.values():
+                if link_entry.owner is result:
+                    link_entry.owner = self
+            self._links, self._identified_links = result._links, result._identified_links
+        super()._update_inplace(result, **kwargs)
+
     def copy(self, deep=False) -> LinkedDataFrame:
         copied = super().copy(deep=deep)
 
-- 
2.43.0


From 25136cf1c815fae7b7ae18d83f099f1265de85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 22/54] fix: allow aggregating over a link without a
 precomputed indexer

---
 cheval/ldf/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index f34d5d0..8fd825c 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -602,6 +602,8 @@ class LinkedDataFrame(DataFrame):
                     raise NotImplementedError("Haven't found a way to instantiate NaT filler")
 
                 # Aggregate and align the result
+                if top.other_grouper is None:
+                    top.precompute()
                 grouper = top.other_grouper
                 grouped_result = to_numpy(getattr(evaluation.groupby(grouper), self._func_name)(**kwargs))
 
-- 
2.43.0


From 26ceddd196454b2df903d74b6a616a276355f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 23/54] fix: use a fill value that fits the type of the
 aggregated result

---
 cheval/ldf/api.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 8fd825c..6858791 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -605,9 +605,16 @@ class LinkedDataFrame(DataFrame):
                 if top.other_grouper is None:
                     top.precompute()
                 grouper = top.other_grouper
-                grouped_result = to_numpy(getattr(evaluation.groupby(grouper), self._func_name)(**kwargs))
+                grouped_result = getattr(evaluation.groupby(grouper), self._func_name)(**kwargs)
 
-                return self._owner._resolve_history(grouped_result, fill_value)
+                # Only integers have the integer fill, and only floats can be NaN. Note that counts are always integers.
+                result_type = infer_dtype(grouped_result)
+                if result_type == PandasDtype.BOOL_NAME:
+                    fill_value = False
+                elif result_type in {PandasDtype.INT_NAME, PandasDtype.UINT_NAME}:
+                    fill_value = int_fill
+
+                return self._owner._resolve_history(to_numpy(grouped_result), fill_value)
 
     # endregion
 
-- 
2.43.0


From a19f27c3e587f065c4015b9c721709701b42ae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 24/54] fix: align aggregated results when there are null keys
 or dropped groups

---
 cheval/ldf/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 6858791..b872aa9 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -614,6 +614,12 @@ class LinkedDataFrame(DataFrame):
                 elif result_type in {PandasDtype.INT_NAME, PandasDtype.UINT_NAME}:
                     fill_value = int_fill
 
+                # Put the groups in order, as there can be one for null keys (-1) and the function can drop groups
+                n_groups = grouper.max() + 1 if len(grouper) > 0 else 0
+                grouped_index = pd.RangeIndex(n_groups)
+                if not grouped_result.index.equals(grouped_index):
+                    grouped_result = grouped_result.reindex(grouped_index, fill_value=fill_value)
+
                 return self._owner._resolve_history(to_numpy(grouped_result), fill_value)
 
     # endregion
-- 
2.43.0


From c32a83706957a938976b4278317427d154686dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 25/54] fix: allow lists of columns in pivot_table()

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index b872aa9..361311f 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -873,7 +873,7 @@ class LinkedDataFrame(DataFrame):
                 new_columns[lookup_items] = self.evaluate(lookup_items)
         elif (lookup_items is not None) and not isinstance(lookup_items, (pd.Series, np.ndarray)):
             for item in lookup_items:
-                if lookup_items in self.columns:
+                if item in self.columns:
                     new_columns[item] = self[item]
                 else:
                     new_columns[item] = self.evaluate(item)
-- 
2.43.0


From 4f3e7343c1076d00e599ebef6619709bf232e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 26/54] fix: make temporary_fill_defaults() usable as a context
 manager

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 361311f..173e235 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -427,7 +427,7 @@ class LinkedDataFrame(DataFrame):
 
     def temporary_fill_defaults(self=None, **kwargs):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
-        yield from filler.temporary_fill_defaults(**kwargs)
+        return filler.temporary_fill_defaults(**kwargs)
 
     def reset_fill_defaults(self=None):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index 22032ea..a408d9d 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -88,6 +88,7 @@ class SeriesFillManager:
                 enum_ = PandasDtype[type_name]
                 previous_values[enum_] = self._fill_values[enum_]
                 self._fill_values[enum_] = default_value
+            yield
         finally:
             for enum_, original_value in previous_values.items():
                 self._fill_values[enum_] = original_value
-- 
2.43.0


From c50461d7fc3e8ebf0637181709e6333b8565aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 27/54] fix: apply class-level fill defaults to
 LinkedDataFrames without their own

---
 cheval/ldf/api.py          |  2 +-
 cheval/ldf/missing_data.py | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 173e235..26a0179 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -307,7 +307,7 @@ class LinkedDataFrame(DataFrame):
 
         object.__setattr__(self, '_links', {})
         object.__setattr__(self, '_identified_links', set())
-        object.__setattr__(self, '_instance_filler', SeriesFillManager())
+        object.__setattr__(self, '_instance_filler', SeriesFillManager(parent=LinkedDataFrame._class_filler))
         object.__setattr__(self, '_column_fills', {})
 
     def link_to(self, other: DataFrame, name: str, *, on: _LabelType = None, levels: _LabelType = None,
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index a408d9d..b68dbd3 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -57,14 +57,16 @@ _default_fills = {
     PandasDtype.TEXT_NAME: '', PandasDtype.CAT_NAME: np.nan, PandasDtype.TIME_NAME: np.datetime64('nat'),
     PandasDtype.OBJ_NAME: None
 }
+_NOT_SET = object()
 
 
 class SeriesFillManager:
 
     _fill_values: Dict[PandasDtype, Any]
 
-    def __init__(self, **kwargs):
-        self._fill_values = _default_fills.copy()
+    def __init__(self, parent: SeriesFillManager = None, **kwargs):
+        self._parent = parent  # Where to look for fill values not specified here
+        self.reset_fill_defaults()
 
         for type_name, default_value in kwargs.items():
             enum_ = PandasDtype[type_name]
@@ -72,6 +74,8 @@ class SeriesFillManager:
 
     def get_fill(self, s: pd.Series):
         dtype = infer_dtype(s)
+        if self._parent is not None and dtype not in self._fill_values:
+            return self._parent.get_fill(s)
         return self._fill_values[dtype]
 
     def set_fill_defaults(self, **kwargs):
@@ -86,12 +90,15 @@ class SeriesFillManager:
         try:
             for type_name, default_value in kwargs.items():
                 enum_ = PandasDtype[type_name]
-                previous_values[enum_] = self._fill_values[enum_]
+                previous_values[enum_] = self._fill_values.get(enum_, _NOT_SET)
                 self._fill_values[enum_] = default_value
             yield
         finally:
             for enum_, original_value in previous_values.items():
-                self._fill_values[enum_] = original_value
+                if original_value is _NOT_SET:
+                    self._fill_values.pop(enum_, None)
+                else:
+                    self._fill_values[enum_] = original_value
 
     def reset_fill_defaults(self):
-        self._fill_values = _default_fills.copy()
+        self._fill_values = _default_fills.copy() if self._parent is None else {}
-- 
2.43.0


From 3ce2aaa9cb14635cadfd26e0b62137dfedd885e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 28/54] fix: return the fill value for links to tables without
 rows

---
 cheval/ldf/api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 26a0179..25ad692 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -504,7 +504,12 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
-                series = series[indexer]  # Reorder/duplicate/drop the raw array
+                if len(series) > 0:
+                    series = series[indexer]  # Reorder/duplicate/drop the raw array
+                elif isinstance(series, np.ndarray):
+                    series = np.zeros(len(indexer), dtype=series.dtype)  # There is nothing to look up
+                else:
+                    series = series.take(indexer, allow_fill=True)
                 series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
 
-- 
2.43.0


From abff2dbd641ada3f3190cb2cb412d297077aed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 29/54] fix: accept integers for single levels in link_to()

---
 cheval/ldf/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 25ad692..e8b9205 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -29,11 +29,11 @@ _NUMERIC_TYPES = {PandasDtype.INT_NAME, PandasDtype.UINT_NAME, PandasDtype.FLOAT
 
 class _IndexMeta:
 
-    labels: List[str] = attr.ib(converter=lambda x: [x] if isinstance(x, str) else list(x))
+    labels: List[str] = attr.ib(converter=lambda x: [x] if isinstance(x, (str, int)) else list(x))
     from_row_labels: bool = attr.ib()
 
     def __init__(self, labels: Union[str, List[str]] = None, from_row_labels: bool = True):
-        if isinstance(labels, str):
+        if isinstance(labels, (str, int)):
             labels = [labels]
         elif labels is None:
             from_row_labels = True
-- 
2.43.0


From 9d7a492a1ba347434329dc6fd02c6adc330de146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 30/54] fix: raise LinkageSpecificationError for links with
 different numbers of levels

---
 cheval/ldf/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index e8b9205..b7b771d 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -114,7 +114,8 @@ class _LinkMeta:
         self_meta = _IndexMeta(self_labels, self_from_row_labels)
         other_meta = _IndexMeta(other_labels, other_from_row_labels)
 
-        assert self_meta.nlevels(owner) == other_meta.nlevels(other)
+        if self_meta.nlevels(owner) != other_meta.nlevels(other):
+            raise LinkageSpecificationError('The same number of levels must be used on both sides')
 
         other_has_links = isinstance(other, LinkedDataFrame)
 
-- 
2.43.0


From d86b3ef7cab7f6ea94938a2fd170fbf8db20cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 31/54] fix: label the results of discrete runs of nested
 models

---
 cheval/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index b988fe2..0e200bc 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -545,10 +545,12 @@ class ChoiceModel(object):
             if squeeze and n_draws == 1:
                 return pd.Series(raw_result[:, 0], index=record_index, name=result_name)
             return pd.DataFrame(raw_result, index=record_index, columns=column_index)
-        elif astype == 'category':
-            lookup_table = pd.Categorical(self.choices)
+
+        choices = self.choices.to_flat_index()  # The choices of nested models are labelled by tuples
+        if astype == 'category':
+            lookup_table = pd.Categorical(choices)
         else:
-            lookup_table = self.choices.astype(astype)
+            lookup_table = choices.astype(astype)
 
         retval = []
         for col in range(n_draws):
-- 
2.43.0


From 25e467ad7a6aadfd27119c6cbfe718987b2032f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 32/54] fix: convert nullable integers without gaps to integers
 instead of objects

---
 cheval/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/utils.py b/cheval/utils.py
index a32c411..28323cd 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -27,7 +27,7 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         # need to deal with NA values in integer series in pandas >= 0.24
         # https://pandas.pydata.org/pandas-docs/stable/whatsnew/v1.0.0.html#arrays-integerarray-now-uses-pandas-na
         if np.all(~s.isna()):  # no NA values found
-            return s.to_numpy()[...]
+            return s.to_numpy(dtype=getattr(dtype, 'numpy_dtype', dtype))[...]  # Nullable integers would be objects
         else:  # if NA values are present, yet pandas keeps the series as an IntegerArray instead of float
             try:
                 return np.asarray(s, dtype='float')[...]
-- 
2.43.0


From 06161997e7fba9d0f0236c17408d242b7d522dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 33/54] fix: keep the names substituted for the attributes of
 different symbols apart

---
 cheval/parsing/expr_items.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/expr_items.py b/cheval/parsing/expr_items.py
index f94b627..294d944 100644
--- a/cheval/parsing/expr_items.py
+++ b/cheval/parsing/expr_items.py
@@ -24,7 +24,7 @@ class ChainedSymbol(object):
         return ChainTuple(chain, func, args, True)
 
     def _make_sub(self, *, prepend_at=False) -> str:
-        s1 = "__sub_%s%s" % (self._name, len(self._lookups))
+        s1 = "__sub_%s_%s" % (self._name, len(self._lookups))
         if prepend_at:
             return '@' + s1
         return s1
-- 
2.43.0


From 5f74b6a17142cd8fe62443d6f18642d910e0d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 34/54] fix: keep the fill value of a matrix of integers when
 it is not an integer itself

---
 cheval/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 330d2fd..1f8d696 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -444,7 +444,13 @@ class MatrixSymbol(AbstractSymbol):
                 # Try to manually control the amount of excess RAM needed for partial utilities, as Pandas reindex()
                 # is quite hungry. This is important to keep this feature scalable.
 
-                matrix = np.full([len(rows), len(cols)], self._fill_value, dtype=to_numpy(data).dtype)
+                dtype, fill = to_numpy(data).dtype, np.asarray(self._fill_value)
+                with np.errstate(invalid='ignore'):
+                    if dtype.kind in 'biu' and fill.astype(dtype) != fill:
+                        # The fill value would be altered by the type of the data
+                        dtype = np.result_type(dtype, fill.dtype)
+
+                matrix = np.full([len(rows), len(cols)], self._fill_value, dtype=dtype)
                 if not cols_match:
                     assert self._reindex_cols
                     col_indexer = cols.get_indexer(data.columns)
-- 
2.43.0


From 97106cb26d03c74608823e96180c8d5a6039e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 35/54] fix: do not match missing keys of a link with other
 keys

---
 cheval/ldf/api.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index b7b771d..e3899e1 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -158,10 +158,19 @@ class _LinkMeta:
     def _get_indexers(self) -> Tuple[Index, Index]:
         return self.self_meta.get_indexer(self.owner), self.other_meta.get_indexer(self.other)
 
+    @staticmethod
+    def _missing_keys(indexer: Index) -> np.ndarray:
+        """Finds the keys which are missing, or which have a missing part. These don't match any other key."""
+        if isinstance(indexer, MultiIndex):
+            return np.any([codes == -1 for codes in indexer.codes], axis=0)
+        return indexer.isna()
+
     def _make_indexer(self, self_indexer: Index, other_indexer: Index):
+        other_rows = np.nonzero(~self._missing_keys(other_indexer))[0]  # The rows that can be linked to
         if self.aggregation_required:
-            group_ints, group_order = other_indexer.factorize()
-            self.other_grouper = group_ints
+            group_ints, group_order = other_indexer[other_rows].factorize()
+            self.other_grouper = np.full(len(other_indexer), -1, dtype=group_ints.dtype)
+            self.other_grouper[other_rows] = group_ints
             self.flat_indexer = group_order.get_indexer(self_indexer)
         else:  # Performance-tuned fast paths for constructing indexers
             if self_indexer.equals(other_indexer):  # Indexers are identical
@@ -170,7 +179,8 @@ class _LinkMeta:
                 # Originally, different logic was used if the self indexer didn't map cleanly onto the other indexer
                 # (the other was missing values, or the self had NaNs).
                 # Those were combined into a single case for performance purposes
-                self.flat_indexer = other_indexer.get_indexer(self_indexer)
+                self.flat_indexer = np.append(other_rows, -1)[other_indexer[other_rows].get_indexer(self_indexer)]
+        self.flat_indexer[self._missing_keys(self_indexer)] = -1
 
     def _compute_missing_indices(self):
         """Initializes `missing_indices` by finding the rows which do not have any linkages
-- 
2.43.0


From 9fdc834810f0a4feede551897b67091524b53a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 36/54] fix: copy the data of LinkedDataFrames by default, as
 pandas expects

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index e3899e1..b9fc03d 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -745,7 +745,7 @@ class LinkedDataFrame(DataFrame):
             self._links, self._identified_links = result._links, result._identified_links
         super()._update_inplace(result, **kwargs)
 
-    def copy(self, deep=False) -> LinkedDataFrame:
+    def copy(self, deep=True) -> LinkedDataFrame:
         copied = super().copy(deep=deep)
 
         # Copy the link data
-- 
2.43.0


From 3b66409f324effcbe8b49a7fceaafe641547054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 37/54] fix: keep links of derived frames right when the rows
 of their source change in place

---
 cheval/ldf/api.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index b9fc03d..b597b63 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -222,7 +222,10 @@ class _LinkMeta:
         """Makes the link for a frame derived from the owner of this link, to be indexed again when it is used. Returns
         None if that's not possible."""
         if same_rows:
-            return self.copy()
+            copied = self.copy()
+            if self.owner is source:  # Keep the keys as they are now, as the rows of `source` can be changed in place
+                copied.owner = DataFrame(source).copy(deep=False)
+            return copied
         if not self._keys_follow(source, target):
             return None
         if self.self_meta.from_row_labels and isinstance(target.index, pd.RangeIndex):
@@ -739,8 +742,10 @@ class LinkedDataFrame(DataFrame):
         if isinstance(result, LinkedDataFrame):
             if not result._links:
                 result.__finalize__(self)
-            for link_entry in result._links.values():
-                if link_entry.owner is result:
+            same_rows = result.index.is_(self.index)
+            for link_name, link_entry in result._links.items():
+                own_keys = link_name in self._links and self._links[link_name].owner is self
+                if link_entry.owner is result or (same_rows and own_keys and link_entry.self_meta.available(result)):
                     link_entry.owner = self
             self._links, self._identified_links = result._links, result._identified_links
         super()._update_inplace(result, **kwargs)
@@ -750,7 +755,7 @@ class LinkedDataFrame(DataFrame):
 
         # Copy the link data
         for link_name, link_entry in self._links.items():
-            copied._links[link_name] = link_entry.copy()
+            copied._links[link_name] = link_entry.derive(self, copied, True)
 
         return copied
 
-- 
2.43.0


From 8deb97873788e551e5c4b759f3b89054b9265fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 38/54] fix: pivot all columns of a LinkedDataFrame when no
 values are specified, as pandas does

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index b597b63..66fec8f 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -864,7 +864,7 @@ class LinkedDataFrame(DataFrame):
     def pivot_table(self, values=None, index=None, columns=None, **kwargs):
         # Construct a new DataFrame from any of the columns or lookups specified
         # in values, index, or columns, and then pivot that
-        new_columns = {}
+        new_columns = dict(self.items()) if values is None else {}  # All columns are values unless these are specified
         value_cols = self._resolve_columns(values)
         new_columns.update(value_cols)
         index_cols = self._resolve_columns(index)
-- 
2.43.0


From c9a5979309f36e646e4a99c7390c47d50d38953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 39/54] fix: reject set comprehensions, generators, lambdas and
 other unsupported syntax up front, like the other comprehensions

---
 cheval/parsing/ast_transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 0f54090..7efd5b7 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -13,7 +13,8 @@ from .expr_items import ChainedSymbol, EvaluationMode
 
 # Only nodes used in expressions are included, due to the limited parsing
 _UNSUPPORTED_NODES: Tuple[type] = (ast.Load, ast.Store, ast.Del, ast.IfExp, ast.Subscript, ast.ListComp, ast.DictComp,
-                                   ast.Starred)
+                                   ast.Starred, ast.SetComp, ast.GeneratorExp, ast.Lambda, ast.NamedExpr, ast.JoinedStr,
+                                   ast.Set)
 _NAN_REPRESENTATIONS = {'none', 'nan'}
 _NUMEXPR_FUNCTIONS = set(nee.functions.keys())
 _SUPPORTED_AGGREGATIONS = {
-- 
2.43.0


From 6b8519755fd6c8dd98b20127cebc5ad67b28bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 40/54] fix: reject star-args inside aggregations up front

---
 cheval/parsing/ast_transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 7efd5b7..3880ae6 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -273,7 +273,8 @@ class ExpressionParser(ast.NodeTransformer):
 
         if len(call_node.keywords) > 0:
             raise UnsupportedSyntaxError("Keyword args are not supported inside aggregations")
-        if call_node.starargs is not None or call_node.kwargs is not None:
+        if call_node.starargs is not None or call_node.kwargs is not None \
+                or any(isinstance(arg, ast.Starred) for arg in call_node.args):
             raise UnsupportedSyntaxError("Star-args or star-kwargs are not supported inside aggregations")
         arg_expression = astor.to_source(call_node.args[0]).strip() if call_node.args else '1'
 
-- 
2.43.0


From 0ceb3bd1afff2b7d41556726428b75e9b80ff768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 41/54] fix: a rejected choice name or scale no longer discards
 the partial utilities

---
 cheval/model.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 0e200bc..0b443d1 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -113,11 +113,6 @@ class ChoiceModel(object):
         Returns:
             ChoiceNode: The added choice node, which also has an "add_choice" method for constructing nested models.
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         node = self._create_node(name, logsum_scale)
         self._top_nodes.add(node)
         return node
@@ -136,11 +131,6 @@ class ChoiceModel(object):
         Returns:
             dict: Mapping of name: ChoiceNode for the added nodes
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         names = list(names)
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
-- 
2.43.0


From 62f87ad6fd2863deb722e9065714a7285631a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 42/54] fix: indexing a link again also finds the rows without
 a match again

---
 cheval/ldf/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 66fec8f..4257035 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -181,6 +181,7 @@ class _LinkMeta:
                 # Those were combined into a single case for performance purposes
                 self.flat_indexer = np.append(other_rows, -1)[other_indexer[other_rows].get_indexer(self_indexer)]
         self.flat_indexer[self._missing_keys(self_indexer)] = -1
+        self._missing_indices = None  # To be computed again
 
     def _compute_missing_indices(self):
         """Initializes `missing_indices` by finding the rows which do not have any linkages
-- 
2.43.0


From 9a626e1da799e89a134b15f8b2ed685b15402f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 43/54] fix: set_fill_defaults() with an unknown type name
 changes no fill value

---
 cheval/ldf/missing_data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index b68dbd3..71ab191 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -79,9 +79,8 @@ class SeriesFillManager:
         return self._fill_values[dtype]
 
     def set_fill_defaults(self, **kwargs):
-        for type_name, default_value in kwargs.items():
-            enum_ = PandasDtype[type_name]
-            self._fill_values[enum_] = default_value
+        # Look up all names first, so that nothing changes if one of them is unknown
+        self._fill_values.update({PandasDtype[type_name]: default_value for type_name, default_value in kwargs.items()})
 
     @contextmanager
     def temporary_fill_defaults(self, **kwargs):
-- 
2.43.0


From 1da3a4802bdde38272fb6ea07f0b9a168fb8a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 44/54] fix: a debug_id such as 0 or an empty label is not
 ignored

---
 cheval/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 0b443d1..df9015b 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -457,7 +457,7 @@ class ChoiceModel(object):
         debug_label = None
         debug_expr = []
         debug_results = []
-        if self.debug_id:
+        if self.debug_id is not None:
             debug_label = row_index.get_loc(self.debug_id)
 
         utilities = to_numpy(self._partial_utilities).copy()  # Don't accumulate into the cached partial utilities
@@ -496,11 +496,11 @@ class ChoiceModel(object):
             self._kernel_eval(expr.transformed, local_dict, utilities, choice_mask, casting_rule=casting_rule)
 
             # save each expression and values for a specific od pair
-            if self.debug_id:
+            if self.debug_id is not None:
                 debug_expr.append(expr.raw)
                 debug_results.append(utilities[debug_label].copy())
 
-        if self.debug_id:  # expressions.tolist() doesn't work...
+        if self.debug_id is not None:  # expressions.tolist() doesn't work...
             self.debug_results = pd.DataFrame(debug_results, index=debug_expr, columns=col_index)
 
         nans = np.isnan(utilities)
-- 
2.43.0


From 7c77d9cb099403cea71733e355d3a7b291d72f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 45/54] fix: a sum of expression groups doesn't share subgroups
 with its operands

---
 cheval/api.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 1f8d696..099c925 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -204,15 +204,10 @@ class ExpressionGroup(object):
         new._ungrouped_expressions = self._ungrouped_expressions + other._ungrouped_expressions
 
         new._subgroups = {}
-        keys = set(self._subgroups.keys()) | set(other._subgroups.keys())
-        for key in keys:
-            key_in_self, key_in_other = key in self._subgroups, key in other._subgroups
-            if key_in_self and key_in_other:
-                new._subgroups[key] = self._subgroups[key] + other._subgroups[key]
-            elif key_in_self:
-                new._subgroups[key] = self._subgroups[key]
-            elif key_in_other:
-                new._subgroups[key] = other._subgroups[key]
+        for key in list(self._subgroups) + [key for key in other._subgroups if key not in self._subgroups]:
+            # Subgroups which only one of the operands has are copied, so that appending to the sum doesn't change it
+            empty = ExpressionSubGroup(key)
+            new._subgroups[key] = self._subgroups.get(key, empty) + other._subgroups.get(key, empty)
 
         return new
 
-- 
2.43.0


From 17785ad883cefb5eca77778de84851e963d9a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 46/54] fix: further arguments of an aggregation are rejected
 instead of ignored

---
 cheval/parsing/ast_transformer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 3880ae6..20b9bab 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -276,6 +276,8 @@ class ExpressionParser(ast.NodeTransformer):
         if call_node.starargs is not None or call_node.kwargs is not None \
                 or any(isinstance(arg, ast.Starred) for arg in call_node.args):
             raise UnsupportedSyntaxError("Star-args or star-kwargs are not supported inside aggregations")
+        if len(call_node.args) > 1:
+            raise UnsupportedSyntaxError("Aggregations take a single expression")
         arg_expression = astor.to_source(call_node.args[0]).strip() if call_node.args else '1'
 
         if name in self.simple_symbols:
-- 
2.43.0


From a9ed7d308f5b59f8fd84d73ffaf6a63a1a2f4bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 47/54] fix: reject unary plus and invert as unsupported syntax

---
 cheval/parsing/ast_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 20b9bab..1f0ca66 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -66,7 +66,7 @@ class ExpressionParser(ast.NodeTransformer):
             return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
         elif isinstance(node.op, ast.USub):
             return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
-        raise NotImplementedError(type(node.op))
+        raise UnsupportedSyntaxError("Operator '%s' is not supported" % node.op.__class__.__name__)
 
     def visit_boolop(self, node):
         # Converts 'and' and 'or' into '&' and '|' which NumExpr supports
-- 
2.43.0


From cbb9295ef9ff4c88f35e66f86c1636c21b069311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 48/54] fix: reject identity and membership comparisons instead
 of evaluating them wrongly

---
 cheval/parsing/ast_transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 1f0ca66..23be8ff 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -89,6 +89,10 @@ class ExpressionParser(ast.NodeTransformer):
         return left
 
     def visit_compare(self, compare_node: ast.Compare):
+        for op in compare_node.ops:
+            if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
+                raise UnsupportedSyntaxError("Operator '%s' is not supported" % op.__class__.__name__)
+
         # Visit downstream symbols
         new_left = self.visit(compare_node.left)
         new_comparators = [self.visit(node) for node in compare_node.comparators]
-- 
2.43.0


From 690fe47cab5ea2f1183a2fe304e67cc4a40bc5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 49/54] fix: report complex values in dict literals as
 unsupported syntax

---
 cheval/parsing/ast_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 23be8ff..161fc0e 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -210,7 +210,7 @@ class ExpressionParser(ast.NodeTransformer):
 
             return new_node
 
-        except (ValueError, AssertionError):
+        except (TypeError, ValueError, AssertionError):
             # Catch simple errors and emit them as syntax errors
             raise UnsupportedSyntaxError("Dict literals are supported for numeric values only")
 
-- 
2.43.0


From 1b9333c394c8a537c7ad5fa0813b7df33c260b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 50/54] fix: refuse a number of logsum scales other than that
 of the choices

---
 cheval/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/model.py b/cheval/model.py
index df9015b..3f9ef7f 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -134,6 +134,9 @@ class ChoiceModel(object):
         names = list(names)
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
+        logsum_scales = list(logsum_scales)
+        if len(logsum_scales) != len(names):
+            raise ValueError(f"Got {len(logsum_scales)} logsum scales for {len(names)} choices")
         retval = {}
         for name, logsum_scale in zip(names, logsum_scales):
             node = self._create_node(name, logsum_scale)
-- 
2.43.0


From 0140b50ba1cc29fe47e54b07845f0999ee24eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 51/54] fix: text can be assigned to scalar symbols, as
 documented

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 099c925..b9e7a41 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -266,7 +266,7 @@ class NumberSymbol(AbstractSymbol):
         self._val = None
 
     def assign(self, data):
-        self._val = float(data)
+        self._val = data.encode() if isinstance(data, str) else float(data)  # NumExpr only supports byte-strings
 
     def _get(self):
         if self._val is None:
-- 
2.43.0


From ccfe643015b4662ed9d8f09e4ec19d3c251e40e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:10 +0000
Subject: [PATCH 52/54] fix: integer categories with missing values become
 not-a-number instead of failing

---
 cheval/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/utils.py b/cheval/utils.py
index 28323cd..92e2b19 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -41,6 +41,8 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         if category_index.dtype.name == 'object':
             max_len = category_index.str.len().max()
             typename = f'S{max_len}'
+        elif is_integer_dtype(category_index.dtype) and categorical.isna().any():
+            typename = 'float'  # Integers can't represent missing values
         else:
             typename = category_index.dtype
 
-- 
2.43.0


From c1cb2816c9bf1c74da300b205ecc52a94ff1875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:10 +0000
Subject: [PATCH 53/54] fix: boolean categories can be used in expressions

---
 cheval/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cheval/utils.py b/cheval/utils.py
index 92e2b19..4cbe713 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -38,7 +38,9 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         categorical = s.values
 
         category_index = categorical.categories
-        if category_index.dtype.name == 'object':
+        if category_index.is_boolean() and not categorical.isna().any():
+            typename = 'bool'
+        elif category_index.dtype.name == 'object':
             max_len = category_index.str.len().max()
             typename = f'S{max_len}'
         elif is_integer_dtype(category_index.dtype) and categorical.isna().any():
-- 
2.43.0


From 28ba2d9a8e7df569c54b773107623a0dd82a8950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:27 +0000
Subject: [PATCH 54/54] fix: text columns without rows can be used in
 expressions

---
 cheval/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheval/utils.py b/cheval/utils.py
index 4cbe713..94eae7f 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -41,7 +41,7 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         if category_index.is_boolean() and not categorical.isna().any():
             typename = 'bool'
         elif category_index.dtype.name == 'object':
-            max_len = category_index.str.len().max()
+            max_len = category_index.str.len().max() if len(category_index) > 0 else 1
             typename = f'S{max_len}'
         elif is_integer_dtype(category_index.dtype) and categorical.isna().any():
             typename = 'float'  # Integers can't represent missing values
@@ -52,7 +52,7 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
     elif dtype.name == 'object':
         # Object or text column
         # This is much slower than other dtypes, but it can't be helped. For now, users should just use Categoricals
-        max_length = s.str.len().max()
+        max_length = s.str.len().max() if len(s) > 0 else 1
         if np.isnan(max_length):
             raise TypeError('Could not get max string length')
 
-- 
2.43.0

