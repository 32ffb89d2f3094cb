From a9e2a813aba1c615216955bbc3ae4c72f22fee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:17 +0000
Subject: [PATCH 01/31] fix: read predictions by position when averaging
 partial dependence

A predict function may return a pandas Series. Slicing it with y[start:end]
selects by label when the index is of floats, which fails or averages the
wrong rows.
---
 artemis/_utilities/pd_calculator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 5192233..edef981 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -135,14 +135,14 @@ class PartialDependenceCalculator:
             self.fill_pd_minus_single(range_dict, X_full)
 
     def fill_pd_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = np.asarray(self.predict_function(self.model, X_full))
         for var_name, var_val in range_dict.keys():
             start, end = range_dict[(var_name, var_val)]
             value_index = get_index(self.pd_single[var_name]["f_values"], var_val)
             self.pd_single[var_name]["pd_values"][value_index] = np.mean(y[start:end])
 
     def fill_pd_pairs(self, range_dict, X_full):
-        y = self.predict_function(self.model, X_full)
+        y = np.asarray(self.predict_function(self.model, X_full))
         for var_name1, var_name2, var_val1, var_val2 in range_dict.keys():
             start, end = range_dict[(var_name1, var_name2, var_val1, var_val2)]
             value_index1 = get_index(self.pd_pairs[(var_name1, var_name2)]["f1_values"], var_val1)
@@ -150,7 +150,7 @@ class PartialDependenceCalculator:
             self.pd_pairs[(var_name1, var_name2)]["pd_values"][value_index1, value_index2] = np.mean(y[start:end])
 
     def fill_pd_minus_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = np.asarray(self.predict_function(self.model, X_full))
         for var_name, row_id in range_dict.keys():
             start, end = range_dict[(var_name, row_id)]
             self.pd_minus_single[var_name]["pd_values"][row_id] = np.mean(y[start:end])
-- 
2.43.0


From 09917e14eaa1b9c30afe1bc06ee48d3bab2a811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:43 +0000
Subject: [PATCH 02/31] fix: permutation importance over all features when none
 are given

features=None is the documented default, but it was iterated over as is.
---
 .../model_agnostic/_permutational_importance.py                 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index 4901bbd..87deb10 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -6,6 +6,7 @@ from tqdm import tqdm
 
 from artemis.importance_methods._method import FeatureImportanceMethod
 from artemis._utilities.domain import ImportanceMethod, ProgressInfoLog, ProblemType
+from artemis._utilities.ops import all_if_none
 from artemis._utilities.performance_metrics import Metric, RMSE
 
 
@@ -74,6 +75,7 @@ class PermutationImportance(FeatureImportanceMethod):
         pd.DataFrame
             Result dataframe containing feature importance with columns: "Feature", "Importance"
         """
+        features = all_if_none(X.columns, features)
         self.feature_importance = _permutation_importance(
             model, X, y_true, self.metric, n_repeat, features, show_progress, self._random_generator
         )
-- 
2.43.0


From b1e419e3251201180408de0f816ad726ace47009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:43 +0000
Subject: [PATCH 03/31] fix: pair sampled rows with their own targets for any
 row labels

Targets were looked up by the labels of the sampled rows, which fails or
picks other rows' targets unless the index is 0..n-1. The rows drawn for a
given random_state are unchanged.
---
 artemis/_utilities/ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index f399978..2e525c8 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -26,8 +26,9 @@ def sample_both_if_not_none(random_generator, X: pd.DataFrame, y: np.array, n: i
     if n is None:
         return X, y
     else:
-        X_sampled = X.sample(n, random_state=random_generator)
-        return X_sampled, y[X_sampled.index]
+        rows = pd.Series(np.arange(len(X))).sample(n, random_state=random_generator).to_numpy()
+        y_sampled = y.iloc[rows] if isinstance(y, pd.Series) else np.asarray(y)[rows]
+        return X.iloc[rows], y_sampled
 
 
 def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
-- 
2.43.0


From b79c87650b335e75d37336c23f1d7455f158c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:11 +0000
Subject: [PATCH 04/31] fix: partial dependence calculator keeps its own copy
 of the data

The calculator shared the caller's frame, so data changed in place after it
was built still compared equal and stale values were reused for it.
---
 artemis/_utilities/pd_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index edef981..4204c61 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -12,7 +12,7 @@ class PartialDependenceCalculator:
     def __init__(self, model, X: pd.DataFrame, predict_function: Optional[Callable] = None, batchsize: int = 2000):
         self.model = model
         self.predict_function = get_predict_function(model, predict_function)
-        self.X = X
+        self.X = X.copy()
         self.X_len = len(self.X)
         self.batchsize = batchsize
         self.pd_single = {col: 
-- 
2.43.0


From 5b5885e0f22032b66a05fcf05428bcc617516fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:30 +0000
Subject: [PATCH 05/31] fix: conditional minimal depth for trees grown with
 max_leaf_nodes

---
 .../_conditional_minimal_depth.py              | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 7525c24..dfe089e 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -233,12 +233,22 @@ def _bfs(tree: pd.DataFrame):
 
 
 def _tree_representation(decision_tree_object):
-    """Efficient, sklearn-like table tree representation. Row = node in the tree."""
+    """Efficient, sklearn-like table tree representation. Row = node in the tree, nodes numbered in depth-first order."""
+    children_left, children_right = decision_tree_object.children_left, decision_tree_object.children_right
+    # trees grown with `max_leaf_nodes` are numbered best-first, subtrees are consecutive ids only in depth-first order
+    order, stack = [], [0]
+    while stack:
+        node = stack.pop()
+        order.append(node)
+        if children_left[node] >= 0:
+            stack += [children_right[node], children_left[node]]
+    new_id = np.empty(decision_tree_object.node_count, dtype=int)
+    new_id[order] = np.arange(len(order))
     return pd.DataFrame({
         "id": range(decision_tree_object.node_count),
-        "left_child": decision_tree_object.children_left,
-        "right_child": decision_tree_object.children_right,
-        "split_variable": decision_tree_object.feature,
+        "left_child": np.where(children_left >= 0, new_id[children_left], children_left)[order],
+        "right_child": np.where(children_right >= 0, new_id[children_right], children_right)[order],
+        "split_variable": decision_tree_object.feature[order],
     })
 
 
-- 
2.43.0


From 957d2d4e6fae2a3e5e0e15782436deecf9365c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:19 +0000
Subject: [PATCH 06/31] fix: conditional minimal depth of a pair does not mix
 pairs whose joined names agree

---
 .../model_specific/random_forest/_conditional_minimal_depth.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index dfe089e..4a71b6c 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -56,7 +56,7 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
         compare_ovo = self.ovo.copy().rename(columns={"root_variable": "Feature 1", "variable": "Feature 2"})
-        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: "".join(sorted(x)), axis=1)
+        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: tuple(sorted(x)), axis=1)
         return (compare_ovo.groupby("id")
                            .agg({"Feature 1": "first", "Feature 2": "first", self.method: "mean"})
                            .sort_values(InteractionMethod.CONDITIONAL_MINIMAL_DEPTH,
-- 
2.43.0


From 649bdafcf4f7072033755264c2ef81b7ff4ff1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:06 +0000
Subject: [PATCH 07/31] fix: performance-based method's importance follows its
 random_state

---
 .../model_agnostic/performance_based/_sejong_oh.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 7468f36..9d9c0b3 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -103,7 +103,7 @@ class SejongOhMethod(FeatureInteractionMethod):
         self.ovo = _perf_based_ovo(self, model, self.X_sampled, self.y_sampled, n_repeat, show_progress)
 
         # calculate feature importance
-        self._feature_importance_obj = PermutationImportance(self.metric)
+        self._feature_importance_obj = PermutationImportance(self.metric, random_state=self._random_generator)
         self.feature_importance = self._feature_importance_obj.importance(model, X=self.X_sampled,
                                                                             y_true=self.y_sampled,
                                                                             n_repeat=n_repeat,
-- 
2.43.0


From 07915437a1acb6954d63914a06986577215177fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:54 +0000
Subject: [PATCH 08/31] fix: profile and zenplot of an unfitted method raise
 the not-fitted error

---
 .../model_agnostic/partial_dependence_based/_pdp.py          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 6a29057..ba8810f 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -10,6 +10,7 @@ import seaborn as sns
 from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
 from artemis.interactions_methods._method import FeatureInteractionMethod
 from artemis._utilities.domain import ProgressInfoLog, VisualizationType
+from artemis._utilities.exceptions import MethodNotFittedException
 from artemis._utilities.ops import get_predict_function, sample_if_not_none, all_if_none
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 from artemis._utilities.zenplot import (
@@ -132,6 +133,8 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         figsize : (float, float) 
             Size of plot. Default is (8, 6).
         """
+        if self.ovo is None:
+            raise MethodNotFittedException(self.method)
         plt.figure(figsize=figsize)
         if feature2 is not None:
             pair_key = self.pd_calculator._get_pair_key((feature1, feature2))
@@ -197,6 +200,8 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         ----------
         - https://www.jstatsoft.org/article/view/v095i04
         """
+        if self.ovo is None:
+            raise MethodNotFittedException(self.method)
         fig = plt.figure(figsize=figsize)
         to_vis = self.ovo.copy().iloc[:(zenpath_length + 1)]
         min_pd, max_pd = get_pd_dict(self.pd_calculator, to_vis)
-- 
2.43.0


From 67736406455e5a8a36930833962c7cd4a58aba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:07 +0000
Subject: [PATCH 09/31] fix: H-statistic fitted without one-vs-all values can
 be plotted

---
 .../partial_dependence_based/_friedman_h_statistic.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index ceeaa46..27a6d29 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -176,7 +176,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             Used for 'graph' visualization. Minimum (or maximum, depends on method) value of interaction to display
             corresponding edge on visualization. Default depends on the interaction method.
         """
-        if self.ova is None:
+        if self.ovo is None or (self.ova is None and vis_type == VisualizationType.BAR_CHART_OVA):
             raise MethodNotFittedException(self.method)
 
         self.visualizer.plot(self.ovo,
-- 
2.43.0


From 77a30932e7b03db9b495875dfb9a8b4181a71000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:36 +0000
Subject: [PATCH 10/31] fix: failed or repeated partial dependence based fits
 leave no results of earlier fits

---
 .../partial_dependence_based/_friedman_h_statistic.py     | 6 +++++-
 .../model_agnostic/partial_dependence_based/_pdp.py       | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index 27a6d29..7fee867 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -104,8 +104,12 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
         calculate_ova : bool
             If True, one vs all interactions will be calculated. Default is True.
         """
+        self.ovo = self.ova = None
+        self._calculate_ova = calculate_ova
         super().fit(model, X, n, predict_function, features, show_progress, batchsize, pd_calculator)
-        if calculate_ova:
+
+    def _calculate_additional_interactions(self, show_progress: bool):
+        if self._calculate_ova:
             self.ova = self._calculate_ova_interactions_from_pd(show_progress)
 
     def plot(self,
diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index ba8810f..f713be6 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -76,6 +76,7 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
             Providing this object speeds up the calculation as partial dependence values do not need to be recalculated.
             If None, it will be created from scratch. Default is None.
         """
+        self.ovo = self.feature_importance = None
         self.predict_function = get_predict_function(model, predict_function)
         self.model = model
 
@@ -98,7 +99,7 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 )
             self.pd_calculator = pd_calculator
 
-        self.ovo = self._calculate_ovo_interactions_from_pd(show_progress=show_progress)
+        ovo = self._calculate_ovo_interactions_from_pd(show_progress=show_progress)
 
         self._feature_importance_obj = PartialDependenceBasedImportance()
         self.feature_importance = self._feature_importance_obj.importance(
@@ -108,6 +109,8 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
             show_progress=show_progress,
             pd_calculator=self.pd_calculator,
         )
+        self._calculate_additional_interactions(show_progress)
+        self.ovo = ovo
 
     def plot_profile(
             self,
@@ -301,6 +304,9 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         clb = plt.colorbar(cs, cax=cbar_ax)
         clb.ax.set_title("PD value")
 
+    def _calculate_additional_interactions(self, show_progress: bool):
+        """Results a method calculates beside pair interactions. Called before the fit is regarded as complete."""
+
     @abstractmethod
     def _calculate_ovo_interactions_from_pd(self, show_progress: bool):
         ...
-- 
2.43.0


From c4e2b50f64d722c4d2ce0a768681e1a6cd54397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:42 +0000
Subject: [PATCH 11/31] fix: failed performance based fit leaves no results of
 earlier fits

---
 .../model_agnostic/performance_based/_sejong_oh.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 9d9c0b3..34ea728 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -97,10 +97,11 @@ class SejongOhMethod(FeatureInteractionMethod):
         show_progress : bool
             If True, progress bar will be shown. Default is False.
         """
+        self.ovo = self.feature_importance = None
         self.X_sampled, self.y_sampled = sample_both_if_not_none(self._random_generator, X, y_true, n)
         self.features_included = all_if_none(X.columns, features)
         self.pairs = list(combinations(self.features_included, 2))
-        self.ovo = _perf_based_ovo(self, model, self.X_sampled, self.y_sampled, n_repeat, show_progress)
+        ovo = _perf_based_ovo(self, model, self.X_sampled, self.y_sampled, n_repeat, show_progress)
 
         # calculate feature importance
         self._feature_importance_obj = PermutationImportance(self.metric, random_state=self._random_generator)
@@ -109,6 +110,7 @@ class SejongOhMethod(FeatureInteractionMethod):
                                                                             n_repeat=n_repeat,
                                                                             features=self.features_included,
                                                                             show_progress=show_progress)
+        self.ovo = ovo
 
 
 def _perf_based_ovo(
-- 
2.43.0


From c314c83f7cae5baeac21e65dd5c135b3344fb345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:50 +0000
Subject: [PATCH 12/31] fix: failed additivity fit leaves no results of earlier
 fits

---
 artemis/additivity/_additivity_meter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index 1863f5a..7fa0eaa 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -78,6 +78,7 @@ class AdditivityMeter:
             Additivity index of the model. Value from [0, 1] interval where 1 means that the model is additive, 
             and 0 means that the model is not additive.
         """
+        self.additivity_index = self.full_result = None
         self.predict_function = get_predict_function(model, predict_function)
         self.model = model
         self.X_sampled = sample_if_not_none(self._random_generator, X, n)
@@ -97,7 +98,6 @@ class AdditivityMeter:
                 )
             self.pd_calculator = pd_calculator
 
-        self.full_result = self.X_sampled.copy()
         self.additivity_index = self._calculate_additivity(show_progress=show_progress)
         return self.additivity_index
 
@@ -107,11 +107,12 @@ class AdditivityMeter:
         )
 
         self.preds = self.predict_function(self.model, self.X_sampled)
+        full_result = self.X_sampled.copy()
         for var in self.X_sampled.columns:
-            self.full_result[var] = self.pd_calculator.get_pd_single(var, self.X_sampled[var].values) - np.mean(self.preds)
+            full_result[var] = self.pd_calculator.get_pd_single(var, self.X_sampled[var].values) - np.mean(self.preds)
 
-        self.full_result = self.full_result
-        self.full_result["centered_prediction"] = self.preds - np.mean(self.preds)
+        full_result["centered_prediction"] = self.preds - np.mean(self.preds)
 
+        self.full_result = full_result
         sum_first_order_effects = self.full_result.values[:, :-1].sum(axis=1) + np.mean(self.preds)
         return 1-np.sum((self.preds - sum_first_order_effects)**2) / np.sum((self.full_result["centered_prediction"])**2)
-- 
2.43.0


From 8faf2ed3ed384e37bd056fdb7da46d1c7dd45a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:24 +0000
Subject: [PATCH 13/31] fix: failed split score fit leaves no results of
 earlier fits

---
 .../model_specific/gb_trees/_split_score.py                  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index 0b4d0a7..687ac3e 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -85,6 +85,8 @@ class SplitScoreMethod(FeatureInteractionMethod):
             Whether to return only pair of sequential features that fulfill the definition of interaction 
             (with better split score for child feature).
         """
+        # results of an earlier fit are dropped first, `ovo` is published last: a fit that fails is not fitted
+        self.ovo = self.full_ovo = self.full_result = self.feature_importance = None
         if not isinstance(model, GBTreesHandler):
             model = GBTreesHandler(model)
         self.metric = interaction_selected_metric
@@ -93,7 +95,7 @@ class SplitScoreMethod(FeatureInteractionMethod):
             model.trees_df, model.package, show_progress
         )
         self.full_ovo = _get_summary(self.full_result, only_def_interactions)
-        self.ovo = _get_ovo(self, self.full_ovo, interaction_selected_metric)
+        ovo = _get_ovo(self, self.full_ovo, interaction_selected_metric)
 
         # calculate feature importance
         self._feature_importance_obj = SplitScoreImportance()
@@ -102,6 +104,7 @@ class SplitScoreMethod(FeatureInteractionMethod):
             selected_metric=importance_selected_metric,
             trees_df=model.trees_df,
         )
+        self.ovo = ovo
 
     def plot(self, vis_type: str = VisualizationType.HEATMAP, title: str = "default", figsize: Tuple[float, float] = (8, 6), **kwargs):
         """
-- 
2.43.0


From e64f948d74c7b9f2530b7b318deab2232e7e583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:06 +0000
Subject: [PATCH 14/31] fix: failed conditional minimal depth fit leaves no
 results of earlier fits

---
 .../random_forest/_conditional_minimal_depth.py              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 4a71b6c..54f13db 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -79,13 +79,16 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         show_progress : bool
             If True, progress bar will be shown. Default is False.
         """
+        # results of an earlier fit are dropped first, `ovo` is published last: a fit that fails is not fitted
+        self.ovo = self.raw_result_df = self.feature_importance = None
         self.features_included = model.feature_names_in_.tolist()
         self.pairs = list(combinations(self.features_included, 2))
         column_dict = _make_column_dict(model.feature_names_in_)
         self.raw_result_df, trees = _calculate_conditional_minimal_depths(model.estimators_, len(model.feature_names_in_), show_progress)
-        self.ovo = _summarise_results(self.raw_result_df, column_dict, self.method, self._interactions_ascending_order)
+        ovo = _summarise_results(self.raw_result_df, column_dict, self.method, self._interactions_ascending_order)
         self._feature_importance_obj = MinimalDepthImportance()
         self.feature_importance = self._feature_importance_obj.importance(model,trees)
+        self.ovo = ovo
 
     def plot(self, vis_type: str = VisualizationType.HEATMAP, title: str = "default", figsize: Tuple[float, float] = (8, 6), **kwargs):
         """
-- 
2.43.0


From a0e325804735fb518f663683a560545ac4c27a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:35 +0000
Subject: [PATCH 15/31] fix: failed split score importance does not mix results
 of two calls

---
 artemis/importance_methods/model_specific/_split_score.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index f88e901..53d6f3b 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -72,11 +72,12 @@ class SplitScoreImportance(FeatureImportanceMethod):
 
         if trees_df["depth"].isnull().values.any():
             trees_df = _calculate_depth(trees_df, show_progress)
-        self.full_result = _calculate_all_feature_importance(
+        full_result = _calculate_all_feature_importance(
             trees_df, features, selected_metric
         )
-        self.feature_importance = _select_metric(self.full_result, selected_metric)
-        self.selected_metric = selected_metric
+        feature_importance = _select_metric(full_result, selected_metric)
+        # published together: a call that fails changes nothing
+        self.full_result, self.feature_importance, self.selected_metric = full_result, feature_importance, selected_metric
 
         return self.feature_importance
 
-- 
2.43.0


From 72035399cc36643f4a275eef13ffdf1925ab520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:00 +0000
Subject: [PATCH 16/31] fix: rank correlation compares the two methods' ranks
 of each pair

---
 artemis/comparison/_method_comparator.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 0cc98ce..7116077 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -170,18 +170,23 @@ class FeatureInteractionMethodComparator:
         value of the correlation
         """
 
-        rank = _rank_interaction_values_encoded(method1, method2)
+        rank = _rank_interaction_values(method1, method2)
 
         return rank.corr(method=correlation_method).iloc[0, 1]
 
 
-def _rank_interaction_values_encoded(method1, method2):
-    rank_features_m1 = method1._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_m2 = method2._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_encoded = pd.concat(
-        [rank_features_m1.astype('category').cat.codes, rank_features_m2.astype('category').cat.codes], axis=1)
+def _rank_interaction_values(method1, method2):
+    return pd.concat([_interaction_strengths(method1), _interaction_strengths(method2)], axis=1, join="inner").dropna().rank()
 
-    return rank_features_encoded
+
+def _interaction_strengths(method):
+    strengths = method._compare_ovo[method.method].astype(float)
+    if method._interactions_ascending_order:
+        strengths = -strengths
+    strengths.index = pd.Index(
+        [_alphabetical_order_pair(row) for _, row in method._compare_ovo.iterrows()], tupleize_cols=False)
+
+    return strengths[~strengths.index.duplicated()]
 
 
 def _title_x_y(ax, m1_name, m2_name):
@@ -232,6 +237,4 @@ def _suitable_for_ovo(method: FeatureInteractionMethod):
 
 
 def _alphabetical_order_pair(row):
-    features_alphabetical = sorted([row["Feature 1"], row["Feature 2"]])
-
-    return "-".join(features_alphabetical)
+    return tuple(sorted([row["Feature 1"], row["Feature 2"]]))
-- 
2.43.0


From 433467424ade1c0d70c7086b32bfcc2a8388174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:48 +0000
Subject: [PATCH 17/31] fix: comparison plot's correlation box belongs to the
 methods plotted

---
 artemis/comparison/_method_comparator.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 7116077..58fd9f3 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -55,8 +55,9 @@ class FeatureInteractionMethodComparator:
         -------
         None
         """
-        self.correlations_df = self.correlations(method1, method2)
-        self.ovo_profiles_comparison_plot = self.comparison_plot(method1, method2, add_correlation_box=True)
+        correlations_df = self.correlations(method1, method2)
+        comparison_plot = self.comparison_plot(method1, method2, add_correlation_box=True)
+        self.correlations_df, self.ovo_profiles_comparison_plot = correlations_df, comparison_plot
 
     def correlations(self, method1: FeatureInteractionMethod, method2: FeatureInteractionMethod):
         """
@@ -137,12 +138,7 @@ class FeatureInteractionMethodComparator:
             plt.gca().invert_yaxis()
 
         if add_correlation_box:
-
-            corr = self.correlations_df
-            if self.correlations_df is None:
-                corr = self.correlations(method1, method2)
-
-            _add_correlation_box(ax, corr)
+            _add_correlation_box(ax, self.correlations(method1, method2))
 
         _title_x_y(ax, m1_name, m2_name)
 
-- 
2.43.0


From a2b57da4a20b42f4e1c7002ca8a294e0c4339e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:48 +0000
Subject: [PATCH 18/31] fix: bar charts in a summary invert their own axis

---
 artemis/visualizer/_visualizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e46d4ee..e6495db 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -364,7 +364,7 @@ class Visualizer:
             grid=True,
             ax=ax,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_barchart_ova(
             self,
@@ -395,7 +395,7 @@ class Visualizer:
             ax=ax,
             grid=True,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_summary(
             self,
-- 
2.43.0


From 2a2d130082e64bd51fa0c398a5d3f3b4c87f73bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:48 +0000
Subject: [PATCH 19/31] fix: one-vs-all bar chart shows the title asked for

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e6495db..eda8cad 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -69,7 +69,7 @@ class Visualizer:
                 **kwargs,
             )
         elif vis_type == VisualizationType.BAR_CHART_OVA:
-            self.plot_barchart_ova(ova, figsize=figsize, **kwargs)
+            self.plot_barchart_ova(ova, title=title, figsize=figsize, **kwargs)
         elif vis_type == VisualizationType.HEATMAP:
             self.plot_heatmap(
                 ovo,
-- 
2.43.0


From 26b0976d0dd588e06b663a5ba4499c16f97408ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:48 +0000
Subject: [PATCH 20/31] fix: summary ranks its graph and matrix in the method's
 direction

---
 artemis/visualizer/_visualizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index eda8cad..83911db 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -51,6 +51,7 @@ class Visualizer:
                 title=title,
                 figsize=figsize,
                 interactions_ascending_order=interactions_ascending_order,
+                importance_ascending_order=importance_ascending_order,
                 _f1_name=_feature_column_name_1,
                 _f2_name=_feature_column_name_2,
                 _directed=_directed,
@@ -405,6 +406,7 @@ class Visualizer:
             title: str = "default",
             figsize: Tuple[float, float] = (8, 6),
             interactions_ascending_order: bool = False,
+            importance_ascending_order: bool = False,
             _f1_name: str = "Feature 1",
             _f2_name: str = "Feature 2",
             _directed: bool = False,
@@ -425,6 +427,7 @@ class Visualizer:
             ovo,
             feature_importance,
             interactions_ascending_order=interactions_ascending_order,
+            importance_ascending_order=importance_ascending_order,
             ax=ax1,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
@@ -434,6 +437,7 @@ class Visualizer:
         self.plot_interaction_graph(
             ovo,
             feature_importance,
+            interactions_ascending_order=interactions_ascending_order,
             ax=ax2,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
-- 
2.43.0


From 90f631e340f88b2dfec8e74ab3789eefd81baa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:48 +0000
Subject: [PATCH 21/31] fix: heatmap diagonal shows importances also when
 features interact with themselves

---
 artemis/visualizer/_visualizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 83911db..bb33cad 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -189,7 +189,8 @@ class Visualizer:
             var_imp_diag = self._feature_importance_diag(
                 ovo, feature_importance, _f1_name=_f1_name, _f2_name=_f2_name
             )
-            ovo_all_pairs = pd.concat([ovo_all_pairs, var_imp_diag])
+            different_features = ovo_all_pairs[_f1_name] != ovo_all_pairs[_f2_name]
+            ovo_all_pairs = pd.concat([ovo_all_pairs[different_features], var_imp_diag])
 
         fig = None
         if ax is not None:
-- 
2.43.0


From be0e4664056d6586e30c239373976c121e9ebb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:48 +0000
Subject: [PATCH 22/31] fix: heatmap of a method with features of unknown
 importance

---
 artemis/visualizer/_visualizer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index bb33cad..3254512 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -586,14 +586,13 @@ class Visualizer:
             _f2_name: str = "Feature 2",
     ):
         all_features = set(list(ovo[_f1_name]) + list(ovo[_f2_name]))
+        importances = dict(zip(feature_importance["Feature"], feature_importance["Importance"]))
         var_imp_diag = pd.DataFrame.from_records(
             [
                 {
                     _f1_name: f,
                     _f2_name: f,
-                    self.method: feature_importance[
-                        feature_importance["Feature"] == f
-                        ]["Importance"].values[0],
+                    self.method: importances.get(f, np.nan),
                 }
                 for f in all_features
             ]
-- 
2.43.0


From d894a33cc485c90905915974573345c3acdea2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:48 +0000
Subject: [PATCH 23/31] fix: interaction graph of a method with features that
 have no interactions or no importance

---
 artemis/visualizer/_visualizer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 3254512..537c9ce 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -284,6 +284,9 @@ class Visualizer:
             edge_attr=self.method,
             create_using=nx.DiGraph if _directed else nx.Graph,
         )
+        if feature_importance is not None:
+            G.add_nodes_from(feature_importance["Feature"])
+            importances = dict(zip(feature_importance["Feature"], feature_importance["Importance"]))
         pos = nx.circular_layout(G)
 
         nx.draw(
@@ -292,12 +295,10 @@ class Visualizer:
             ax=ax,
             width=[G[u][v][self.method] for u, v in G.edges()],
             with_labels=True,
-            nodelist=list(feature_importance["Feature"])
-            if feature_importance is not None
-            else None,
+            nodelist=list(G.nodes),
             node_size=[
-                node_size * val / np.max(feature_importance["Importance"])
-                for val in feature_importance["Importance"]
+                node_size * importances.get(f, 0) / np.max(feature_importance["Importance"])
+                for f in G.nodes
             ]
             if feature_importance is not None
             else node_size,
-- 
2.43.0


From bfdbfe89a47ee08bc9251d2987901fe19dd6010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:02 +0000
Subject: [PATCH 24/31] fix: heatmap of a single feature

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 537c9ce..1dd76a6 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -636,7 +636,7 @@ class Visualizer:
         for f in features:
             f_copy = features.copy()
             f_copy.remove(f)
-            scores[f.lower()] = feature_importance[f] * 1 / lambda_1 + max(matrix[f][f_copy]) * 1 / lambda_2
+            scores[f.lower()] = feature_importance[f] * 1 / lambda_1 + max(matrix[f][f_copy], default=0) * 1 / lambda_2
 
         ind = matrix.sort_index(key=lambda x: [scores[f_lower] for f_lower in x.str.lower()], ascending=asc_order).index
         m = matrix.reindex(ind)  # re-order rows
-- 
2.43.0


From 696c2057512d9afa2030b9d108fc98d46ff2d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:00 +0000
Subject: [PATCH 25/31] fix: all-but-one partial dependence keeps large
 integers of mixed data exact

---
 artemis/_utilities/pd_calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 4204c61..be73676 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -120,8 +120,8 @@ class PartialDependenceCalculator:
         X_full = pd.DataFrame()
         for feature in tqdm(features, desc=desc, disable=not show_progress):
             if np.isnan(self.pd_minus_single[feature]["pd_values"]).any(): 
-                for i, row in self.X.copy().reset_index(drop=True).iterrows():
-                    change_dict = {other_feature: row[other_feature] for other_feature in self.X.columns if other_feature != feature}
+                for i in range(self.X_len):
+                    change_dict = {other_feature: self.X[other_feature].iloc[i] for other_feature in self.X.columns if other_feature != feature}
                     X_changed = self.X.copy().assign(**change_dict)
                     range_dict[(feature, i)] = (current_len, current_len+self.X_len)
                     current_len += self.X_len
-- 
2.43.0


From 019644e806398547ef37255d301b0b21c6d67614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:37 +0000
Subject: [PATCH 26/31] fix: zenplot labels its last panel with its own
 features

---
 .../model_agnostic/partial_dependence_based/_pdp.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index f713be6..d333ed6 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -284,12 +284,12 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
 
             idx, continued = find_next_pair_index(to_vis, pair[1])
             if continued:
-                pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
                 if zenpath_length - 1 == i:
                     if id_col > id_row:
                         ax.set_ylabel(pair[1])
                     else:
                         ax.set_title(pair[1], size=10)
+                pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
             else:
                 if id_col > id_row:
                     ax.set_ylabel(pair[1])
-- 
2.43.0


From 47a8c4bdb93a91aa7615e8f62231dff0fa1db8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:37 +0000
Subject: [PATCH 27/31] fix: zenplot of a method with no more pairs than the
 path is long

---
 .../model_agnostic/partial_dependence_based/_pdp.py      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index d333ed6..55cbef6 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -205,6 +205,7 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         """
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
+        zenpath_length = min(zenpath_length, len(self.ovo))
         fig = plt.figure(figsize=figsize)
         to_vis = self.ovo.copy().iloc[:(zenpath_length + 1)]
         min_pd, max_pd = get_pd_dict(self.pd_calculator, to_vis)
@@ -282,7 +283,7 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 ax.set_title(pair[0], size=10)
                 id_col += 1
 
-            idx, continued = find_next_pair_index(to_vis, pair[1])
+            idx, continued = find_next_pair_index(to_vis, pair[1]) if len(to_vis) > 0 else (None, False)
             if continued:
                 if zenpath_length - 1 == i:
                     if id_col > id_row:
@@ -295,9 +296,11 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                     ax.set_ylabel(pair[1])
                 else:
                     ax.set_title(pair[1], size=10)
-                pair = to_vis.loc[idx]["Feature 1"], to_vis.loc[idx]["Feature 2"]
+                if idx is not None:
+                    pair = to_vis.loc[idx]["Feature 1"], to_vis.loc[idx]["Feature 2"]
 
-            to_vis = to_vis.drop(idx)
+            if idx is not None:
+                to_vis = to_vis.drop(idx)
 
             plt.tight_layout()
         cbar_ax = fig.add_axes([1, 0.25, 0.05, 0.5])
-- 
2.43.0


From f7fa0415b256901e883a5d456913add857115d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:05 +0000
Subject: [PATCH 28/31] fix: PartialDependenceVisualizer hands its axes to
 scikit-learn under the right name

---
 artemis/visualizer/_pdp_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_pdp_visualizer.py b/artemis/visualizer/_pdp_visualizer.py
index 50d9ce1..4c59a4c 100644
--- a/artemis/visualizer/_pdp_visualizer.py
+++ b/artemis/visualizer/_pdp_visualizer.py
@@ -58,6 +58,6 @@ class PartialDependenceVisualizer:
                                                 self.X,
                                                 features,
                                                 grid_resolution=grid_resolution,
-                                                _ax=ax,
+                                                ax=ax,
                                                 **kwargs)
         ax.set_title(title)
-- 
2.43.0


From 505ee5375d7e983048bf630fdd1cb3cdb56cf4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:58 +0000
Subject: [PATCH 29/31] fix: the interaction graph draws the edges of the
 strongest pairs

---
 artemis/visualizer/_visualizer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 1dd76a6..e850523 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -326,7 +326,7 @@ class Visualizer:
                                      max_width: float):
 
         # standardize edge widths by scaling interactions to [0,1] interval
-        self._scale_to_unit_interval(ovo_copy)
+        self._scale_to_unit_interval(interactions_ascending_order, ovo_copy)
 
         # a => (1 - a) for ascending order
         self._reverse_scale_for_ascending(interactions_ascending_order, ovo_copy)
@@ -605,21 +605,24 @@ class Visualizer:
                                            threshold_relevant_interaction: float,
                                            ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = 0
+            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = np.nan
         else:
             ovo_copy.loc[ovo_copy[self.method] < threshold_relevant_interaction, self.method] = 0
 
         return ovo_copy.copy()
 
-    def _scale_to_unit_interval(self, ovo_copy: pd.DataFrame):
+    def _scale_to_unit_interval(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame):
         vals = ovo_copy[self.method]
         m, M = np.min(vals), np.max(vals)
-        ovo_copy.loc[:, self.method] = (vals - m) / (M - m)
+        if m == M:  # equally strong pairs
+            ovo_copy[self.method] = vals * 0 if interactions_ascending_order else (vals > 0).astype(float)
+        else:
+            ovo_copy.loc[:, self.method] = (vals - m) / (M - m)
 
     def _reverse_scale_for_ascending(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > 0, self.method] = 1 - ovo_copy.loc[
-                ovo_copy[self.method] > 0, self.method]
+            # insignificant interactions are missing by now
+            ovo_copy[self.method] = (1 - ovo_copy[self.method]).fillna(0)
 
     def _map_to_width(self, max_width: float, ovo_copy: pd.DataFrame):
         ovo_copy[self.method] = ovo_copy[self.method] * max_width
-- 
2.43.0


From 4039e53da3a29852fd15f28d94b384f5f4d44af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:59 +0000
Subject: [PATCH 30/31] fix: the heatmap orders features whose names differ
 only in case by their own strengths

---
 artemis/visualizer/_visualizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e850523..a79e247 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -639,9 +639,9 @@ class Visualizer:
         for f in features:
             f_copy = features.copy()
             f_copy.remove(f)
-            scores[f.lower()] = feature_importance[f] * 1 / lambda_1 + max(matrix[f][f_copy], default=0) * 1 / lambda_2
+            scores[f] = feature_importance[f] * 1 / lambda_1 + max(matrix[f][f_copy], default=0) * 1 / lambda_2
 
-        ind = matrix.sort_index(key=lambda x: [scores[f_lower] for f_lower in x.str.lower()], ascending=asc_order).index
+        ind = matrix.sort_index(key=lambda x: [scores[f] for f in x], ascending=asc_order).index
         m = matrix.reindex(ind)  # re-order rows
 
         return m[list(ind)]  # re-order columns
-- 
2.43.0


From 8beb0fd49b78fba70d566e033762ef73f35b7ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:59 +0000
Subject: [PATCH 31/31] fix: metrics compare targets and predictions by
 position

---
 artemis/_utilities/performance_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/performance_metrics.py b/artemis/_utilities/performance_metrics.py
index a3b2dd8..2929b25 100644
--- a/artemis/_utilities/performance_metrics.py
+++ b/artemis/_utilities/performance_metrics.py
@@ -33,7 +33,7 @@ class MSE(Metric):
         super().__init__(ProblemType.REGRESSION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.square(y_hat - y_true).mean()
+        return np.square(np.asarray(y_hat) - np.asarray(y_true)).mean()
 
 
 class Accuracy(Metric):
@@ -42,4 +42,4 @@ class Accuracy(Metric):
         super().__init__(ProblemType.CLASSIFICATION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.equal(y_true, y_hat).mean()
+        return np.equal(np.asarray(y_true), np.asarray(y_hat)).mean()
-- 
2.43.0

