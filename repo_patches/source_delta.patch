From 955c0675ba6032b003ad2ab7b363c7c20cb1c987 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 01/80] fix: InplacePredictFromNodes writes into the caller's
 vector

---
 include/stochtree/tree.h | 2 +-
 src/tree.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree.h b/include/stochtree/tree.h
index bbacd56..fc22431 100644
--- a/include/stochtree/tree.h
+++ b/include/stochtree/tree.h
@@ -223,7 +223,7 @@ class Tree {
   /*! \brief Predict a tree based on node membership indices
    * TODO: generalize to vector leaves
    */
-  void InplacePredictFromNodes(std::vector<double> result, std::vector<std::int32_t> node_indices);
+  void InplacePredictFromNodes(std::vector<double>& result, std::vector<std::int32_t> node_indices);
   std::vector<double> PredictFromNodes(std::vector<std::int32_t> node_indices);
   std::vector<double> PredictFromNodes(std::vector<std::int32_t> node_indices, Eigen::MatrixXd& basis);
   double PredictFromNode(std::int32_t node_id);
diff --git a/src/tree.cpp b/src/tree.cpp
index 68ac632..fc9502a 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -38,7 +38,7 @@ std::int32_t Tree::NumSplitNodes() const {
   return splits;
 }
 
-void Tree::InplacePredictFromNodes(std::vector<double> result, std::vector<std::int32_t> node_indices) {
+void Tree::InplacePredictFromNodes(std::vector<double>& result, std::vector<std::int32_t> node_indices) {
   if (result.size() != node_indices.size()) {
     Log::Fatal("Indices and result vector are different sizes");
   }
-- 
2.43.0


From 917d0c2bb7e72a1d05dcc547aafcd7520193e1dd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 02/80] fix: route missing values to the default child in
 training as in prediction

---
 include/stochtree/tree.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stochtree/tree.h b/include/stochtree/tree.h
index fc22431..d0ad7f8 100644
--- a/include/stochtree/tree.h
+++ b/include/stochtree/tree.h
@@ -703,7 +703,8 @@ inline bool operator==(const Tree& lhs, const Tree& rhs) {
  *  \param right_child Node id of the right child
  */
 inline bool SplitTrueNumeric(double fvalue, double threshold) {
-  return (fvalue <= threshold);
+  // Missing values follow the default (left) child, as in EvaluateTree
+  return (std::isnan(fvalue) || fvalue <= threshold);
 }
 
 /*! \brief Determine whether an observation produces a "true" value in a categorical split node
@@ -713,6 +714,8 @@ inline bool SplitTrueNumeric(double fvalue, double threshold) {
  *  \param right_child Node id of the right child
  */
 inline bool SplitTrueCategorical(double fvalue, std::vector<std::uint32_t> const& category_list) {
+  // Missing values follow the default (left) child, as in EvaluateTree
+  if (std::isnan(fvalue)) return true;
   bool category_matched;
   // A valid (integer) category must satisfy two criteria:
   // 1) it must be exactly representable as double
-- 
2.43.0


From 079611bd39397f7053587542f5579ea2587d8794 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 03/80] fix: keep the deleted node count when a tree is read
 from JSON

---
 src/tree.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tree.cpp b/src/tree.cpp
index fc9502a..5d2cdd4 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -645,7 +645,6 @@ void Tree::from_json(const json& tree_json) {
   tree_json.at("num_deleted_nodes").get_to(this->num_deleted_nodes);
   tree_json.at("has_categorical_split").get_to(this->has_categorical_split_);
   tree_json.at("output_dimension").get_to(this->output_dimension_);
-  this->num_deleted_nodes = 0;
   
   // Unpack the array based fields
   JsonToTreeNodeVectors(tree_json, this);
-- 
2.43.0


From d55e6ef6663b17dcfa6ecf6fad685d0bfac8c1a1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 04/80] fix: Tree::Init and Tree::Reset forget the deleted
 nodes of the previous tree

---
 src/tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.cpp b/src/tree.cpp
index 5d2cdd4..3fc4cef 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -310,6 +310,7 @@ void Tree::Reset() {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
 
   // Set bool / integer variables to default values
   num_nodes = 0;
@@ -343,6 +344,8 @@ void Tree::Init(std::int32_t output_dimension) {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
+  num_deleted_nodes = 0;
 
   // Set output dimension
   output_dimension_ = output_dimension;
-- 
2.43.0


From 12376cebd672478bfc022fe94f199225a5407b0e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 05/80] fix: a cutpoint bin ends where the bin ends, also when
 bins are re-ordered

---
 src/leaf_model.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/leaf_model.cpp b/src/leaf_model.cpp
index c3d54cd..787e8d7 100644
--- a/src/leaf_model.cpp
+++ b/src/leaf_model.cpp
@@ -81,12 +81,11 @@ void AccumulateCutpointBinSuffStat(SuffStatType& left_suff_stat, ForestTracker&
   // Determine cutpoint bin start and end points
   data_size_t current_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num, feature_num);
   data_size_t current_bin_size = cutpoint_grid_container.BinLength(cutpoint_num, feature_num);
-  data_size_t next_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num + 1, feature_num);
 
   // Cutpoint specific iterators
   // TODO: fix the hack of having to subtract off node_begin, probably by cleaning up the CutpointGridContainer interface
   auto cutpoint_begin_iter = node_begin_iter + current_bin_begin - node_begin;
-  auto cutpoint_end_iter = node_begin_iter + next_bin_begin - node_begin;
+  auto cutpoint_end_iter = cutpoint_begin_iter + current_bin_size;
 
   // Accumulate sufficient statistics
   for (auto i = cutpoint_begin_iter; i != cutpoint_end_iter; i++) {
-- 
2.43.0


From 722413f1af56a9427479f638f17940cce3fe5229 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 06/80] fix: numeric cutpoint bins resume after a tie at the
 grid position

---
 src/cutpoint_candidates.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cutpoint_candidates.cpp b/src/cutpoint_candidates.cpp
index 4a0845c..f561953 100644
--- a/src/cutpoint_candidates.cpp
+++ b/src/cutpoint_candidates.cpp
@@ -304,7 +304,8 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
     } else {
       next_sort_ind = feature_node_sort_tracker->SortIndex(i + 1, feature_index);
       next_val = covariates(next_sort_ind, feature_index);
-      bin_complete = ((stride_length <= step_size) && ((stride_length + 1) > step_size));
+      // A bin that could not be closed at step_size because of ties is closed at the next distinct value
+      bin_complete = (stride_length >= step_size);
       stride_complete = ((bin_complete) && (std::fabs(next_val - current_val) > StochTree::kEpsilon));
       if (stride_complete) {
         // Update bin vectors
-- 
2.43.0


From c712f60926dbe7e90fe9538c487cbf69a3951b2a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 07/80] fix: numeric cutpoint grids never exceed the requested
 grid size

---
 src/cutpoint_candidates.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cutpoint_candidates.cpp b/src/cutpoint_candidates.cpp
index f561953..f7231fe 100644
--- a/src/cutpoint_candidates.cpp
+++ b/src/cutpoint_candidates.cpp
@@ -1,6 +1,7 @@
 #include <stochtree/cutpoint_candidates.h>
 #include <stochtree/meta.h>
 
+#include <cmath>
 #include <numeric>
 #include <tuple>
 
@@ -286,7 +287,7 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
   bool last_element;
   bool stride_complete;
   bool bin_complete;
-  double step_size = node_size / cutpoint_grid_size_;
+  double step_size = std::ceil(static_cast<double>(node_size) / static_cast<double>(cutpoint_grid_size_));
   double current_val, next_val;
   for (data_size_t i = node_begin; i < node_end; i++){
     current_sort_ind = feature_node_sort_tracker->SortIndex(i, feature_index);
-- 
2.43.0


From 95d2f5686c30ef70b6e62ae8ae69c8e44c346000 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 08/80] fix: entire-forest residual update uses each row's own
 forest prediction

---
 include/stochtree/tree_sampler.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index e9ef65d..fb2490d 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -152,18 +152,19 @@ static inline double ComputeMeanOutcome(ColumnVector& residual) {
 
 static inline void UpdateResidualEntireForest(ForestTracker& tracker, ForestDataset& dataset, ColumnVector& residual, TreeEnsemble* forest, bool requires_basis, std::function<double(double, double)> op) {
   data_size_t n = dataset.GetCovariates().rows();
-  double tree_pred = 0.;
-  double pred_value = 0.;
+  double tree_pred;
+  double pred_value;
   double new_resid = 0.;
   int32_t leaf_pred;
   for (data_size_t i = 0; i < n; i++) {
+    pred_value = 0.;
     for (int j = 0; j < forest->NumTrees(); j++) {
       Tree* tree = forest->GetTree(j);
       leaf_pred = tracker.GetNodeId(i, j);
       if (requires_basis) {
-        tree_pred += tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
+        tree_pred = tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
       } else {
-        tree_pred += tree->PredictFromNode(leaf_pred);
+        tree_pred = tree->PredictFromNode(leaf_pred);
       }
       tracker.SetTreeSamplePrediction(i, j, tree_pred);
       pred_value += tree_pred;
-- 
2.43.0


From 15098a5eee2be57d54e9369f1c5fefd34d482993 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 09/80] fix: split range of a feature with non-positive or
 descending values

---
 include/stochtree/tree_sampler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index fb2490d..1374103 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -22,7 +22,7 @@ namespace StochTree {
 
 static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset, int tree_num, int leaf_split, int feature_split, double& var_min, double& var_max) {
   var_min = std::numeric_limits<double>::max();
-  var_max = std::numeric_limits<double>::min();
+  var_max = std::numeric_limits<double>::lowest();
   double feature_value;
   
   std::vector<data_size_t>::iterator node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
@@ -33,7 +33,8 @@ static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset,
     feature_value = dataset.CovariateValue(idx, feature_split);
     if (feature_value < var_min) {
       var_min = feature_value;
-    } else if (feature_value > var_max) {
+    }
+    if (feature_value > var_max) {
       var_max = feature_value;
     }
   }
-- 
2.43.0


From ada4cf0af494d7073db1a79431f53fc1671221bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 10/80] fix: an MCMC step on data too small to split keeps the
 root tree

---
 include/stochtree/tree_sampler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 1374103..3e9ce22 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -294,7 +294,8 @@ class MCMCForestSampler {
       step_probs = {1.0, 0.0};
       prob_grow = 1.0;
     } else {
-      Log::Fatal("In this tree, neither grow nor prune is possible");
+      // Too few observations to split the root: the tree stays a root node
+      return;
     }
     std::discrete_distribution<> step_dist(step_probs.begin(), step_probs.end());
 
-- 
2.43.0


From 7632825213d590051cb7bea088445a17261d2b91 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 11/80] fix: MCMC grow steps respect the minimum leaf size

---
 include/stochtree/tree_sampler.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 3e9ce22..b14a49b 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -269,7 +269,7 @@ class MCMCForestSampler {
     bool grow_possible = false;
     std::vector<int> leaves = tree->GetLeaves();
     for (auto& leaf: leaves) {
-      if (tracker.UnsortedNodeSize(tree_num, leaf) > 2 * tree_prior.GetMinSamplesLeaf()) {
+      if (tracker.UnsortedNodeSize(tree_num, leaf) >= 2 * tree_prior.GetMinSamplesLeaf()) {
         grow_possible = true;
         break;
       }
@@ -355,6 +355,11 @@ class MCMCForestSampler {
     int32_t left_n = std::get<2>(split_eval);
     int32_t right_n = std::get<3>(split_eval);
     
+    // Reject splits that leave too few observations in either child
+    if (left_n < tree_prior.GetMinSamplesLeaf() || right_n < tree_prior.GetMinSamplesLeaf()) {
+      return;
+    }
+    
     // Determine probability of growing the split node and its two new left and right nodes
     double pg = tree_prior.GetAlpha() * std::pow(1+leaf_depth, -tree_prior.GetBeta());
     double pgl = tree_prior.GetAlpha() * std::pow(1+leaf_depth+1, -tree_prior.GetBeta());
-- 
2.43.0


From ee8993cc0aca1572ec2477dfe55a70dd613ce7c9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 12/80] fix: MCMC acceptance ratio uses the proposal
 probabilities of the actual moves

---
 include/stochtree/tree_sampler.h | 106 ++++++-------------------------
 1 file changed, 20 insertions(+), 86 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index b14a49b..6d9dcb8 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -40,78 +40,6 @@ static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset,
   }
 }
 
-static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTracker& tracker, TreeSplit& split, int tree_num, int leaf_split, int feature_split) {
-  int p = dataset.GetCovariates().cols();
-  data_size_t idx;
-  double feature_value;
-  double split_feature_value;
-  double var_max_left;
-  double var_min_left;
-  double var_max_right;
-  double var_min_right;
-  
-  for (int j = 0; j < p; j++) {
-    auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
-    auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, leaf_split);
-    var_max_left = std::numeric_limits<double>::min();
-    var_min_left = std::numeric_limits<double>::max();
-    var_max_right = std::numeric_limits<double>::min();
-    var_min_right = std::numeric_limits<double>::max();
-
-    for (auto i = node_begin_iter; i != node_end_iter; i++) {
-      auto idx = *i;
-      split_feature_value = dataset.CovariateValue(idx, feature_split);
-      feature_value = dataset.CovariateValue(idx, j);
-      if (split.SplitTrue(split_feature_value)) {
-        if (var_max_left < feature_value) {
-          var_max_left = feature_value;
-        } else if (var_min_left > feature_value) {
-          var_min_left = feature_value;
-        }
-      } else {
-        if (var_max_right < feature_value) {
-          var_max_right = feature_value;
-        } else if (var_min_right > feature_value) {
-          var_min_right = feature_value;
-        }
-      }
-    }
-    if ((var_max_left > var_min_left) && (var_max_right > var_min_right)) {
-      return true;
-    }
-  }
-  return false;
-}
-
-static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracker, int tree_num, int node_id) {
-  int p = dataset.GetCovariates().cols();
-  data_size_t idx;
-  double feature_value;
-  double var_max;
-  double var_min;
-  
-  for (int j = 0; j < p; j++) {
-    auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, node_id);
-    auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, node_id);
-    var_max = std::numeric_limits<double>::min();
-    var_min = std::numeric_limits<double>::max();
-
-    for (auto i = node_begin_iter; i != node_end_iter; i++) {
-      auto idx = *i;
-      feature_value = dataset.CovariateValue(idx, j);
-      if (var_max < feature_value) {
-        var_max = feature_value;
-      } else if (var_min > feature_value) {
-        var_min = feature_value;
-      }
-    }
-    if (var_max > var_min) {
-      return true;
-    }
-  }
-  return false;
-}
-
 static inline void AddSplitToModel(ForestTracker& tracker, ForestDataset& dataset, TreePrior& tree_prior, TreeSplit& split, std::mt19937& gen, Tree* tree, int tree_num, int leaf_node, int feature_split, bool keep_sorted = false) {
   // Use zeros as a "temporary" leaf values since we draw leaf parameters after tree sampling is complete
   if (tree->OutputDimension() > 1) {
@@ -368,20 +296,27 @@ class MCMCForestSampler {
     // Determine whether a "grow" move is possible from the newly formed tree
     // in order to compute the probability of choosing "prune" from the new tree
     // (which is always possible by construction)
-    bool non_constant = NodesNonConstantAfterSplit(dataset, tracker, split, tree_num, leaf_chosen, var_chosen);
-    bool min_samples_left_check = left_n >= 2*tree_prior.GetMinSamplesLeaf();
-    bool min_samples_right_check = right_n >= 2*tree_prior.GetMinSamplesLeaf();
+    bool grow_possible_new = left_n >= 2*tree_prior.GetMinSamplesLeaf() || right_n >= 2*tree_prior.GetMinSamplesLeaf();
+    for (auto& leaf: leaves) {
+      if (leaf != leaf_chosen && tracker.UnsortedNodeSize(tree_num, leaf) >= 2*tree_prior.GetMinSamplesLeaf()) {
+        grow_possible_new = true;
+      }
+    }
     double prob_prune_new;
-    if (non_constant && (min_samples_left_check || min_samples_right_check)) {
+    if (grow_possible_new) {
       prob_prune_new = 0.5;
     } else {
       prob_prune_new = 1.0;
     }
 
     // Determine the number of leaves in the current tree and leaf parents in the proposed tree
-    int num_leaf_parents = tree->NumLeafParents();
+    // (the split node becomes a leaf parent and its parent, if it was one, no longer is)
+    int num_leaf_parents_new = tree->NumLeafParents() + 1;
+    if (!tree->IsRoot(leaf_chosen) && tree->IsLeafParent(tree->Parent(leaf_chosen))) {
+      num_leaf_parents_new -= 1;
+    }
     double p_leaf = 1/static_cast<double>(num_leaves);
-    double p_leaf_parent = 1/static_cast<double>(num_leaf_parents+1);
+    double p_leaf_parent = 1/static_cast<double>(num_leaf_parents_new);
 
     // Compute the final MH ratio
     double log_mh_ratio = (
@@ -435,7 +370,7 @@ class MCMCForestSampler {
     // Determine whether a "prune" move is possible from the new tree,
     // in order to compute the probability of choosing "grow" from the new tree
     // (which is always possible by construction)
-    bool non_root_tree = tree->NumNodes() > 1;
+    bool non_root_tree = !tree->IsRoot(leaf_parent_chosen);
     double prob_grow_new;
     if (non_root_tree) {
       prob_grow_new = 0.5;
@@ -445,13 +380,12 @@ class MCMCForestSampler {
 
     // Determine whether a "grow" move was possible from the old tree,
     // in order to compute the probability of choosing "prune" from the old tree
-    bool non_constant_left = NodeNonConstant(dataset, tracker, tree_num, left_node);
-    bool non_constant_right = NodeNonConstant(dataset, tracker, tree_num, right_node);
-    double prob_prune_old;
-    if (non_constant_left && non_constant_right) {
-      prob_prune_old = 0.5;
-    } else {
-      prob_prune_old = 1.0;
+    double prob_prune_old = 1.0;
+    for (auto& leaf: tree->GetLeaves()) {
+      if (tracker.UnsortedNodeSize(tree_num, leaf) >= 2*tree_prior.GetMinSamplesLeaf()) {
+        prob_prune_old = 0.5;
+        break;
+      }
     }
 
     // Determine the number of leaves in the current tree and leaf parents in the proposed tree
-- 
2.43.0


From d09b0c455e5b522b3f47c9c1817bbeecd8f11dd8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 13/80] fix: global error variance full conditional uses half
 the data terms

---
 include/stochtree/variance_model.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/variance_model.h b/include/stochtree/variance_model.h
index 53140dd..04295d2 100644
--- a/include/stochtree/variance_model.h
+++ b/include/stochtree/variance_model.h
@@ -26,7 +26,7 @@ class GlobalHomoskedasticVarianceModel {
   ~GlobalHomoskedasticVarianceModel() {}
   double PosteriorShape(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
-    return (nu/2.0) + n;
+    return (nu/2.0) + (n/2.0);
   }
   double PosteriorScale(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
@@ -35,7 +35,7 @@ class GlobalHomoskedasticVarianceModel {
     for (data_size_t i = 0; i < n; i++) {
       sum_sq_resid += std::pow(residuals(i, 0), 2);
     }
-    return (nu_lambda/2.0) + sum_sq_resid;
+    return (nu_lambda/2.0) + (sum_sq_resid/2.0);
   }
   double SampleVarianceParameter(Eigen::VectorXd& residuals, double nu, double lambda, std::mt19937& gen) {
     double ig_shape = PosteriorShape(residuals, nu, lambda);
-- 
2.43.0


From f5fad300d88269f2ca20d94b37eb71f0b89e3abd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 14/80] fix: leaf scale full conditional uses half the leaf
 terms

---
 include/stochtree/variance_model.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/variance_model.h b/include/stochtree/variance_model.h
index 04295d2..67da94c 100644
--- a/include/stochtree/variance_model.h
+++ b/include/stochtree/variance_model.h
@@ -54,11 +54,11 @@ class LeafNodeHomoskedasticVarianceModel {
   ~LeafNodeHomoskedasticVarianceModel() {}
   double PosteriorShape(TreeEnsemble* ensemble, double a, double b) {
     data_size_t num_leaves = ensemble->NumLeaves();
-    return (a/2.0) + num_leaves;
+    return (a/2.0) + (num_leaves/2.0);
   }
   double PosteriorScale(TreeEnsemble* ensemble, double a, double b) {
     double mu_sq = ensemble->SumLeafSquared();
-    return (b/2.0) + mu_sq;
+    return (b/2.0) + (mu_sq/2.0);
   }
   double SampleVarianceParameter(TreeEnsemble* ensemble, double a, double b, std::mt19937& gen) {
     double ig_shape = PosteriorShape(ensemble, a, b);
-- 
2.43.0


From f3a635c867e77d5f2382f729244011799852906d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 15/80] fix: random effects variance full conditional uses half
 the group terms

---
 src/random_effects.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 19108d4..51d3b6c 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -165,7 +165,7 @@ Eigen::MatrixXd MultivariateRegressionRandomEffectsModel::GroupParameterVariance
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentShape(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
-  return static_cast<double>(variance_prior_shape_ + num_groups_);
+  return variance_prior_shape_ + num_groups_/2.0;
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
@@ -173,7 +173,7 @@ double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEf
   Eigen::MatrixXd xi = group_parameters_;
   double output = variance_prior_scale_;
   for (int i = 0; i < num_groups; i++) {
-    output += xi(component_id, i)*xi(component_id, i);
+    output += xi(component_id, i)*xi(component_id, i)/2.0;
   }
   return output;
 }
-- 
2.43.0


From 79526fb6ed0043715e0b59f16c35977507aac043 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 16/80] fix: SampleCategoryMapper::SetCategoryId stores the
 category

---
 include/stochtree/category_tracker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 04ee0b0..0b63751 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -64,7 +64,7 @@ class SampleCategoryMapper {
 
   inline void SetCategoryId(data_size_t sample_id, int category_id) {
     CHECK_LT(sample_id, num_observations_);
-    observation_indices_[sample_id] = sample_id;
+    observation_indices_[sample_id] = category_id;
   }
   
   inline int NumObservations() {return num_observations_;}
-- 
2.43.0


From 81b4e54d39362f2d9dfd0da2bc4ef8f0e67600e6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 17/80] fix: size of the last category when it holds a single
 observation

---
 include/stochtree/category_tracker.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 0b63751..8fc256f 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -106,11 +106,10 @@ class CategorySampleTracker {
         }
         observation_count = 1;
         category_count_++;
-      } else if (end_cond) {
-        category_length_.push_back(observation_count+1);
       } else {
         observation_count++;
       }
+      if (end_cond) category_length_.push_back(observation_count);
       // Add the index to the category's node index vector in either case
       node_index_vector_[category_count_ - 1].emplace_back(indices_[i]);
     }
-- 
2.43.0


From 3e54fc4c748658abfc3aaf696ecce5f3df4117e8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 18/80] fix: reading a label map from JSON replaces the labels
 held before

---
 src/random_effects.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 51d3b6c..d54a945 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -31,6 +31,7 @@ void LabelMapper::from_json(const nlohmann::json& rfx_label_mapper_json) {
   int num_keys = rfx_label_mapper_json.at("keys").size();
   int num_values = rfx_label_mapper_json.at("values").size();
   CHECK_EQ(num_keys, num_values);
+  Reset();
   for (int i = 0; i < num_keys; i++) {
     int32_t key = rfx_label_mapper_json.at("keys").at(i);
     int32_t value = rfx_label_mapper_json.at("values").at(i);
-- 
2.43.0


From 86ac9f190c32a9f3c9cba2cba217bf5f11ed50a3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 19/80] fix: keep initialized roots when a forest container is
 read from JSON

---
 src/container.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/container.cpp b/src/container.cpp
index 747e699..87e3886 100644
--- a/src/container.cpp
+++ b/src/container.cpp
@@ -128,8 +128,11 @@ void ForestContainer::from_json(const json& forest_container_json) {
 
   std::string forest_label;
   forests_.clear();
-  forests_.resize(this->num_samples_);
-  for (int i = 0; i < this->num_samples_; i++) {
+  // A container with initialized roots but no samples yet stores one more forest than it has samples
+  int num_forests = this->num_samples_;
+  if (forest_container_json.contains("forest_" + std::to_string(num_forests))) num_forests++;
+  forests_.resize(num_forests);
+  for (int i = 0; i < num_forests; i++) {
     forest_label = "forest_" + std::to_string(i);
     forests_[i] = std::make_unique<TreeEnsemble>(this->num_trees_, this->output_dimension_, this->is_leaf_constant_);
     forests_[i]->from_json(forest_container_json.at(forest_label));
-- 
2.43.0


From 98aa3e680d9b556a0a8a3687feaa539a59826dc4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 20/80] fix: prune moves divide by the prune probability and
 multiply by the reverse grow probability

---
 include/stochtree/tree_sampler.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 6d9dcb8..ac32364 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -394,8 +394,8 @@ class MCMCForestSampler {
 
     // Compute the final MH ratio
     double log_mh_ratio = (
-      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_prune_old) +
-      std::log(p_leaf) - std::log(prob_grow_new) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
+      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_grow_new) +
+      std::log(p_leaf) - std::log(prob_prune_old) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
     );
     // Threshold at 0
     if (log_mh_ratio > 0) {
-- 
2.43.0


From 34c57de3d9ba2deabe852ea1908d4fadb2af0fdd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 21/80] fix: line reader checks the buffer bound before reading
 past a line end

---
 include/stochtree/io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/io.h b/include/stochtree/io.h
index 3bc277f..68b9785 100644
--- a/include/stochtree/io.h
+++ b/include/stochtree/io.h
@@ -519,7 +519,7 @@ class TextReader {
           ++i;
           ++total_cnt;
           // skip end of line
-          while ((buffer_process[i] == '\n' || buffer_process[i] == '\r') && i < read_cnt) { ++i; }
+          while (i < read_cnt && (buffer_process[i] == '\n' || buffer_process[i] == '\r')) { ++i; }
           last_i = i;
         } else {
           ++i;
@@ -679,7 +679,7 @@ class TextReader {
           ++i;
           ++total_cnt;
           // skip end of line
-          while ((buffer_process[i] == '\n' || buffer_process[i] == '\r') && i < read_cnt) { ++i; }
+          while (i < read_cnt && (buffer_process[i] == '\n' || buffer_process[i] == '\r')) { ++i; }
           last_i = i;
         } else {
           ++i;
-- 
2.43.0


From 6d9a79c30ad1a74e625a18e0c40ada0ef757306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 22/80] fix: ordered categories keep their values in cutpoint
 edge cases

---
 src/cutpoint_candidates.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cutpoint_candidates.cpp b/src/cutpoint_candidates.cpp
index f7231fe..a57203d 100644
--- a/src/cutpoint_candidates.cpp
+++ b/src/cutpoint_candidates.cpp
@@ -51,18 +51,18 @@ void FeatureCutpointGrid::CalculateStridesOrderedCategorical(Eigen::MatrixXd& co
     node_stride_begin_.push_back(node_begin);
     node_stride_length_.push_back(1);
     single_value = covariates(feature_node_sort_tracker->SortIndex(node_begin, feature_index), feature_index);
-    cutpoint_values_.push_back(static_cast<std::uint32_t>(single_value));
+    cutpoint_values_.push_back(single_value);
     return;
   }
 
   // Edge case 2: single category
-  std::uint32_t first_val = static_cast<std::uint32_t>(covariates(feature_node_sort_tracker->SortIndex(node_begin, feature_index), feature_index));
-  std::uint32_t last_val = static_cast<std::uint32_t>(covariates(feature_node_sort_tracker->SortIndex(node_end - 1, feature_index), feature_index));
+  double first_val = covariates(feature_node_sort_tracker->SortIndex(node_begin, feature_index), feature_index);
+  double last_val = covariates(feature_node_sort_tracker->SortIndex(node_end - 1, feature_index), feature_index);
   if (last_val == first_val) {
     node_stride_begin_.push_back(node_begin);
     node_stride_length_.push_back(node_size);
     single_value = covariates(feature_node_sort_tracker->SortIndex(node_begin, feature_index), feature_index);
-    cutpoint_values_.push_back(static_cast<std::uint32_t>(single_value));
+    cutpoint_values_.push_back(single_value);
     return;
   }
   
-- 
2.43.0


From 12da4a81afac1381c628e0b4d68f2920f6ce8c37 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 23/80] fix: BARTModel.sample with a leaf basis of several
 columns

---
 stochtree/bart.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 963c47e..94b4506 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -182,7 +182,7 @@ class BARTModel:
         b_leaf = np.squeeze(np.var(resid_train)) / num_trees if b_leaf is None else b_leaf
         sigma_leaf = np.squeeze(np.var(resid_train)) / num_trees if sigma_leaf is None else sigma_leaf
         current_sigma2 = sigma2
-        current_leaf_scale = np.array([[sigma_leaf]])
+        current_leaf_scale = np.array([[sigma_leaf]]) if self.num_basis <= 1 else np.diag(np.repeat(float(sigma_leaf), self.num_basis))
 
         # Container of variance parameter samples
         self.num_gfr = num_gfr
@@ -238,8 +238,10 @@ class BARTModel:
 
         # Initialize the leaves of each tree in the prognostic forest
         init_root = np.squeeze(np.mean(resid_train)) / num_trees
+        if self.num_basis > 1:
+            init_root = np.zeros(self.num_basis)
         self.forest_container.set_root_leaves(0, init_root)
-        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, False, 0, True)
+        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, self.has_basis, 0, True)
 
         # Run GFR (warm start) if specified
         if self.num_gfr > 0:
-- 
2.43.0


From 154b8a50aaea5d6ca8e518ca60d8b3ce7eda35dc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:26:14 +0000
Subject: [PATCH 24/80] fix: integer and string columns of a data frame are
 recognised as such

---
 stochtree/preprocessing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index b9c6ceb..0186b10 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -32,7 +32,10 @@ class CovariateTransformer:
     
     def _process_unordered_categorical(self, covariate: pd.Series) -> int:
         num_onehot = len(self._onehot_encoders)
-        category_list = covariate.array.categories.to_list()
+        if isinstance(covariate.dtype, pd.CategoricalDtype):
+            category_list = covariate.array.categories.to_list()
+        else:
+            category_list = sorted(covariate.unique().tolist())
         enc = OneHotEncoder(categories=[category_list], sparse_output=False)
         enc.fit(pd.DataFrame(covariate))
         self._onehot_encoders.append(enc)
@@ -62,7 +65,7 @@ class CovariateTransformer:
         categorical_types = covariates.apply(lambda x: isinstance(x.dtype, pd.CategoricalDtype))
         float_types = covariates.apply(lambda x: pd.api.types.is_float_dtype(x))
         integer_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
-        string_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
+        string_types = covariates.apply(lambda x: isinstance(x.dtype, pd.StringDtype))
         if np.any(datetime_types):
             # raise ValueError("DateTime columns are currently unsupported")
             datetime_cols = covariates.columns[datetime_types].to_list()
-- 
2.43.0


From 24445d59fc4dc5f973ff2c2c1c6f206f46ea3641 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:26:14 +0000
Subject: [PATCH 25/80] fix: one-hot encoding of a column with a single
 category

---
 stochtree/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 0186b10..fc989c8 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -181,14 +181,14 @@ class CovariateTransformer:
                 if self._ordinal_feature_index[i] != -1:
                     ord_ind = self._ordinal_feature_index[i]
                     covariate_transformed = self._ordinal_encoders[ord_ind].transform(pd.DataFrame(covariate))
-                    output_array[:,output_iter] = np.squeeze(covariate_transformed)
+                    output_array[:,output_iter] = covariate_transformed[:,0]
                     output_iter += 1
                     self._original_feature_indices.append(i)
                 else:
                     onehot_ind = self._onehot_feature_index[i]
                     covariate_transformed = self._onehot_encoders[onehot_ind].transform(pd.DataFrame(covariate))
                     output_dim = covariate_transformed.shape[1]
-                    output_array[:,np.arange(output_iter, output_iter + output_dim)] = np.squeeze(covariate_transformed)
+                    output_array[:,np.arange(output_iter, output_iter + output_dim)] = covariate_transformed
                     output_iter += output_dim
                     self._original_feature_indices.extend([i for _ in range(output_dim)])
             
-- 
2.43.0


From be4540febc4b3c0122f988ee7f9c1c71ae9ffc63 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 26/80] fix: BARTModel.sample keep flags without draws of that
 kind

---
 stochtree/bart.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 94b4506..23ce3ee 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -244,8 +244,9 @@ class BARTModel:
         forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, self.has_basis, 0, True)
 
         # Run GFR (warm start) if specified
+        gfr_indices = np.arange(self.num_gfr)
+        burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
         if self.num_gfr > 0:
-            gfr_indices = np.arange(self.num_gfr)
             for i in range(self.num_gfr):
                 # Sample the forest
                 forest_sampler.sample_one_iteration(
@@ -263,8 +264,6 @@ class BARTModel:
         
         # Run MCMC
         if self.num_burnin + self.num_mcmc > 0:
-            if self.num_burnin > 0:
-                burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
             if self.num_mcmc > 0:
                 mcmc_indices = np.arange(self.num_gfr + self.num_burnin, self.num_gfr + self.num_burnin + self.num_mcmc)
             for i in range(self.num_gfr, self.num_samples):
-- 
2.43.0


From 77b251ca8b71f963ed58759ea28d7ba24ad4f856 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 27/80] fix: BARTModel.sample calibrates sigma2 when only lamb
 is given

---
 stochtree/bart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 23ce3ee..fe4fd02 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -172,10 +172,11 @@ class BARTModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf
-        if lamb is None:
+        if lamb is None or sigma2 is None:
             reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
             reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
             sigma2hat = reg_soln[1] / self.n_train
+        if lamb is None:
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
-- 
2.43.0


From 44f5fb46dcf4c3be568572c0a33bb753c1c5ec77 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 28/80] fix: BARTModel.sample variance calibration with
 collinear covariates

---
 stochtree/bart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index fe4fd02..074a10f 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -175,7 +175,7 @@ class BARTModel:
         if lamb is None or sigma2 is None:
             reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
             reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
+            sigma2hat = np.mean((np.squeeze(resid_train) - reg_basis @ reg_soln[0])**2)
         if lamb is None:
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
-- 
2.43.0


From 5e05419059d75f23e74db7fe0d8ffa94ea3d92ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 29/80] fix: BARTModel.predict accepts the data frames it was
 trained on

---
 stochtree/bart.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 074a10f..e45b294 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -335,6 +335,10 @@ class BARTModel:
             )
             raise NotSampledError(msg)
         
+        # Apply the training set preprocessing to data frames
+        if isinstance(covariates, pd.DataFrame):
+            covariates = self._covariate_transformer.transform(covariates)
+        
         # Convert everything to standard shape (2-dimensional)
         if covariates.ndim == 1:
             covariates = np.expand_dims(covariates, 1)
-- 
2.43.0


From 25cfef3257f6cb92d86206688bb94c84ce61d29e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:32:43 +0000
Subject: [PATCH 30/80] fix: Residual and Dataset.add_variance_weights accept
 strided arrays

---
 stochtree/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/data.py b/stochtree/data.py
index 20b01e6..eb2aab5 100644
--- a/stochtree/data.py
+++ b/stochtree/data.py
@@ -41,10 +41,10 @@ class Dataset:
         Add variance weights to a dataset
         """
         n = variance_weights.size
-        self.dataset_cpp.AddVarianceWeights(variance_weights, n)
+        self.dataset_cpp.AddVarianceWeights(np.ascontiguousarray(variance_weights), n)
 
 class Residual:
     def __init__(self, residual: np.array) -> None:
         # Initialize a ResidualCpp object
         n = residual.size
-        self.residual_cpp = ResidualCpp(residual, n)
+        self.residual_cpp = ResidualCpp(np.ascontiguousarray(residual), n)
-- 
2.43.0


From 01bfd3e6ee944fced4c03170df298cf98edf8461 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 31/80] fix: JSONSerializer stores numeric vectors of length
 one

---
 stochtree/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/serialization.py b/stochtree/serialization.py
index 9c7d04b..daa2688 100644
--- a/stochtree/serialization.py
+++ b/stochtree/serialization.py
@@ -83,7 +83,7 @@ class JSONSerializer:
         # Runtime checks
         if not isinstance(field_vector, np.ndarray):
             raise ValueError("field_vector must be a numpy array")
-        field_vector = np.squeeze(field_vector)
+        field_vector = np.atleast_1d(np.squeeze(field_vector))
         if field_vector.ndim > 1:
             warnings.warn("field_vector has more than 1 dimension. It will be flattened in row-major order using np.ravel()")
             field_vector = np.ravel(field_vector, order = "C")
-- 
2.43.0


From ddbe90ea329c43f22f54f90ace4ab16f870630c2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 32/80] fix: storing a vector replaces a stored value of
 another type

---
 src/py_stochtree.cpp  | 8 ++++----
 src/serialization.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index cb329f1..a8ae00b 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -509,7 +509,7 @@ class JsonCpp {
     int vec_length = field_vector.size();
     auto accessor = field_vector.mutable_unchecked<1>();
     if (json_->contains(field_name)) {
-      json_->at(field_name).clear();
+      json_->at(field_name) = nlohmann::json::array();
       for (int i = 0; i < vec_length; i++) {
         json_->at(field_name).emplace_back(accessor(i));
       }
@@ -526,7 +526,7 @@ class JsonCpp {
     auto accessor = field_vector.mutable_unchecked<1>();
     if (json_->contains(subfolder_name)) {
       if (json_->at(subfolder_name).contains(field_name)) {
-        json_->at(subfolder_name).at(field_name).clear();
+        json_->at(subfolder_name).at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
           json_->at(subfolder_name).at(field_name).emplace_back(accessor(i));
         }
@@ -548,7 +548,7 @@ class JsonCpp {
   void AddStringVector(std::string field_name, std::vector<std::string>& field_vector) {
     int vec_length = field_vector.size();
     if (json_->contains(field_name)) {
-      json_->at(field_name).clear();
+      json_->at(field_name) = nlohmann::json::array();
       for (int i = 0; i < vec_length; i++) {
         json_->at(field_name).emplace_back(field_vector.at(i));
       }
@@ -564,7 +564,7 @@ class JsonCpp {
     int vec_length = field_vector.size();
     if (json_->contains(subfolder_name)) {
       if (json_->at(subfolder_name).contains(field_name)) {
-        json_->at(subfolder_name).at(field_name).clear();
+        json_->at(subfolder_name).at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
           json_->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
         }
diff --git a/src/serialization.cpp b/src/serialization.cpp
index ba73475..b6e3e08 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -76,7 +76,7 @@ void json_add_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json> json_
     int vec_length = field_vector.size();
     if (json_ptr->contains(subfolder_name)) {
         if (json_ptr->at(subfolder_name).contains(field_name)) {
-            json_ptr->at(subfolder_name).at(field_name).clear();
+            json_ptr->at(subfolder_name).at(field_name) = nlohmann::json::array();
             for (int i = 0; i < vec_length; i++) {
                 json_ptr->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
             }
@@ -99,7 +99,7 @@ void json_add_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json> json_
 void json_add_vector_cpp(cpp11::external_pointer<nlohmann::json> json_ptr, std::string field_name, cpp11::doubles field_vector) {
     int vec_length = field_vector.size();
     if (json_ptr->contains(field_name)) {
-        json_ptr->at(field_name).clear();
+        json_ptr->at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
             json_ptr->at(field_name).emplace_back(field_vector.at(i));
         }
@@ -116,7 +116,7 @@ void json_add_string_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json
     int vec_length = field_vector.size();
     if (json_ptr->contains(subfolder_name)) {
         if (json_ptr->at(subfolder_name).contains(field_name)) {
-            json_ptr->at(subfolder_name).at(field_name).clear();
+            json_ptr->at(subfolder_name).at(field_name) = nlohmann::json::array();
             for (int i = 0; i < vec_length; i++) {
                 json_ptr->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
             }
@@ -139,7 +139,7 @@ void json_add_string_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json
 void json_add_string_vector_cpp(cpp11::external_pointer<nlohmann::json> json_ptr, std::string field_name, cpp11::strings field_vector) {
     int vec_length = field_vector.size();
     if (json_ptr->contains(field_name)) {
-        json_ptr->at(field_name).clear();
+        json_ptr->at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
             json_ptr->at(field_name).emplace_back(field_vector.at(i));
         }
-- 
2.43.0


From e18dfea95c4cedbbef3629d681b782833c01b749 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:35:55 +0000
Subject: [PATCH 33/80] fix: categories that are numbers in declared order can
 be encoded

---
 stochtree/preprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index fc989c8..1351aa6 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -37,7 +37,7 @@ class CovariateTransformer:
         else:
             category_list = sorted(covariate.unique().tolist())
         enc = OneHotEncoder(categories=[category_list], sparse_output=False)
-        enc.fit(pd.DataFrame(covariate))
+        enc.fit(pd.DataFrame(covariate.astype(object)))
         self._onehot_encoders.append(enc)
         return num_onehot
     
@@ -45,7 +45,7 @@ class CovariateTransformer:
         num_ord = len(self._ordinal_encoders)
         category_list = covariate.array.categories.to_list()
         enc = OrdinalEncoder(categories=[category_list])
-        enc.fit(pd.DataFrame(covariate))
+        enc.fit(pd.DataFrame(covariate.astype(object)))
         self._ordinal_encoders.append(enc)
         return num_ord
 
@@ -180,13 +180,13 @@ class CovariateTransformer:
             if self._original_feature_types[i] == "category" or self._original_feature_types[i] == "string":
                 if self._ordinal_feature_index[i] != -1:
                     ord_ind = self._ordinal_feature_index[i]
-                    covariate_transformed = self._ordinal_encoders[ord_ind].transform(pd.DataFrame(covariate))
+                    covariate_transformed = self._ordinal_encoders[ord_ind].transform(pd.DataFrame(covariate.astype(object)))
                     output_array[:,output_iter] = covariate_transformed[:,0]
                     output_iter += 1
                     self._original_feature_indices.append(i)
                 else:
                     onehot_ind = self._onehot_feature_index[i]
-                    covariate_transformed = self._onehot_encoders[onehot_ind].transform(pd.DataFrame(covariate))
+                    covariate_transformed = self._onehot_encoders[onehot_ind].transform(pd.DataFrame(covariate.astype(object)))
                     output_dim = covariate_transformed.shape[1]
                     output_array[:,np.arange(output_iter, output_iter + output_dim)] = covariate_transformed
                     output_iter += output_dim
-- 
2.43.0


From 5bfa6dbbfd9eb4007b9f43af6856df75dfd1c447 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:35:55 +0000
Subject: [PATCH 34/80] fix: refitting a CovariateTransformer replaces the
 earlier fit

---
 stochtree/preprocessing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 1351aa6..6540117 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -160,6 +160,10 @@ class CovariateTransformer:
                 self._processed_feature_types.append(0)
 
     def _fit(self, covariates: Union[pd.DataFrame, np.array]) -> None:
+        # Discard the results of any previous fit
+        self._ordinal_encoders = []
+        self._onehot_encoders = []
+        self._processed_feature_types = []
         if isinstance(covariates, pd.DataFrame):
             self._fit_pandas(covariates)
         elif isinstance(covariates, np.ndarray):
-- 
2.43.0


From 087ff18d21c453a30868534e00c43a3aabd141f7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 35/80] fix: sparse data frame columns are ignored as
 documented

---
 stochtree/preprocessing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 6540117..f722dfa 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -99,7 +99,9 @@ class CovariateTransformer:
         
         for i in range(covariates.shape[1]):
             covariate = covariates.iloc[:,i]
-            if categorical_types.iloc[i]:
+            if sparse_types.iloc[i]:
+                self._original_feature_types[i] = "unsupported"
+            elif categorical_types.iloc[i]:
                 self._original_feature_types[i] = "category"
                 if covariate.array.ordered:
                     ord_index = self._process_ordered_categorical(covariate)
-- 
2.43.0


From f0be5e384de18bdf4aace4701ef649814e68a5cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 36/80] fix: BCFModel fits include the control group coding
 under adaptive coding

---
 stochtree/bcf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index bfc334d..d5cd74b 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -780,6 +780,7 @@ class BCFModel:
         tau_raw_train = self.forest_container_tau.forest_container_cpp.PredictRaw(forest_dataset_train.dataset_cpp)
         self.tau_hat_train = tau_raw_train[:,self.keep_indices]
         if self.adaptive_coding:
+            self.mu_hat_train = self.mu_hat_train + self.b0_samples[self.keep_indices]*self.tau_hat_train[:,:,0]*self.y_std
             adaptive_coding_weights = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
             self.tau_hat_train = self.tau_hat_train*adaptive_coding_weights
         self.tau_hat_train = self.tau_hat_train*self.y_std
@@ -794,6 +795,7 @@ class BCFModel:
             tau_raw_test = self.forest_container_tau.forest_container_cpp.PredictRaw(forest_dataset_test.dataset_cpp)
             self.tau_hat_test = tau_raw_test[:,self.keep_indices]
             if self.adaptive_coding:
+                self.mu_hat_test = self.mu_hat_test + self.b0_samples[self.keep_indices]*self.tau_hat_test[:,:,0]*self.y_std
                 adaptive_coding_weights_test = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
                 self.tau_hat_test = self.tau_hat_test*adaptive_coding_weights_test
             self.tau_hat_test = self.tau_hat_test*self.y_std
@@ -949,6 +951,7 @@ class BCFModel:
         # Estimate treatment effect
         tau_raw = self.forest_container_tau.forest_container_cpp.PredictRaw(forest_dataset_tau.dataset_cpp)
         if self.adaptive_coding:
+            mu_x = mu_x + (tau_raw[:,:,0]*self.b0_samples)[:,self.keep_indices]*self.y_std
             tau_raw = tau_raw*np.expand_dims(self.b1_samples - self.b0_samples, axis=(0,2))
         tau_raw = tau_raw*self.y_std
         tau_x = tau_raw[:,self.keep_indices]
-- 
2.43.0


From 600303178903ec576db31a07585b2612ab91cd5a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 37/80] fix: BCFModel.predict multiplies each effect draw by
 the treatment

---
 stochtree/bcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index d5cd74b..a180617 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -957,7 +957,7 @@ class BCFModel:
         tau_x = tau_raw[:,self.keep_indices]
 
         # Outcome predictions
-        yhat_x = mu_x + Z*tau_x
+        yhat_x = mu_x + np.multiply(np.atleast_3d(Z).swapaxes(1,2),tau_x).sum(axis=2)
 
         # Return result matrices as a tuple
         return (tau_x, mu_x, yhat_x)
-- 
2.43.0


From 6bc33df514e82e7851cebb0d4b35affd9a7dee58 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:40:54 +0000
Subject: [PATCH 38/80] fix: BCFModel.sample with a single retained draw or row

---
 stochtree/bcf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index a180617..16edf87 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -787,7 +787,7 @@ class BCFModel:
         if self.multivariate_treatment:
             treatment_term_train = np.multiply(np.atleast_3d(Z_train).swapaxes(1,2),self.tau_hat_train).sum(axis=2)
         else:
-            treatment_term_train = Z_train*np.squeeze(self.tau_hat_train)
+            treatment_term_train = Z_train*np.squeeze(self.tau_hat_train, axis=2)
         self.y_hat_train = self.mu_hat_train + treatment_term_train
         if self.has_test:
             mu_raw_test = self.forest_container_mu.forest_container_cpp.Predict(forest_dataset_test.dataset_cpp)
@@ -802,7 +802,7 @@ class BCFModel:
             if self.multivariate_treatment:
                 treatment_term_test = np.multiply(np.atleast_3d(Z_test).swapaxes(1,2),self.tau_hat_test).sum(axis=2)
             else:
-                treatment_term_test = Z_test*np.squeeze(self.tau_hat_test)
+                treatment_term_test = Z_test*np.squeeze(self.tau_hat_test, axis=2)
             self.y_hat_test = self.mu_hat_test + treatment_term_test
     
     def predict_tau(self, X: np.array, Z: np.array, propensity: np.array = None) -> np.array:
-- 
2.43.0


From 48f9419d8288201f0cca3ff893b923498bb5b012 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:40:54 +0000
Subject: [PATCH 39/80] fix: random_seed determines every draw of
 BCFModel.sample

---
 stochtree/bcf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 16edf87..dce2967 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -489,11 +489,11 @@ class BCFModel:
             self.bart_propensity_model = BARTModel()
             if self.has_test:
                 pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
-                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10)
+                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10, random_seed=random_seed)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
                 pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
             else:
-                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, num_gfr=10, num_mcmc=10)
+                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, num_gfr=10, num_mcmc=10, random_seed=random_seed)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
             self.internal_propensity_model = True
         else:
@@ -607,11 +607,13 @@ class BCFModel:
         # Residual
         residual_train = Residual(resid_train)
 
-        # C++ random number generator
+        # C++ random number generator (and generator of the coding parameters)
         if random_seed is None: 
             cpp_rng = RNG(-1)
         else:
             cpp_rng = RNG(random_seed)
+            if random_seed != -1:
+                self.rng = np.random.default_rng(random_seed)
         
         # Sampling data structures
         forest_sampler_mu = ForestSampler(forest_dataset_train, feature_types, num_trees_mu, self.n_train, alpha_mu, beta_mu, min_samples_leaf_mu)
-- 
2.43.0


From 815c51a7cf69f3cb8d714e73cb211afb6c99d744 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 40/80] fix: BCFModel.sample estimates test set propensities
 after sampling

---
 stochtree/bcf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index dce2967..15a8076 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -488,7 +488,6 @@ class BCFModel:
         if pi_train is None and propensity_covariate != "none":
             self.bart_propensity_model = BARTModel()
             if self.has_test:
-                pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
                 self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10, random_seed=random_seed)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
                 pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
-- 
2.43.0


From 19ed0b7e60374b229909ee9f4efafdf21907d4b7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 41/80] fix: BCFModel keeps the residual in step with the
 treatment coding

---
 stochtree/bcf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 15a8076..5ed902d 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -688,7 +688,9 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
@@ -744,7 +746,9 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
-- 
2.43.0


From 912a93f96bbe95d461112aad5b5c89412cf46a0c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:43:08 +0000
Subject: [PATCH 42/80] fix: BCFModel.sample with keep_gfr or keep_burnin and
 no such draws

---
 stochtree/bcf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 5ed902d..696ed72 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -643,8 +643,9 @@ class BCFModel:
         forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, 0, True)
 
         # Run GFR (warm start) if specified
+        gfr_indices = np.arange(self.num_gfr)
+        burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
         if self.num_gfr > 0:
-            gfr_indices = np.arange(self.num_gfr)
             for i in range(self.num_gfr):
                 # Sample the prognostic forest
                 forest_sampler_mu.sample_one_iteration(
@@ -699,8 +700,6 @@ class BCFModel:
         
         # Run MCMC
         if self.num_burnin + self.num_mcmc > 0:
-            if self.num_burnin > 0:
-                burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
             if self.num_mcmc > 0:
                 mcmc_indices = np.arange(self.num_gfr + self.num_burnin, self.num_gfr + self.num_burnin + self.num_mcmc)
             for i in range(self.num_gfr, self.num_samples):
-- 
2.43.0


From 2a652bcdd336fcab0813df740314a481b7e85c62 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 43/80] fix: BCFModel.sample calibrates sigma2 whenever it is
 not given

---
 stochtree/bcf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 696ed72..0f983ce 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -504,10 +504,11 @@ class BCFModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf_mu / sigma_leaf_tau
-        if lamb is None:
+        if lamb is None or sigma2 is None:
             reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
             reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
+            sigma2hat = np.mean((np.squeeze(resid_train) - reg_basis @ reg_soln[0])**2)
+        if lamb is None:
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
-- 
2.43.0


From e4e4717a29ebdac3207d11c8eed643b9bd92bbac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 44/80] fix: BCFModel.sample excludes variables from the forest
 they are dropped from

---
 stochtree/bcf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 0f983ce..546473c 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -532,10 +532,10 @@ class BCFModel:
         variable_weights = variable_weights[original_var_indices]*variable_weights_adj
 
         # Create mu and tau specific variable weights with weights zeroed out for excluded variables
-        variable_weights_tau = variable_weights
-        variable_weights_mu = variable_weights
+        variable_weights_tau = np.copy(variable_weights)
+        variable_weights_mu = np.copy(variable_weights)
         variable_weights_mu[[variable_subset_mu.count(i) == 0 for i in original_var_indices]] = 0
-        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] <- 0
+        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] = 0
         
         # Update covariates to include propensities if requested
         if propensity_covariate not in ["none", "mu", "tau", "both"]:
-- 
2.43.0


From c200a7a675f098c1a9f89b5d4cf5959c30cef399 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:43:48 +0000
Subject: [PATCH 45/80] fix: BCFModel.sample accepts every documented form of
 keep_vars and drop_vars

---
 stochtree/bcf.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 546473c..2d22213 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -341,7 +341,7 @@ class BCFModel:
                 if all(isinstance(i, str) for i in keep_vars_mu):
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if keep_vars_mu.count(X_train.columns.array[i]) > 0]
                 elif all(isinstance(i, int) for i in keep_vars_mu):
                     if any(i >= X_train.shape[1] for i in keep_vars_mu):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -351,10 +351,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_mu, np.ndarray):
-                if keep_vars_mu.dtype == np.str_:
+                if keep_vars_mu.dtype.kind == "U":
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if np.isin(X_train.columns.array[i], keep_vars_mu)]
                 else:
                     if np.any(keep_vars_mu >= X_train.shape[1]):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -378,18 +378,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_mu, np.ndarray):
-                if drop_vars_mu.dtype == np.str_:
+                if drop_vars_mu.dtype.kind == "U":
                     if not np.all(np.isin(drop_vars_mu, X_train.columns)):
                         raise ValueError("drop_vars_mu includes some variable names that are not in X_train")
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if keep_inds[i]]
                 else:
                     if np.any(drop_vars_mu >= X_train.shape[1]):
                         raise ValueError("drop_vars_mu includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_mu < 0):
                         raise ValueError("drop_vars_mu includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if keep_inds[i]]
             else:
                 raise ValueError("drop_vars_mu must be a list or np.array")
         else:
@@ -409,10 +409,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_tau, np.ndarray):
-                if keep_vars_tau.dtype == np.str_:
+                if keep_vars_tau.dtype.kind == "U":
                     if not np.all(np.isin(keep_vars_tau, X_train.columns)):
                         raise ValueError("keep_vars_tau includes some variable names that are not in X_train")
-                    variable_subset_tau = [i for i in range(X_train.shape[1]) if keep_vars_tau.count(X_train.columns.array[i]) > 0]
+                    variable_subset_tau = [i for i in range(X_train.shape[1]) if np.isin(X_train.columns.array[i], keep_vars_tau)]
                 else:
                     if np.any(keep_vars_tau >= X_train.shape[1]):
                         raise ValueError("keep_vars_tau includes some variable indices that exceed the number of columns in X_train")
@@ -436,18 +436,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_tau, np.ndarray):
-                if drop_vars_tau.dtype == np.str_:
+                if drop_vars_tau.dtype.kind == "U":
                     if not np.all(np.isin(drop_vars_tau, X_train.columns)):
                         raise ValueError("drop_vars_tau includes some variable names that are not in X_train")
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    variable_subset_tau = [i for i in range(X_train.shape[1]) if keep_inds[i]]
                 else:
                     if np.any(drop_vars_tau >= X_train.shape[1]):
                         raise ValueError("drop_vars_tau includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_tau < 0):
                         raise ValueError("drop_vars_tau includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    variable_subset_tau = [i for i in range(X_train.shape[1]) if keep_inds[i]]
             else:
                 raise ValueError("drop_vars_tau must be a list or np.array")
         else:
-- 
2.43.0


From e5da4e47efeb646bc001e5a1e768cf7ea7c5573f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 46/80] fix: BCFModel predicts on data frames with the training
 set preprocessing

---
 stochtree/bcf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 2d22213..6b633a2 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -834,6 +834,10 @@ class BCFModel:
             )
             raise NotSampledError(msg)
         
+        # Apply the training set preprocessing to data frames
+        if isinstance(X, pd.DataFrame):
+            X = self._covariate_transformer.transform(X)
+        
         # Convert everything to standard shape (2-dimensional)
         if X.ndim == 1:
             X = np.expand_dims(X, 1)
@@ -904,6 +908,10 @@ class BCFModel:
             )
             raise NotSampledError(msg)
         
+        # Apply the training set preprocessing to data frames
+        if isinstance(X, pd.DataFrame):
+            X = self._covariate_transformer.transform(X)
+        
         # Convert everything to standard shape (2-dimensional)
         if X.ndim == 1:
             X = np.expand_dims(X, 1)
-- 
2.43.0


From de55fa248997d3b93557eb2455dfe4023cfa6db8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 47/80] fix: BCFModel.predict_tau uses propensities when both
 forests do

---
 stochtree/bcf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 6b633a2..510b9cf 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -854,14 +854,14 @@ class BCFModel:
             if propensity.shape[0] != X.shape[0]:
                 raise ValueError("X and propensity must have the same number of rows")
         else:
-            if self.propensity_covariate == "tau":
+            if self.propensity_covariate in ["tau", "both"]:
                 if not self.internal_propensity_model:
                     raise ValueError("Propensity scores not provided, but no propensity model was trained during sampling")
                 else:
                     propensity = np.mean(self.bart_propensity_model.predict(X), axis=1, keepdims=True)
         
         # Update covariates to include propensities if requested
-        if self.propensity_covariate == "tau":
+        if self.propensity_covariate in ["tau", "both"]:
             X_tau = np.c_[X, propensity]
         else:
             X_tau = X
-- 
2.43.0


From b75e97356659acc6cb30c25ba216e688456a2458 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:11:55 +0000
Subject: [PATCH 48/80] fix: R one-hot encoding of a column with a single
 category

---
 R/utils.R | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/R/utils.R b/R/utils.R
index 7afffe2..cb15a3b 100644
--- a/R/utils.R
+++ b/R/utils.R
@@ -562,7 +562,7 @@ oneHotInitializeAndEncode <- function(x_input) {
     if (is.factor(x_input) && is.ordered(x_input)) warning("One-hot encoding an ordered categorical variable")
     x_factor <- factor(x_input)
     unique_levels <- levels(x_factor)
-    Xtilde <- cbind(unname(model.matrix(~0+x_factor)), 0)
+    Xtilde <- cbind(outer(as.integer(x_factor), seq_along(unique_levels), "==") * 1, 0)
     output <- list(Xtilde = Xtilde, unique_levels = unique_levels)
     return(output)
 }
@@ -600,13 +600,13 @@ oneHotEncode <- function(x_input, unique_levels) {
     if (has_out_of_sample) {
         x_factor_insample <- factor(x_input[in_sample], levels = unique_levels)
         Xtilde <- matrix(0, nrow = length(x_input), ncol = num_unique_levels + 1)
-        Xtilde_insample <- cbind(unname(model.matrix(~0+x_factor_insample)), 0)
+        Xtilde_insample <- cbind(outer(as.integer(x_factor_insample), seq_along(unique_levels), "==") * 1, 0)
         Xtilde_out_of_sample <- cbind(matrix(0, nrow=sum(out_of_sample), ncol=num_unique_levels), 1)
         Xtilde[in_sample,] <- Xtilde_insample
         Xtilde[out_of_sample,] <- Xtilde_out_of_sample
     } else {
         x_factor <- factor(x_input, levels = unique_levels)
-        Xtilde <- cbind(unname(model.matrix(~0+x_factor)), 0)
+        Xtilde <- cbind(outer(as.integer(x_factor), seq_along(unique_levels), "==") * 1, 0)
     }
     return(Xtilde)
 }
-- 
2.43.0


From 7036bc25b0a969191bdd78d2e14ae11613502716 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:13:33 +0000
Subject: [PATCH 49/80] fix: R data classes accept integer and logical inputs

---
 R/data.R | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/R/data.R b/R/data.R
index a070e54..bf7b89a 100644
--- a/R/data.R
+++ b/R/data.R
@@ -20,6 +20,10 @@ ForestDataset <- R6::R6Class(
         #' @param variance_weights (Optional) Vector of observation-specific variance weights
         #' @return A new `ForestDataset` object.
         initialize = function(covariates, basis=NULL, variance_weights=NULL) {
+            # Integer and logical inputs are stored as doubles
+            storage.mode(covariates) <- "double"
+            if (!is.null(basis)) storage.mode(basis) <- "double"
+            if (!is.null(variance_weights)) storage.mode(variance_weights) <- "double"
             self$data_ptr <- create_forest_dataset_cpp()
             forest_dataset_add_covariates_cpp(self$data_ptr, covariates)
             if (!is.null(basis)) {
@@ -35,6 +39,7 @@ ForestDataset <- R6::R6Class(
         #' @param basis Updated matrix of bases used to define a leaf regression
         update_basis = function(basis) {
             stopifnot(self$has_basis())
+            storage.mode(basis) <- "double"
             forest_dataset_update_basis_cpp(self$data_ptr, basis)
         }, 
         
@@ -98,6 +103,7 @@ Outcome <- R6::R6Class(
         #' @param outcome Vector of outcome values
         #' @return A new `Outcome` object.
         initialize = function(outcome) {
+            storage.mode(outcome) <- "double"
             self$data_ptr <- create_column_vector_cpp(outcome)
         }
     )
@@ -124,6 +130,8 @@ RandomEffectsDataset <- R6::R6Class(
         #' @param variance_weights (Optional) Vector of observation-specific variance weights
         #' @return A new `RandomEffectsDataset` object.
         initialize = function(group_labels, basis, variance_weights=NULL) {
+            storage.mode(basis) <- "double"
+            if (!is.null(variance_weights)) storage.mode(variance_weights) <- "double"
             self$data_ptr <- create_rfx_dataset_cpp()
             rfx_dataset_add_group_labels_cpp(self$data_ptr, group_labels)
             rfx_dataset_add_basis_cpp(self$data_ptr, basis)
-- 
2.43.0


From 32b308da478da69f63f7f21154feafcc476ebcc3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 50/80] fix: RandomEffectSamples label mapping keeps its group
 labels

---
 R/random_effects.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/random_effects.R b/R/random_effects.R
index dbcdbbb..d4e2cbe 100644
--- a/R/random_effects.R
+++ b/R/random_effects.R
@@ -117,7 +117,7 @@ RandomEffectSamples <- R6::R6Class(
         extract_label_mapping = function() {
             keys_and_vals <- rfx_label_mapper_to_list_cpp(self$label_mapper_ptr)
             result <- as.list(keys_and_vals[[2]] + 1)
-            setNames(result, keys_and_vals[[1]])
+            names(result) <- keys_and_vals[[1]]
             return(result)
         }
     )
-- 
2.43.0


From b7a77fe602316412a416976b0ffa6756aeed4d48 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 51/80] fix: bart keep_gfr and keep_burnin with no such draws

---
 R/bart.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index c9c9e05..9ab57b9 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -402,8 +402,8 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     # Compute retention indices
     if (num_mcmc > 0) {
         keep_indices = mcmc_indices
-        if (keep_gfr) keep_indices <- c(gfr_indices, keep_indices)
-        if (keep_burnin) keep_indices <- c(burnin_indices, keep_indices)
+        if ((keep_gfr) && (num_gfr > 0)) keep_indices <- c(gfr_indices, keep_indices)
+        if ((keep_burnin) && (num_burnin > 0)) keep_indices <- c(burnin_indices, keep_indices)
     } else {
         if ((num_gfr > 0) && (num_burnin > 0)) {
             # Override keep_gfr = FALSE since there are no MCMC samples
-- 
2.43.0


From 8e4833882f48197af7c731303e9f31f08928de90 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 52/80] fix: bart with a test set and intercept-only random
 effects

---
 R/bart.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bart.R b/R/bart.R
index 9ab57b9..34fa90e 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -191,7 +191,7 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     }
     if (has_rfx_test) {
         if (is.null(rfx_basis_test)) {
-            if (!is.null(rfx_basis_train)) {
+            if (has_basis_rfx) {
                 stop("Random effects basis provided for training set, must also be provided for the test set")
             }
             rfx_basis_test <- matrix(rep(1,nrow(X_test)), nrow = nrow(X_test), ncol = 1)
-- 
2.43.0


From 84c6648698998f9b6880d07ae3b50c1244025da5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 53/80] fix: bart uses the requested quantile q

---
 R/bart.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bart.R b/R/bart.R
index 34fa90e..030d55b 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -217,7 +217,7 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     # Calibrate priors for sigma^2 and tau
     reg_basis <- cbind(W_train, X_train)
     sigma2hat <- (sigma(lm(resid_train~reg_basis)))^2
-    quantile_cutoff <- 0.9
+    quantile_cutoff <- q
     if (is.null(lambda)) {
         lambda <- (sigma2hat*qgamma(1-quantile_cutoff,nu))/nu
     }
-- 
2.43.0


From 474413d3e42df27ab3ac7364470f3085179626cb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 54/80] fix: predict on a bart model with random effects

---
 R/bart.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bart.R b/R/bart.R
index 030d55b..eb4c6be 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -574,7 +574,7 @@ predict.bartmodel <- function(bart, X_test, W_test = NULL, group_ids_test = NULL
     # Recode group IDs to integer vector (if passed as, for example, a vector of county names, etc...)
     has_rfx <- F
     if (!is.null(group_ids_test)) {
-        rfx_unique_group_ids <- bcf$rfx_unique_group_ids
+        rfx_unique_group_ids <- bart$rfx_unique_group_ids
         group_ids_factor_test <- factor(group_ids_test, levels = rfx_unique_group_ids)
         if (sum(is.na(group_ids_factor_test)) > 0) {
             stop("All random effect group labels provided in group_ids_test must be present in group_ids_train")
-- 
2.43.0


From c1fe1bad9eefc582c69451cc2e79bccc733fa0c3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 55/80] fix: bart leaf scale for a multivariate basis

---
 R/bart.R | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/R/bart.R b/R/bart.R
index eb4c6be..c6bad58 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -224,7 +224,12 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     if (is.null(sigma2_init)) sigma2_init <- sigma2hat
     if (is.null(b_leaf)) b_leaf <- var(resid_train)/(2*num_trees)
     if (is.null(tau_init)) tau_init <- var(resid_train)/(num_trees)
-    current_leaf_scale <- as.matrix(tau_init)
+    if ((has_basis) && (length(tau_init) == 1)) {
+        # Scalar leaf scale applies to every basis dimension
+        current_leaf_scale <- diag(as.numeric(tau_init), ncol(W_train))
+    } else {
+        current_leaf_scale <- as.matrix(tau_init)
+    }
     current_sigma2 <- sigma2_init
     
     # Determine leaf model type
-- 
2.43.0


From bd7fd494a9a1fd2e68683722cc3d44473f60e238 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 56/80] fix: bart predictions keep their dimensions with one
 row or one retained draw

---
 R/bart.R | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index c6bad58..cfba339 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -426,14 +426,14 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     }
     
     # Subset forest and RFX predictions
-    y_hat_train <- y_hat_train[,keep_indices]
+    y_hat_train <- y_hat_train[,keep_indices,drop=FALSE]
     if (has_rfx) {
-        rfx_preds_train <- rfx_preds_train[,keep_indices]
+        rfx_preds_train <- rfx_preds_train[,keep_indices,drop=FALSE]
     }
     if (has_test) {
-        y_hat_test <- y_hat_test[,keep_indices]
+        y_hat_test <- y_hat_test[,keep_indices,drop=FALSE]
         if (has_rfx_test) {
-            rfx_preds_test <- rfx_preds_test[,keep_indices]
+            rfx_preds_test <- rfx_preds_test[,keep_indices,drop=FALSE]
         }
     }
     
@@ -610,8 +610,8 @@ predict.bartmodel <- function(bart, X_test, W_test = NULL, group_ids_test = NULL
     # Restrict predictions to the "retained" samples (if applicable)
     if (!predict_all) {
         keep_indices = bart$keep_indices
-        forest_predictions <- forest_predictions[,keep_indices]
-        if (bart$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices]
+        forest_predictions <- forest_predictions[,keep_indices,drop=FALSE]
+        if (bart$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices,drop=FALSE]
     }
     
     if (bart$model_params$has_rfx) {
-- 
2.43.0


From d720258447b87ea54c625f3cfb8db23a214e6f49 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 57/80] fix: bcf estimates propensities when none are given

---
 R/bcf.R | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 3425e96..1745cc0 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -371,12 +371,13 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Estimate if pre-estimated propensity score is not provided
     if ((is.null(pi_train)) && (propensity_covariate != "none")) {
         # Estimate using the last of several iterations of GFR BART
-        num_burnin <- 10
-        num_total <- 50
+        propensity_burnin <- 10
+        propensity_total <- 50
         bart_model_propensity <- bart(X_train = X_train_raw, y_train = as.numeric(Z_train), X_test = X_test_raw, 
-                                      num_gfr = num_total, num_burnin = 0, num_mcmc = 0)
-        pi_train <- rowMeans(bart_model_propensity$y_hat_train[(num_burnin+1):num_total])
-        if (has_test) pi_test <- rowMeans(bart_model_propensity$y_hat_test[,(num_burnin+1):num_total])
+                                      num_gfr = propensity_total, num_burnin = 0, num_mcmc = 0, random_seed = random_seed)
+        propensity_indices <- (propensity_burnin+1):propensity_total
+        pi_train <- as.matrix(rowMeans(bart_model_propensity$y_hat_train[,propensity_indices,drop=FALSE]))
+        if (has_test) pi_test <- as.matrix(rowMeans(bart_model_propensity$y_hat_test[,propensity_indices,drop=FALSE]))
     }
 
     if (has_test) {
-- 
2.43.0


From 7427f37fd9a7d184cdc4fb78837ef40f43ebd0d8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 58/80] fix: bcf without a propensity covariate passes integer
 feature types

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 1745cc0..0aaa816 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -215,7 +215,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     X_train_raw <- X_train
     X_train <- train_cov_preprocess_list$data
     original_var_indices <- X_train_metadata$original_var_indices
-    feature_types <- X_train_metadata$feature_types
+    feature_types <- as.integer(X_train_metadata$feature_types)
     X_test_raw <- X_test
     if (!is.null(X_test)) X_test <- preprocessPredictionData(X_test, X_train_metadata)
     
-- 
2.43.0


From 71716ef1a09e7588de7c8253396e2207777a6827 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 59/80] fix: bcf with a test set needs no test propensities
 when none are used

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 0aaa816..26665ae 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -380,7 +380,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         if (has_test) pi_test <- as.matrix(rowMeans(bart_model_propensity$y_hat_test[,propensity_indices,drop=FALSE]))
     }
 
-    if (has_test) {
+    if ((has_test) && (propensity_covariate != "none")) {
         if (is.null(pi_test)) stop("Propensity score must be provided for the test set if provided for the training set")
     }
     
-- 
2.43.0


From 1936e5fb63512bfc510247875c6047051a5032ed Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 60/80] fix: bcf with intercept-only random effects

---
 R/bcf.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 26665ae..2542789 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -299,10 +299,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Random effects covariance prior
     if (has_rfx) {
         if (is.null(rfx_prior_var)) {
-            rfx_prior_var <- rep(1, ncol(rfx_basis_train))
+            rfx_prior_var <- rep(1, ifelse(is.null(rfx_basis_train), 1, ncol(rfx_basis_train)))
         } else {
             if ((!is.integer(rfx_prior_var)) && (!is.numeric(rfx_prior_var))) stop("rfx_prior_var must be a numeric vector")
-            if (length(rfx_prior_var) != ncol(rfx_basis_train)) stop("length(rfx_prior_var) must equal ncol(rfx_basis_train)")
+            if (length(rfx_prior_var) != ifelse(is.null(rfx_basis_train), 1, ncol(rfx_basis_train))) stop("length(rfx_prior_var) must equal ncol(rfx_basis_train)")
         }
     }
     
@@ -331,7 +331,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     if (has_rfx_test) {
         if (is.null(rfx_basis_test)) {
-            if (!is.null(rfx_basis_train)) {
+            if (has_basis_rfx) {
                 stop("Random effects basis provided for training set, must also be provided for the test set")
             }
             rfx_basis_test <- matrix(rep(1,nrow(X_test)), nrow = nrow(X_test), ncol = 1)
@@ -443,7 +443,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             xi_init[,i] <- unname(coef(rfx_group_model))
         }
         sigma_alpha_init <- diag(1,num_rfx_components,num_rfx_components)
-        sigma_xi_init <- diag(rfx_prior_var)
+        sigma_xi_init <- diag(rfx_prior_var, num_rfx_components, num_rfx_components)
         sigma_xi_shape <- 1
         sigma_xi_scale <- 1
     }
-- 
2.43.0


From 100c4cbcbc53bfbc7aade70397cb1faa808b82fe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 61/80] fix: bcf random effects initialization for small groups

---
 R/bcf.R | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 2542789..6819e6c 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -437,10 +437,13 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         xi_init <- matrix(0,num_rfx_components,num_rfx_groups)
         for (i in 1:num_rfx_groups) {
             group_subset_indices <- group_ids_train == i
-            basis_group <- rfx_basis_train[group_subset_indices,]
+            basis_group <- rfx_basis_train[group_subset_indices,,drop=FALSE]
             resid_group <- resid_train[group_subset_indices]
             rfx_group_model <- lm(resid_group ~ 0+basis_group)
-            xi_init[,i] <- unname(coef(rfx_group_model))
+            group_coef <- unname(coef(rfx_group_model))
+            # Coefficients that a small group cannot identify start at 0
+            group_coef[is.na(group_coef)] <- 0
+            xi_init[,i] <- group_coef
         }
         sigma_alpha_init <- diag(1,num_rfx_components,num_rfx_components)
         sigma_xi_init <- diag(rfx_prior_var, num_rfx_components, num_rfx_components)
-- 
2.43.0


From 5b2413a34aded3458e55c5e7ff239e5379d19774 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 62/80] fix: bcf keep_gfr and keep_burnin with no such draws

---
 R/bcf.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 6819e6c..01934b9 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -734,8 +734,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Compute retention indices
     if (num_mcmc > 0) {
         keep_indices = mcmc_indices
-        if (keep_gfr) keep_indices <- c(gfr_indices, keep_indices)
-        if (keep_burnin) keep_indices <- c(burnin_indices, keep_indices)
+        if ((keep_gfr) && (num_gfr > 0)) keep_indices <- c(gfr_indices, keep_indices)
+        if ((keep_burnin) && (num_burnin > 0)) keep_indices <- c(burnin_indices, keep_indices)
     } else {
         if ((num_gfr > 0) && (num_burnin > 0)) {
             # Override keep_gfr = FALSE since there are no MCMC samples
-- 
2.43.0


From da4d6294647456e2bb0a3d46f20c17135ec617fb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 63/80] fix: bcf predictions keep their dimensions with one row
 or one retained draw

---
 R/bcf.R | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 01934b9..1ae7492 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -753,18 +753,18 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     
     # Subset forest and RFX predictions
-    mu_hat_train <- mu_hat_train[,keep_indices]
-    tau_hat_train <- tau_hat_train[,keep_indices]
-    y_hat_train <- y_hat_train[,keep_indices]
+    mu_hat_train <- mu_hat_train[,keep_indices,drop=FALSE]
+    tau_hat_train <- tau_hat_train[,keep_indices,drop=FALSE]
+    y_hat_train <- y_hat_train[,keep_indices,drop=FALSE]
     if (has_rfx) {
-        rfx_preds_train <- rfx_preds_train[,keep_indices]
+        rfx_preds_train <- rfx_preds_train[,keep_indices,drop=FALSE]
     }
     if (has_test) {
-        mu_hat_test <- mu_hat_test[,keep_indices]
-        tau_hat_test <- tau_hat_test[,keep_indices]
-        y_hat_test <- y_hat_test[,keep_indices]
+        mu_hat_test <- mu_hat_test[,keep_indices,drop=FALSE]
+        tau_hat_test <- tau_hat_test[,keep_indices,drop=FALSE]
+        y_hat_test <- y_hat_test[,keep_indices,drop=FALSE]
         if (has_rfx_test) {
-            rfx_preds_test <- rfx_preds_test[,keep_indices]
+            rfx_preds_test <- rfx_preds_test[,keep_indices,drop=FALSE]
         }
     }
     
@@ -1001,10 +1001,10 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     # Restrict predictions to the "retained" samples (if applicable)
     if (!predict_all) {
         keep_indices = bcf$keep_indices
-        mu_hat_test <- mu_hat_test[,keep_indices]
-        tau_hat_test <- tau_hat_test[,keep_indices]
-        y_hat_test <- y_hat_test[,keep_indices]
-        if (bcf$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices]
+        mu_hat_test <- mu_hat_test[,keep_indices,drop=FALSE]
+        tau_hat_test <- tau_hat_test[,keep_indices,drop=FALSE]
+        y_hat_test <- y_hat_test[,keep_indices,drop=FALSE]
+        if (bcf$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices,drop=FALSE]
     }
     
     if (bcf$model_params$has_rfx) {
-- 
2.43.0


From e9d74fc571c87f8fec21e52502161a4760000986 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 64/80] fix: bcf uses the requested quantile q

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 1ae7492..57efd2f 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -413,7 +413,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Calibrate priors for global sigma^2 and sigma_leaf_mu / sigma_leaf_tau
     reg_basis <- X_train
     sigma2hat <- mean(resid(lm(resid_train~reg_basis))^2)
-    quantile_cutoff <- 0.9
+    quantile_cutoff <- q
     if (is.null(lambda)) {
         lambda <- (sigma2hat*qgamma(1-quantile_cutoff,nu))/nu
     }
-- 
2.43.0


From d9d0f5746f41f860e3c48e214f8ba7d33c3613aa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 65/80] fix: predict.bcf on one-hot encoded data frames

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 57efd2f..820fe7f 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -792,7 +792,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         "b_leaf_tau" = b_leaf_tau,
         "outcome_mean" = y_bar_train,
         "outcome_scale" = y_std_train, 
-        "num_covariates" = num_cov_orig,
+        "num_covariates" = length(original_var_indices),
         "num_prognostic_covariates" = sum(variable_weights_mu > 0),
         "num_treatment_covariates" = sum(variable_weights_tau > 0),
         "treatment_dim" = ncol(Z_train), 
-- 
2.43.0


From 24718771112e3bc315184bc2ae82fd7e32b0f3f3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 66/80] fix: predict.bcf without a propensity covariate

---
 R/bcf.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index 820fe7f..fd86c5d 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -972,6 +972,9 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     } else if (bcf$model_params$propensity_covariate == "tau") {
         X_test_mu <- X_test
         X_test_tau <- cbind(X_test, pi_test)
+    } else {
+        X_test_mu <- X_test
+        X_test_tau <- X_test
     }
     
     # Create prediction datasets
-- 
2.43.0


From b8769a14fab2a4c7ceb77c3eda79506aac82ff89 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:35:15 +0000
Subject: [PATCH 67/80] fix: bcf residual follows the sampled treatment coding

---
 R/bcf.R | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index fd86c5d..2a06620 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -574,7 +574,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                 
                 # Update basis for the leaf regression
                 tau_basis_train <- (1-Z_train)*current_b_0 + Z_train*current_b_1
+                # and move the residual from the old to the new fit of the treatment forest
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, T)
                 forest_dataset_train$update_basis(tau_basis_train)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, F)
                 b_0_samples[i] <- current_b_0
                 b_1_samples[i] <- current_b_1
                 if (has_test) {
@@ -582,7 +585,6 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                     forest_dataset_test$update_basis(tau_basis_test)
                 }
                 
-                # TODO Update leaf predictions and residual
             }
             
             # Sample variance parameters (if requested)
@@ -672,7 +674,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                 
                 # Update basis for the leaf regression
                 tau_basis_train <- (1-Z_train)*current_b_0 + Z_train*current_b_1
+                # and move the residual from the old to the new fit of the treatment forest
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, T)
                 forest_dataset_train$update_basis(tau_basis_train)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, F)
                 b_0_samples[i] <- current_b_0
                 b_1_samples[i] <- current_b_1
                 if (has_test) {
@@ -680,8 +685,6 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                     forest_dataset_test$update_basis(tau_basis_test)
                 }
                 
-                # TODO Update leaf predictions and residual
-                
             }
             
             # Sample variance parameters (if requested)
-- 
2.43.0


From c4b4fa69f5481b96ae40285e9d99bf8888e2f546 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:35:15 +0000
Subject: [PATCH 68/80] fix: bcf fits include the whole sampled treatment
 coding

---
 R/bcf.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index 2a06620..cef860d 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -708,6 +708,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     mu_hat_train <- forest_samples_mu$predict(forest_dataset_train)*y_std_train + y_bar_train
     if (adaptive_coding) {
         tau_hat_train_raw <- forest_samples_tau$predict_raw(forest_dataset_train)
+        # Outcome model is mu(X) + [b_0 (1-Z) + b_1 Z] tau(X), so that b_0 tau(X) is part of the prognostic term
+        mu_hat_train <- mu_hat_train + t(t(tau_hat_train_raw) * b_0_samples)*y_std_train
         tau_hat_train <- t(t(tau_hat_train_raw) * (b_1_samples - b_0_samples))*y_std_train
     } else {
         tau_hat_train <- forest_samples_tau$predict_raw(forest_dataset_train)*y_std_train
@@ -717,6 +719,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         mu_hat_test <- forest_samples_mu$predict(forest_dataset_test)*y_std_train + y_bar_train
         if (adaptive_coding) {
             tau_hat_test_raw <- forest_samples_tau$predict_raw(forest_dataset_test)
+            mu_hat_test <- mu_hat_test + t(t(tau_hat_test_raw) * b_0_samples)*y_std_train
             tau_hat_test <- t(t(tau_hat_test_raw) * (b_1_samples - b_0_samples))*y_std_train
         } else {
             tau_hat_test <- forest_samples_tau$predict_raw(forest_dataset_test)*y_std_train
@@ -990,6 +993,7 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     mu_hat_test <- bcf$forests_mu$predict(prediction_dataset_mu)*y_std + y_bar
     if (bcf$model_params$adaptive_coding) {
         tau_hat_test_raw <- bcf$forests_tau$predict_raw(prediction_dataset_tau)
+        mu_hat_test <- mu_hat_test + t(t(tau_hat_test_raw) * bcf$b_0_samples)*y_std
         tau_hat_test <- t(t(tau_hat_test_raw) * (bcf$b_1_samples - bcf$b_0_samples))*y_std
     } else {
         tau_hat_test <- bcf$forests_tau$predict_raw(prediction_dataset_tau)*y_std
-- 
2.43.0


From e7ccac694484ef766c97f958009856ef52cd31a9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:36:20 +0000
Subject: [PATCH 69/80] fix: predict.bcf uses the propensities estimated by bcf

---
 R/bcf.R | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index cef860d..f6e1132 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -369,8 +369,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     
     # Estimate if pre-estimated propensity score is not provided
+    internal_propensity_model <- F
     if ((is.null(pi_train)) && (propensity_covariate != "none")) {
         # Estimate using the last of several iterations of GFR BART
+        internal_propensity_model <- T
         propensity_burnin <- 10
         propensity_total <- 50
         bart_model_propensity <- bart(X_train = X_train_raw, y_train = as.numeric(Z_train), X_test = X_test_raw, 
@@ -845,6 +847,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         result[["rfx_unique_group_ids"]] = levels(group_ids_factor)
     }
     if ((has_rfx_test) && (has_test)) result[["rfx_preds_test"]] = rfx_preds_test
+    if (internal_propensity_model) {
+        result[["bart_propensity_model"]] = bart_model_propensity
+        result[["propensity_indices"]] = propensity_indices
+    }
     class(result) <- "bcf"
     
     return(result)
@@ -917,6 +923,10 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     if ((!is.data.frame(X_test)) && (!is.matrix(X_test))) {
         stop("X_test must be a matrix or dataframe")
     }
+    # Use the propensity model that was estimated with the BCF model, if there is one
+    if ((is.null(pi_test)) && (!is.null(bcf$bart_propensity_model))) {
+        pi_test <- rowMeans(predict(bcf$bart_propensity_model, X_test)$y_hat[,bcf$propensity_indices,drop=FALSE])
+    }
     train_set_metadata <- bcf$train_set_metadata
     X_test <- preprocessPredictionData(X_test, train_set_metadata)
     
-- 
2.43.0


From 53f4ceedff80963c2eea450a98bdfa7d3a689b7c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 70/80] fix: convert integer and logical covariates to double
 before computing leaf indices and kernels in R

---
 R/kernel.R | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/R/kernel.R b/R/kernel.R
index 5b19908..e359213 100644
--- a/R/kernel.R
+++ b/R/kernel.R
@@ -39,6 +39,10 @@ ForestKernel <- R6::R6Class(
                 covariates_test <- as.matrix(covariates_test)
             }
             
+            # The C++ functions read matrices of doubles
+            if (!is.double(covariates_train)) storage.mode(covariates_train) <- "double"
+            if ((!is.null(covariates_test)) && (!is.double(covariates_test))) storage.mode(covariates_test) <- "double"
+            
             # Compute the leaf indices
             result = list()
             if (is.null(covariates_test)) {
@@ -81,6 +85,10 @@ ForestKernel <- R6::R6Class(
                 covariates_test <- as.matrix(covariates_test)
             }
             
+            # The C++ functions read matrices of doubles
+            if (!is.double(covariates_train)) storage.mode(covariates_train) <- "double"
+            if ((!is.null(covariates_test)) && (!is.double(covariates_test))) storage.mode(covariates_test) <- "double"
+            
             # Compute the kernels
             num_trees <- forest_container$num_trees()
             n_train = nrow(covariates_train)
-- 
2.43.0


From fd6a855303ec1cbf421a5a7d25db6db0b2502c11 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 71/80] fix: computeForestKernels accepts a missing X_test

---
 R/kernel.R | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/R/kernel.R b/R/kernel.R
index e359213..903bfb3 100644
--- a/R/kernel.R
+++ b/R/kernel.R
@@ -156,16 +156,16 @@ computeForestKernels <- function(bart_model, X_train, X_test=NULL, forest_num=NU
     if (!is.data.frame(X_train)) {
         stop("X_train must be a dataframe")
     }
-    if (!is.data.frame(X_test)) {
+    if ((!is.null(X_test)) && (!is.data.frame(X_test))) {
         stop("X_test must be a dataframe")
     }
     train_set_metadata <- bart_model$train_set_metadata
     X_train <- preprocessPredictionDataFrame(X_train, train_set_metadata)
-    X_test <- preprocessPredictionDataFrame(X_test, train_set_metadata)
+    if (!is.null(X_test)) X_test <- preprocessPredictionDataFrame(X_test, train_set_metadata)
     
     # Data checks
     stopifnot(bart_model$model_params$num_covariates == ncol(X_train))
-    stopifnot(bart_model$model_params$num_covariates == ncol(X_test))
+    if (!is.null(X_test)) stopifnot(bart_model$model_params$num_covariates == ncol(X_test))
 
     # Initialize and compute kernel
     forest_kernel <- createForestKernel()
-- 
2.43.0


From 11f44427a180efc73e54b4c4369738bbd2e542b5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 72/80] fix: computeForestLeafIndices encodes data frames like
 the model's training covariates

---
 R/kernel.R | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/R/kernel.R b/R/kernel.R
index 903bfb3..5edec8b 100644
--- a/R/kernel.R
+++ b/R/kernel.R
@@ -209,6 +209,12 @@ computeForestKernels <- function(bart_model, X_train, X_test=NULL, forest_num=NU
 #' @export
 computeForestLeafIndices <- function(bart_model, X_train, X_test=NULL, forest_num=NULL) {
     stopifnot(class(bart_model)=="bartmodel")
+    
+    # Encode dataframes as the model's training covariates were encoded
+    train_set_metadata <- bart_model$train_set_metadata
+    if (is.data.frame(X_train)) X_train <- preprocessPredictionDataFrame(X_train, train_set_metadata)
+    if (is.data.frame(X_test)) X_test <- preprocessPredictionDataFrame(X_test, train_set_metadata)
+    
     forest_kernel <- createForestKernel()
     num_samples <- bart_model$model_params$num_samples
     stopifnot(forest_num <= num_samples)
-- 
2.43.0


From 47293b297e8d148487b7c8986f9994595d62aefa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 73/80] fix: loadScalarJson reads a scalar

---
 R/serialization.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/serialization.R b/R/serialization.R
index eda655f..ead94f2 100644
--- a/R/serialization.R
+++ b/R/serialization.R
@@ -350,9 +350,9 @@ loadVectorJson <- function(json_object, json_vector_label, subfolder_name = NULL
 #' @export
 loadScalarJson <- function(json_object, json_scalar_label, subfolder_name = NULL) {
     if (is.null(subfolder_name)) {
-        output <- json_object$get_vector(json_scalar_label, subfolder_name)
+        output <- json_object$get_scalar(json_scalar_label, subfolder_name)
     } else {
-        output <- json_object$get_vector(json_scalar_label, subfolder_name)
+        output <- json_object$get_scalar(json_scalar_label, subfolder_name)
     }
     return(output)
 }
-- 
2.43.0


From 2e40003e9b42d20aa89030f8c35aa1882d4b6194 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 74/80] fix: store and read empty lists in CppJson

---
 R/serialization.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/serialization.R b/R/serialization.R
index ead94f2..3af1730 100644
--- a/R/serialization.R
+++ b/R/serialization.R
@@ -146,7 +146,7 @@ CppJson <- R6::R6Class(
         add_list = function(field_name, field_list) {
             stopifnot(sum(!sapply(field_list, is.vector))==0)
             list_names <- names(field_list)
-            for (i in 1:length(field_list)) {
+            for (i in seq_along(field_list)) {
                 vec_name <- list_names[i]
                 vec <- field_list[[i]]
                 json_add_vector_subfolder_cpp(self$json_ptr, field_name, vec_name, vec)
@@ -161,7 +161,7 @@ CppJson <- R6::R6Class(
         add_string_list = function(field_name, field_list) {
             stopifnot(sum(!sapply(field_list, is.vector))==0)
             list_names <- names(field_list)
-            for (i in 1:length(field_list)) {
+            for (i in seq_along(field_list)) {
                 vec_name <- list_names[i]
                 vec <- field_list[[i]]
                 json_add_string_vector_subfolder_cpp(self$json_ptr, field_name, vec_name, vec)
@@ -255,7 +255,7 @@ CppJson <- R6::R6Class(
         #' @return NULL
         get_numeric_list = function(field_name, key_names) {
             output <- list()
-            for (i in 1:length(key_names)) {
+            for (i in seq_along(key_names)) {
                 vec_name <- key_names[i]
                 output[[vec_name]] <- json_extract_vector_subfolder_cpp(self$json_ptr, field_name, vec_name)
             }
@@ -269,7 +269,7 @@ CppJson <- R6::R6Class(
         #' @return NULL
         get_string_list = function(field_name, key_names) {
             output <- list()
-            for (i in 1:length(key_names)) {
+            for (i in seq_along(key_names)) {
                 vec_name <- key_names[i]
                 output[[vec_name]] <- json_extract_string_vector_subfolder_cpp(self$json_ptr, field_name, vec_name)
             }
-- 
2.43.0


From 362246003d4f6b34796945ec2ddcef34fa9cb6ad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 75/80] fix: BARTModel.predict rejects the wrong number of
 covariate columns

---
 stochtree/bart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index e45b294..45ff8e1 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -347,6 +347,8 @@ class BARTModel:
                 basis = np.expand_dims(basis, 1)
         
         # Data checks
+        if covariates.shape[1] != self.num_covariates:
+            raise ValueError("covariates must have the same number of columns as the covariates used to train the model")
         if basis is not None:
             if basis.shape[0] != covariates.shape[0]:
                 raise ValueError("covariates and basis must have the same number of rows")
-- 
2.43.0


From b52092208ed9a00e5767f55472b499ea50f15508 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 76/80] fix: sample() rejects test covariates without their
 basis, treatment or propensities up front

---
 stochtree/bart.py | 2 ++
 stochtree/bcf.py  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 45ff8e1..c0f2237 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -139,6 +139,8 @@ class BARTModel:
                 raise ValueError("basis_train and Z_train must have the same number of rows")
         if y_train.shape[0] != X_train.shape[0]:
             raise ValueError("X_train and y_train must have the same number of rows")
+        if X_test is not None and basis_train is not None and basis_test is None:
+            raise ValueError("basis_test must be provided along with X_test when basis_train is provided")
         if X_test is not None and basis_test is not None:
             if X_test.shape[0] != basis_test.shape[0]:
                 raise ValueError("X_test and basis_test must have the same number of rows")
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 510b9cf..c640525 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -224,6 +224,10 @@ class BCFModel:
         if pi_train is not None:
             if pi_train.shape[0] != X_train.shape[0]:
                 raise ValueError("X_train and pi_train must have the same number of rows")
+        if X_test is not None and Z_test is None:
+            raise ValueError("Z_test must be provided along with X_test")
+        if X_test is not None and pi_train is not None and pi_test is None and propensity_covariate != "none":
+            raise ValueError("pi_test must be provided along with X_test when pi_train is provided")
         if X_test is not None and Z_test is not None:
             if X_test.shape[0] != Z_test.shape[0]:
                 raise ValueError("X_test and Z_test must have the same number of rows")
-- 
2.43.0


From 067e395b36f2b4ff6155fbd0765fb6f3a74b59f4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 77/80] fix: BARTModel.sample rejects a request for no draws
 before touching the model

---
 stochtree/bart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index c0f2237..afef49a 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -144,6 +144,8 @@ class BARTModel:
         if X_test is not None and basis_test is not None:
             if X_test.shape[0] != basis_test.shape[0]:
                 raise ValueError("X_test and basis_test must have the same number of rows")
+        if num_gfr + num_burnin + num_mcmc <= 0:
+            raise RuntimeError("There are no samples to retain!")
         
         # Covariate preprocessing
         self._covariate_transformer = CovariateTransformer()
-- 
2.43.0


From f8adcdedb4e45f8d29b72b862055bb52440d4695 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 78/80] fix: BCFModel.predict and predict_tau reject the wrong
 number of X or Z columns

---
 stochtree/bcf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index c640525..5ee4747 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -852,6 +852,10 @@ class BCFModel:
                 propensity = np.expand_dims(propensity, 1)
         
         # Data checks
+        if X.shape[1] != self.p_x:
+            raise ValueError("X must have the same number of columns as the covariates used to train the model")
+        if Z.shape[1] != self.treatment_dim:
+            raise ValueError("Z must have the same number of columns as the treatment used to train the model")
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
         if propensity is not None:
@@ -926,6 +930,10 @@ class BCFModel:
                 propensity = np.expand_dims(propensity, 1)
         
         # Data checks
+        if X.shape[1] != self.p_x:
+            raise ValueError("X must have the same number of columns as the covariates used to train the model")
+        if Z.shape[1] != self.treatment_dim:
+            raise ValueError("Z must have the same number of columns as the treatment used to train the model")
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
         if propensity is not None:
-- 
2.43.0


From 2888b5e773b4dd57eec8863f746f0e1b8bf5feca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 79/80] fix: predict.bcf rejects Z_test and pi_test that
 disagree with the training data or X_test

---
 R/bcf.R | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index f6e1132..2c42d3f 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -948,6 +948,12 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     if (nrow(X_test) != nrow(Z_test)) {
         stop("X_test and Z_test must have the same number of rows")
     }
+    if (bcf$forests_tau$output_dimension() != ncol(Z_test)) {
+        stop("Z_test must have the same number of columns as the treatment used to train the model")
+    }
+    if ((!is.null(pi_test)) && (nrow(X_test) != nrow(pi_test))) {
+        stop("X_test and pi_test must have the same number of rows")
+    }
     if (bcf$model_params$num_covariates != ncol(X_test)) {
         stop("X_test and must have the same number of columns as the covariates used to train the model")
     }
-- 
2.43.0


From 45133996d1f0f9949d51d7d2c4b9847c4a2e1083 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 80/80] fix: bcf and predict.bcf reject treatments that are not
 numeric or have several columns

---
 R/bcf.R | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index 2c42d3f..b6f2647 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -219,6 +219,14 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     X_test_raw <- X_test
     if (!is.null(X_test)) X_test <- preprocessPredictionData(X_test, X_train_metadata)
     
+    # Check that treatment is numeric before it is converted
+    if (!(is.numeric(Z_train) || is.logical(Z_train))) stop("Z_train must be numeric")
+    if (NCOL(Z_train) > 1) stop("Z_train must be a vector or have a single column")
+    if (!is.null(Z_test)) {
+        if (!(is.numeric(Z_test) || is.logical(Z_test))) stop("Z_test must be numeric")
+        if (NCOL(Z_test) > 1) stop("Z_test must be a vector or have a single column")
+    }
+    
     # Convert all input data to matrices if not already converted
     if ((is.null(dim(Z_train))) && (!is.null(Z_train))) {
         Z_train <- as.matrix(as.numeric(Z_train))
@@ -930,6 +938,10 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     train_set_metadata <- bcf$train_set_metadata
     X_test <- preprocessPredictionData(X_test, train_set_metadata)
     
+    # Check that treatment is numeric before it is converted
+    if (!(is.numeric(Z_test) || is.logical(Z_test))) stop("Z_test must be numeric")
+    if (NCOL(Z_test) > 1) stop("Z_test must be a vector or have a single column")
+    
     # Convert all input data to matrices if not already converted
     if ((is.null(dim(Z_test))) && (!is.null(Z_test))) {
         Z_test <- as.matrix(as.numeric(Z_test))
-- 
2.43.0

