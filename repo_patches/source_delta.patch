From 52c02aebebf95d7c8a0faa92edb7b0d5d0dcf170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 01/13] fix: clear the deleted-node list when a tree is reset
 or initialised

---
 src/tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.cpp b/src/tree.cpp
index 68ac632..7800b2d 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -310,6 +310,7 @@ void Tree::Reset() {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
 
   // Set bool / integer variables to default values
   num_nodes = 0;
@@ -343,6 +344,8 @@ void Tree::Init(std::int32_t output_dimension) {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
+  num_deleted_nodes = 0;
 
   // Set output dimension
   output_dimension_ = output_dimension;
-- 
2.43.0


From 2b1de171c5c68501929f5317919d6357e43b6c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 02/13] fix: keep the deleted-node count when a tree is loaded
 from JSON

---
 src/tree.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tree.cpp b/src/tree.cpp
index 7800b2d..b1ce813 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -648,7 +648,6 @@ void Tree::from_json(const json& tree_json) {
   tree_json.at("num_deleted_nodes").get_to(this->num_deleted_nodes);
   tree_json.at("has_categorical_split").get_to(this->has_categorical_split_);
   tree_json.at("output_dimension").get_to(this->output_dimension_);
-  this->num_deleted_nodes = 0;
   
   // Unpack the array based fields
   JsonToTreeNodeVectors(tree_json, this);
-- 
2.43.0


From 5141ef5170830be364eae39719dda3a0be27a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 03/13] fix: write in-place tree predictions to the caller's
 vector

---
 include/stochtree/tree.h | 2 +-
 src/tree.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree.h b/include/stochtree/tree.h
index bbacd56..fc22431 100644
--- a/include/stochtree/tree.h
+++ b/include/stochtree/tree.h
@@ -223,7 +223,7 @@ class Tree {
   /*! \brief Predict a tree based on node membership indices
    * TODO: generalize to vector leaves
    */
-  void InplacePredictFromNodes(std::vector<double> result, std::vector<std::int32_t> node_indices);
+  void InplacePredictFromNodes(std::vector<double>& result, std::vector<std::int32_t> node_indices);
   std::vector<double> PredictFromNodes(std::vector<std::int32_t> node_indices);
   std::vector<double> PredictFromNodes(std::vector<std::int32_t> node_indices, Eigen::MatrixXd& basis);
   double PredictFromNode(std::int32_t node_id);
diff --git a/src/tree.cpp b/src/tree.cpp
index b1ce813..3fc4cef 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -38,7 +38,7 @@ std::int32_t Tree::NumSplitNodes() const {
   return splits;
 }
 
-void Tree::InplacePredictFromNodes(std::vector<double> result, std::vector<std::int32_t> node_indices) {
+void Tree::InplacePredictFromNodes(std::vector<double>& result, std::vector<std::int32_t> node_indices) {
   if (result.size() != node_indices.size()) {
     Log::Fatal("Indices and result vector are different sizes");
   }
-- 
2.43.0


From ffa34734b4a128b991fe1bb2ea738990291ecbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 04/13] fix: store the category passed to
 SampleCategoryMapper::SetCategoryId

---
 include/stochtree/category_tracker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 04ee0b0..0b63751 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -64,7 +64,7 @@ class SampleCategoryMapper {
 
   inline void SetCategoryId(data_size_t sample_id, int category_id) {
     CHECK_LT(sample_id, num_observations_);
-    observation_indices_[sample_id] = sample_id;
+    observation_indices_[sample_id] = category_id;
   }
   
   inline int NumObservations() {return num_observations_;}
-- 
2.43.0


From ac6b3244122331d39feeb08de275e8fb90130c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 05/13] fix: record the size of the last category when it has a
 single observation

---
 include/stochtree/category_tracker.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 0b63751..2e75879 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -106,11 +106,13 @@ class CategorySampleTracker {
         }
         observation_count = 1;
         category_count_++;
-      } else if (end_cond) {
-        category_length_.push_back(observation_count+1);
       } else {
         observation_count++;
       }
+      // The last observation closes the last category (which may contain only that observation)
+      if (end_cond) {
+        category_length_.push_back(observation_count);
+      }
       // Add the index to the category's node index vector in either case
       node_index_vector_[category_count_ - 1].emplace_back(indices_[i]);
     }
-- 
2.43.0


From 3fe727f10a417aaff2fcc61a228b13ffa254445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 06/13] fix: compute feature ranges correctly for negative
 values and for the first observation

---
 include/stochtree/tree_sampler.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index e9ef65d..4695edf 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -22,7 +22,7 @@ namespace StochTree {
 
 static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset, int tree_num, int leaf_split, int feature_split, double& var_min, double& var_max) {
   var_min = std::numeric_limits<double>::max();
-  var_max = std::numeric_limits<double>::min();
+  var_max = std::numeric_limits<double>::lowest();
   double feature_value;
   
   std::vector<data_size_t>::iterator node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
@@ -33,7 +33,8 @@ static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset,
     feature_value = dataset.CovariateValue(idx, feature_split);
     if (feature_value < var_min) {
       var_min = feature_value;
-    } else if (feature_value > var_max) {
+    }
+    if (feature_value > var_max) {
       var_max = feature_value;
     }
   }
@@ -52,9 +53,9 @@ static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTrac
   for (int j = 0; j < p; j++) {
     auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
     auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, leaf_split);
-    var_max_left = std::numeric_limits<double>::min();
+    var_max_left = std::numeric_limits<double>::lowest();
     var_min_left = std::numeric_limits<double>::max();
-    var_max_right = std::numeric_limits<double>::min();
+    var_max_right = std::numeric_limits<double>::lowest();
     var_min_right = std::numeric_limits<double>::max();
 
     for (auto i = node_begin_iter; i != node_end_iter; i++) {
@@ -64,13 +65,15 @@ static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTrac
       if (split.SplitTrue(split_feature_value)) {
         if (var_max_left < feature_value) {
           var_max_left = feature_value;
-        } else if (var_min_left > feature_value) {
+        }
+        if (var_min_left > feature_value) {
           var_min_left = feature_value;
         }
       } else {
         if (var_max_right < feature_value) {
           var_max_right = feature_value;
-        } else if (var_min_right > feature_value) {
+        }
+        if (var_min_right > feature_value) {
           var_min_right = feature_value;
         }
       }
@@ -92,7 +95,7 @@ static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracke
   for (int j = 0; j < p; j++) {
     auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, node_id);
     auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, node_id);
-    var_max = std::numeric_limits<double>::min();
+    var_max = std::numeric_limits<double>::lowest();
     var_min = std::numeric_limits<double>::max();
 
     for (auto i = node_begin_iter; i != node_end_iter; i++) {
@@ -100,7 +103,8 @@ static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracke
       feature_value = dataset.CovariateValue(idx, j);
       if (var_max < feature_value) {
         var_max = feature_value;
-      } else if (var_min > feature_value) {
+      }
+      if (var_min > feature_value) {
         var_min = feature_value;
       }
     }
-- 
2.43.0


From 8b5b293f808c35f7c0203d00310bb8a08cfc05c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 07/13] fix: do not carry predictions over between trees and
 observations when updating the residual with a whole forest

---
 include/stochtree/tree_sampler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 4695edf..ee2b737 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -161,13 +161,14 @@ static inline void UpdateResidualEntireForest(ForestTracker& tracker, ForestData
   double new_resid = 0.;
   int32_t leaf_pred;
   for (data_size_t i = 0; i < n; i++) {
+    pred_value = 0.;
     for (int j = 0; j < forest->NumTrees(); j++) {
       Tree* tree = forest->GetTree(j);
       leaf_pred = tracker.GetNodeId(i, j);
       if (requires_basis) {
-        tree_pred += tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
+        tree_pred = tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
       } else {
-        tree_pred += tree->PredictFromNode(leaf_pred);
+        tree_pred = tree->PredictFromNode(leaf_pred);
       }
       tracker.SetTreeSamplePrediction(i, j, tree_pred);
       pred_value += tree_pred;
-- 
2.43.0


From 59066ef968bd9fca9c0a97a7601e86e21d42f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 08/13] fix: use the conjugate inverse gamma posterior when
 sampling variance parameters

---
 include/stochtree/variance_model.h | 8 ++++----
 src/random_effects.cpp             | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stochtree/variance_model.h b/include/stochtree/variance_model.h
index 53140dd..67da94c 100644
--- a/include/stochtree/variance_model.h
+++ b/include/stochtree/variance_model.h
@@ -26,7 +26,7 @@ class GlobalHomoskedasticVarianceModel {
   ~GlobalHomoskedasticVarianceModel() {}
   double PosteriorShape(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
-    return (nu/2.0) + n;
+    return (nu/2.0) + (n/2.0);
   }
   double PosteriorScale(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
@@ -35,7 +35,7 @@ class GlobalHomoskedasticVarianceModel {
     for (data_size_t i = 0; i < n; i++) {
       sum_sq_resid += std::pow(residuals(i, 0), 2);
     }
-    return (nu_lambda/2.0) + sum_sq_resid;
+    return (nu_lambda/2.0) + (sum_sq_resid/2.0);
   }
   double SampleVarianceParameter(Eigen::VectorXd& residuals, double nu, double lambda, std::mt19937& gen) {
     double ig_shape = PosteriorShape(residuals, nu, lambda);
@@ -54,11 +54,11 @@ class LeafNodeHomoskedasticVarianceModel {
   ~LeafNodeHomoskedasticVarianceModel() {}
   double PosteriorShape(TreeEnsemble* ensemble, double a, double b) {
     data_size_t num_leaves = ensemble->NumLeaves();
-    return (a/2.0) + num_leaves;
+    return (a/2.0) + (num_leaves/2.0);
   }
   double PosteriorScale(TreeEnsemble* ensemble, double a, double b) {
     double mu_sq = ensemble->SumLeafSquared();
-    return (b/2.0) + mu_sq;
+    return (b/2.0) + (mu_sq/2.0);
   }
   double SampleVarianceParameter(TreeEnsemble* ensemble, double a, double b, std::mt19937& gen) {
     double ig_shape = PosteriorShape(ensemble, a, b);
diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 19108d4..0f7f743 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -165,7 +165,7 @@ Eigen::MatrixXd MultivariateRegressionRandomEffectsModel::GroupParameterVariance
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentShape(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
-  return static_cast<double>(variance_prior_shape_ + num_groups_);
+  return variance_prior_shape_ + (num_groups_/2.0);
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
@@ -173,7 +173,7 @@ double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEf
   Eigen::MatrixXd xi = group_parameters_;
   double output = variance_prior_scale_;
   for (int i = 0; i < num_groups; i++) {
-    output += xi(component_id, i)*xi(component_id, i);
+    output += xi(component_id, i)*xi(component_id, i)/2.0;
   }
   return output;
 }
-- 
2.43.0


From ef5725aefda4f383b90bc635b64b7edc50eb0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 09/13] fix: accumulate exactly the observations of a cutpoint
 bin

---
 src/leaf_model.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/leaf_model.cpp b/src/leaf_model.cpp
index c3d54cd..787e8d7 100644
--- a/src/leaf_model.cpp
+++ b/src/leaf_model.cpp
@@ -81,12 +81,11 @@ void AccumulateCutpointBinSuffStat(SuffStatType& left_suff_stat, ForestTracker&
   // Determine cutpoint bin start and end points
   data_size_t current_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num, feature_num);
   data_size_t current_bin_size = cutpoint_grid_container.BinLength(cutpoint_num, feature_num);
-  data_size_t next_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num + 1, feature_num);
 
   // Cutpoint specific iterators
   // TODO: fix the hack of having to subtract off node_begin, probably by cleaning up the CutpointGridContainer interface
   auto cutpoint_begin_iter = node_begin_iter + current_bin_begin - node_begin;
-  auto cutpoint_end_iter = node_begin_iter + next_bin_begin - node_begin;
+  auto cutpoint_end_iter = cutpoint_begin_iter + current_bin_size;
 
   // Accumulate sufficient statistics
   for (auto i = cutpoint_begin_iter; i != cutpoint_end_iter; i++) {
-- 
2.43.0


From 62bf8808185ec670eb445e17257715cb23d4c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 10/13] fix: keep the thinned numeric cutpoint grid within its
 size and close bins that end on tied values

---
 src/cutpoint_candidates.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cutpoint_candidates.cpp b/src/cutpoint_candidates.cpp
index 4a0845c..3521306 100644
--- a/src/cutpoint_candidates.cpp
+++ b/src/cutpoint_candidates.cpp
@@ -286,7 +286,8 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
   bool last_element;
   bool stride_complete;
   bool bin_complete;
-  double step_size = node_size / cutpoint_grid_size_;
+  // Smallest bin size for which no more than cutpoint_grid_size_ bins are needed (i.e. round up)
+  data_size_t step_size = (node_size + cutpoint_grid_size_ - 1) / cutpoint_grid_size_;
   double current_val, next_val;
   for (data_size_t i = node_begin; i < node_end; i++){
     current_sort_ind = feature_node_sort_tracker->SortIndex(i, feature_index);
@@ -304,7 +305,7 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
     } else {
       next_sort_ind = feature_node_sort_tracker->SortIndex(i + 1, feature_index);
       next_val = covariates(next_sort_ind, feature_index);
-      bin_complete = ((stride_length <= step_size) && ((stride_length + 1) > step_size));
+      bin_complete = (stride_length >= step_size);
       stride_complete = ((bin_complete) && (std::fabs(next_val - current_val) > StochTree::kEpsilon));
       if (stride_complete) {
         // Update bin vectors
-- 
2.43.0


From 09f67f29198fc1de9201e126b2a00abaa82ace14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 11/13] fix: require the same number of rows when a forest
 basis is updated

---
 include/stochtree/data.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stochtree/data.h b/include/stochtree/data.h
index 1d16e4f..bb86024 100644
--- a/include/stochtree/data.h
+++ b/include/stochtree/data.h
@@ -75,6 +75,7 @@ class ForestDataset {
   void UpdateBasis(double* data_ptr, data_size_t num_row, int num_col, bool is_row_major) {
     CHECK(has_basis_);
     CHECK_EQ(num_col, num_basis_);
+    CHECK_EQ(num_row, basis_.NumRows());
     // Copy data from R / Python process memory to Eigen matrix
     double temp_value;
     for (data_size_t i = 0; i < num_row; ++i) {
-- 
2.43.0


From 1ee15ed48a149cf78a63aa48abd8e5dcf8215534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 12/13] fix: LabelMapper forgets old labels when loaded and
 does not map unknown labels to the first group

---
 include/stochtree/random_effects.h | 2 +-
 src/random_effects.cpp             | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stochtree/random_effects.h b/include/stochtree/random_effects.h
index 7d7a65c..8502626 100644
--- a/include/stochtree/random_effects.h
+++ b/include/stochtree/random_effects.h
@@ -76,7 +76,7 @@ class LabelMapper {
     return pos != label_map_.end();
   }
   int32_t CategoryNumber(int32_t category_id) {
-    return label_map_[category_id];
+    return label_map_.at(category_id);
   }
   std::vector<int32_t>& Keys() {return keys_;}
   std::map<int32_t, int32_t>& Map() {return label_map_;}
diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 0f7f743..4e53c28 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -31,6 +31,7 @@ void LabelMapper::from_json(const nlohmann::json& rfx_label_mapper_json) {
   int num_keys = rfx_label_mapper_json.at("keys").size();
   int num_values = rfx_label_mapper_json.at("values").size();
   CHECK_EQ(num_keys, num_values);
+  Reset();
   for (int i = 0; i < num_keys; i++) {
     int32_t key = rfx_label_mapper_json.at("keys").at(i);
     int32_t value = rfx_label_mapper_json.at("values").at(i);
-- 
2.43.0


From 70853e90917f1128adf371c751f37d2c2f647597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 13/13] fix: never grow a tree with a split that leaves a leaf
 below the minimum sample size

---
 include/stochtree/tree_sampler.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index ee2b737..a50b27f 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -357,6 +357,11 @@ class MCMCForestSampler {
     int32_t left_n = std::get<2>(split_eval);
     int32_t right_n = std::get<3>(split_eval);
     
+    // Reject splits that leave too few observations in either child
+    if (left_n < tree_prior.GetMinSamplesLeaf() || right_n < tree_prior.GetMinSamplesLeaf()) {
+      return;
+    }
+    
     // Determine probability of growing the split node and its two new left and right nodes
     double pg = tree_prior.GetAlpha() * std::pow(1+leaf_depth, -tree_prior.GetBeta());
     double pgl = tree_prior.GetAlpha() * std::pow(1+leaf_depth+1, -tree_prior.GetBeta());
-- 
2.43.0

