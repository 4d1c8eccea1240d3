From 92a7a4fe132c33874bcf7260177a9666b3876993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 01/31] fix: a data store with empty columns accepts only empty
 columns

DataStore::Add skipped the row count check while the store had 0 rows, so a
0-row column followed by an n-row column left columns of different lengths.
---
 src/data_store/data_store.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 41c83e4..4d829f6 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -126,7 +126,7 @@ Status DataStore::Add(unique_ptr<Column>&& column) {
   if (it != column_map_.end()) {
     return Status(error::ALREADY_EXISTS, fmt::format("Column {0} already exists.", column->name()));
   }
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     return Status(error::OUT_OF_RANGE,
                   fmt::format("Row size consistency check failed for column {0} (old {1} vs. new {2})",
                               column->name(), num_rows(), column->size()));
-- 
2.43.0


From f4a99e2362bb204e853d8bead308700f69e06261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 02/31] fix: concurrent loads of one flatfile keep the column
 loaded first

Two threads which both missed a column loaded it twice, and the second load
freed the column whose address the first thread had already returned. Also apply
the row count check when the columns loaded so far are empty.
---
 src/data_store/flatfiles_data_store.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 49377b4..b36b95f 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -74,7 +74,12 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   }
 
   lock_guard<mutex> lock(mutex_);
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  // Another thread may have loaded the column in the meantime. Its address has been handed
+  // out, so it must stay.
+  if (column_map_.find(column_name) != column_map_.end()) {
+    return true;
+  }
+  if (!column_map_.empty() && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
     return false;
-- 
2.43.0


From e728159a0c42ac7f89518e4ed7dea84571206752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 03/31] fix: no division by zero when single values use up all
 buckets

BuildBuckets divided by num_buckets - (values in their own bucket + 1), which is 0
for e.g. 29999 distinct values and the default 30000 buckets.
---
 src/data_store/column.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index d865b9b..b6bc891 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -286,8 +286,9 @@ void BucketizedFloatColumn::BuildBuckets() {
     }
   }
   // Use uniform binning for the rest.
-  uint left_over_capacity =
-      max(static_cast<unsigned long>(1), left_over / (num_buckets_ - bucket_maxs_.size()));
+  // The values in their own buckets may have used up all num_buckets_.
+  int left_over_buckets = max(1, num_buckets_ - static_cast<int>(bucket_maxs_.size()));
+  uint left_over_capacity = max(1, left_over / left_over_buckets);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
   bucket_maxs_.push_back(numeric_limits<float>::max());
-- 
2.43.0


From 7263f904f824828f64063c559b8a8dac4cf22a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 04/31] fix: the threshold of a float split separates its two
 sides

The midpoint of two neighbouring floats can round to the lower one, and the sum of
two large floats overflows; every sample then went to the same child.
---
 src/gbdt_algo/split_algo.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b12899c..2642716 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -226,9 +226,13 @@ bool FindBestFloatSplit(const BucketizedFloatColumn& feature,
 
   // When left_point is NAN, it represents missing value. In this case, we set left_point to
   // be the minimum feature value - 1e-3.
-  split->mutable_float_split()->set_threshold(
-      isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
-      (left_limit + right_limit) / 2.0);
+  float threshold = isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
+                    (static_cast<double>(left_limit) + right_limit) / 2.0;
+  // Rounding to float must not put the left samples to the right of the threshold.
+  if (threshold <= left_limit) {
+    threshold = right_limit;
+  }
+  split->mutable_float_split()->set_threshold(threshold);
   return true;
 }
 
-- 
2.43.0


From 8ab93ff5ffbeb7e5cd20e85d6410ac2c89e81f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 05/31] fix: count buckets whose gradient or hessian alone sums
 to zero

Histogram dropped every bucket with g == 0 or h == 0, although Partition routes its
samples. Gain and min_hessian were then computed for a partition other than the
one which is made.
---
 src/gbdt_algo/split_algo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index 2642716..ea544c5 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -116,7 +116,7 @@ void Histogram::ComputeHistograms(const IntegerizedColumn& feature,
   }
 
   for (uint i = 0; i < max_int; ++i) {
-    if (histograms_[i].g != 0 && histograms_[i].h != 0) {
+    if (histograms_[i].g != 0 || histograms_[i].h != 0) {
       non_zero_values_.push_back(i);
     }
   }
-- 
2.43.0


From e5c8e55bbd95077bf09f58e0b8301e2ec1e9a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 06/31] fix: a TSV column requested twice is loaded once

The second request replaced the column in the map and left a dangling pointer to the
first one, which was then filled. The same name as two types is now an error.
---
 src/data_store/tsv_data_store.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 1e6f8f0..61af967 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -50,6 +50,18 @@ Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& colu
   return Status::OK;
 }
 
+// A column can be requested several times, e.g. as feature and as group, but only as one type.
+Status CheckDuplicate(const unordered_map<string, unique_ptr<Column>>& column_map,
+                      const string& header, Column::ColumnType type, bool* duplicate) {
+  auto it = column_map.find(header);
+  *duplicate = it != column_map.end();
+  if (*duplicate && it->second->type() != type) {
+    return Status(error::INVALID_ARGUMENT,
+                  fmt::format("Column {0} is requested as two different types.", header));
+  }
+  return Status::OK;
+}
+
 }  // namespace
 
 TSVDataStore::TSVDataStore(const vector<string>& tsvs, const Config& config) {
@@ -132,6 +144,8 @@ Status TSVDataStore::Finalize() {
 }
 
 Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config) {
+  Status status;
+  bool duplicate = false;
   // Read header from first tsv.
   if (!FileExists(first_tsv)) {
     return Status(error::NOT_FOUND, fmt::format("TSV {0} does not exit.", first_tsv));
@@ -151,6 +165,9 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}.", header, first_tsv));
     }
+    status = CheckDuplicate(column_map_, header, Column::kBucketizedFloatColumn, &duplicate);
+    if (!status.ok()) return status;
+    if (duplicate) continue;
     column_map_[header].reset(new BucketizedFloatColumn(header));
     bucketized_float_columns_.push_back(
         make_pair(static_cast<BucketizedFloatColumn*>(column_map_[header].get()),
@@ -173,6 +190,9 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}", header, first_tsv));
     }
+    status = CheckDuplicate(column_map_, header, Column::kRawFloatColumn, &duplicate);
+    if (!status.ok()) return status;
+    if (duplicate) continue;
     column_map_[header].reset(new RawFloatColumn(header));
     raw_float_columns_.push_back(
         make_pair(static_cast<RawFloatColumn*>(column_map_[header].get()),
@@ -190,6 +210,9 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
+    status = CheckDuplicate(column_map_, header, Column::kStringColumn, &duplicate);
+    if (!status.ok()) return status;
+    if (duplicate) continue;
     column_map_[header].reset(new StringColumn(header));
     string_columns_.push_back(
         make_pair(static_cast<StringColumn*>(column_map_[header].get()),
@@ -203,6 +226,9 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
+    status = CheckDuplicate(column_map_, header, Column::kStringColumn, &duplicate);
+    if (!status.ok()) return status;
+    if (duplicate) continue;
     column_map_[header].reset(new StringColumn(header));
     string_columns_.push_back(
         make_pair(static_cast<StringColumn*>(column_map_[header].get()),
-- 
2.43.0


From eabcd41e1053a991d04c1ddd19b6b567ce9c057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 07/31] fix: pairwise losses accept data without any pair

When all targets in every group are tied the sampling probability was infinite,
and a pair was drawn from a group without pairs.
---
 src/loss_func/loss_func_pairwise.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 3b63cdf..388a9af 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -40,6 +40,8 @@ double ComputePairSamplingProbability(int num_rows, double pair_sampling_rate,
   for (const auto& group : groups) {
     num_total_pairs += group.num_pairs();
   }
+  // Without any pair there is nothing to sample.
+  if (num_total_pairs == 0) return 0;
   return pair_sampling_rate * num_rows / num_total_pairs / 2.0;
 }
 
-- 
2.43.0


From de1ce069ebefee40d143cf30b106a3d7d5a92de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 08/31] fix: reject missing values in the group column

The id of a missing group is 0, which indexed groups[-1].
---
 src/loss_func/loss_func_pairwise.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 388a9af..f80fe85 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -75,6 +75,10 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     const auto& group_col = group_column->col();
     for (int i = 0; i < group_column->size(); ++i) {
       uint group_id = group_col[i];
+      if (group_col.missing(i)) {
+        return Status(error::INVALID_ARGUMENT,
+                      fmt::format("The group of row {0} is missing.", i));
+      }
       groups[group_id - 1].emplace_back(i);
     }
   }
-- 
2.43.0


From c5f2d203d5b23a1b048c55afdb341466a747f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 09/31] fix: threads no longer share the random generator of
 pairwise losses

All threads drew from one unprotected mt19937: a data race which made training
irreproducible for a fixed seed and could read past the end of its state.
---
 src/loss_func/loss_func_pairwise.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index f80fe85..dd5a007 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -116,13 +116,17 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   // Sample pairs and compute pairwise loss.
   vector<double> losses(slices_.size(), 0.0);
   vector<double> weight_sums(slices_.size(), 0.0);
+  // Each group samples from its own generator, so that threads don't share one and the result
+  // doesn't depend on their timing.
+  vector<uint> seeds(groups_.size());
+  for (auto& seed : seeds) seed = (*Subsampling::get_generator())();
   {
     ThreadPool pool(FLAGS_num_threads);
     for (int j = 0; j < slices_.size(); ++j) {
       pool.Enqueue([&, this, &slice=slices_[j], &loss=losses[j], &weight_sum=weight_sums[j]]() {
-          std::mt19937* generator = Subsampling::get_generator();
           for (int group_index = slice.first; group_index < slice.second; ++group_index) {
             auto& group = groups_[group_index];
+            std::mt19937 generator(seeds[group_index]);
             if (rerank_) group.Rerank(f);
 
             uint64 num_sample_pairs = group.num_pairs() * pair_sampling_probability_;
@@ -133,7 +137,7 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
                                              double(min_num_pairs_) / group.num_pairs() : 1.0;
             auto pair_weighting_func = PairWeightingFunc(group);
             for (int i = 0; i < num_sample_pairs; ++i) {
-              auto p = group.SamplePair(generator);
+              auto p = group.SamplePair(&generator);
               auto pos_sample = group[p.first];
               auto neg_sample = group[p.second];
               double weight = w_(pos_sample) * w_(neg_sample) * pair_weighting_func(p) *
-- 
2.43.0


From 593d07c04f7e21ecb0ec8c66f76169f8a650d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 10/31] fix: EvaluateForest accepts checkpoints in any order

A checkpoint listed after a larger one was dropped silently.
---
 src/gbdt_algo/evaluation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 451ac8e..6c48df6 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -59,6 +59,7 @@ Status EvaluateForest(DataStore* data_store,
                       const list<int>& test_points_arg,
                       const string& output_dir) {
   auto test_points = test_points_arg;
+  test_points.sort();
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
-- 
2.43.0


From 49041dd80dfdfa80bf9526428584bf51f06f0687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 11/31] fix: StringColumn rejects Add after Finalize

As BucketizedFloatColumn does. The rows were lost silently.
---
 src/data_store/column.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index b6bc891..6c47261 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -149,6 +149,10 @@ const string& StringColumn::get_row_string(uint i) const {
 
 void StringColumn::Add(const vector<string>* raw_strings) {
   if (!status_.ok()) return;
+  if (finalized_) {
+    status_ = Status(error::FAILED_PRECONDITION, "Cannot run Add after finalized.");
+    return;
+  }
   for (const auto& s : *raw_strings) {
     auto it = map_to_indices_.find(s);
     if (it == map_to_indices_.end()) {
-- 
2.43.0


From 05595b35244ba1964dc585e26428cf653d04c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 12/31] fix: forests whose splits do not fit the data are
 refused with an error

---
 src/gbdt_algo/evaluation.cc |  6 ++----
 src/gbdt_algo/gbdt_algo.cc  |  4 ++++
 src/gbdt_algo/utils.cc      | 29 +++++++++++++++++++++++++++++
 src/gbdt_algo/utils.h       |  3 +++
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 6c48df6..89f2964 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -60,8 +60,7 @@ Status EvaluateForest(DataStore* data_store,
                       const string& output_dir) {
   auto test_points = test_points_arg;
   test_points.sort();
-  auto feature_names = CollectAllFeatures(forest);
-  auto status = LoadFeatures(feature_names, data_store, nullptr);
+  auto status = LoadFeatures(forest, data_store);
   if (!status.ok()) return status;
   mkdir(output_dir.c_str(), 0744);
 
@@ -90,8 +89,7 @@ Status EvaluateForest(DataStore* data_store,
 Status EvaluateForest(DataStore* data_store,
                       const Forest& forest,
                       vector<double>* scores) {
-  auto feature_names = CollectAllFeatures(forest);
-  auto status = LoadFeatures(feature_names, data_store, nullptr);
+  auto status = LoadFeatures(forest, data_store);
   if (!status.ok()) return status;
 
   ComputeTreeScores compute_tree_scores(data_store);
diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 526a0f7..75e26e6 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -138,6 +138,10 @@ Status TrainGBDT(DataStore* data_store,
   vector<const Column*> features;
   status = LoadFeatures(feature_names, data_store, &features);
   if (!status.ok()) return status;
+  if (base_forest) {
+    status = LoadFeatures(*base_forest, data_store);
+    if (!status.ok()) return status;
+  }
 
   status = loss_func->Init(data_store->num_rows(), w, y, GetGroupOrDie(config, data_store));
   if (!status.ok()) return status;
diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index ac723ce..500f0be 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -76,6 +76,35 @@ Status LoadFeatures(const unordered_set<string>& feature_names,
   return Status::OK;
 }
 
+namespace {
+
+Status CheckSplitTypes(const TreeNode& node, DataStore* data_store) {
+  if (IsSingleNodeTree(node)) return Status::OK;
+  const auto& split = node.split();
+  const auto* feature = data_store->GetColumn(split.feature());
+  if (feature == nullptr ||
+      !((feature->type() == Column::kStringColumn && split.has_cat_split()) ||
+        (feature->type() == Column::kBucketizedFloatColumn && split.has_float_split()))) {
+    return Status(error::INVALID_ARGUMENT,
+                  fmt::format("Split and feature type mismatch for {0}.", split.feature()));
+  }
+  auto status = CheckSplitTypes(node.left_child(), data_store);
+  if (!status.ok()) return status;
+  return CheckSplitTypes(node.right_child(), data_store);
+}
+
+}  // namespace
+
+Status LoadFeatures(const Forest& forest, DataStore* data_store) {
+  auto status = LoadFeatures(CollectAllFeatures(forest), data_store, nullptr);
+  if (!status.ok()) return status;
+  for (const auto& tree : forest.tree()) {
+    status = CheckSplitTypes(tree, data_store);
+    if (!status.ok()) return status;
+  }
+  return Status::OK;
+}
+
 void ComputeFeatureImportance(const TreeNode& node,
                               unordered_map<string, double>* feature_importance_map) {
   if (node.has_left_child()) {
diff --git a/src/gbdt_algo/utils.h b/src/gbdt_algo/utils.h
index 26b424a..e1c94d4 100644
--- a/src/gbdt_algo/utils.h
+++ b/src/gbdt_algo/utils.h
@@ -37,6 +37,9 @@ Status LoadFeatures(const unordered_set<string>& feature_names,
                     DataStore* data_store,
                     vector<const Column*>* columns);
 
+// Loads all features of a forest and checks that every split fits the type of its column.
+Status LoadFeatures(const Forest& forest, DataStore* data_store);
+
 vector<pair<string, double>> ComputeFeatureImportance(const Forest& forest);
 unordered_set<string> CollectAllFeatures(const Forest& forest);
 
-- 
2.43.0


From 13db3dc8d92ed3df24a5496fb89b0d11f2d53c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 13/31] fix: a missing group column is an error instead of a
 crash

---
 src/gbdt_algo/gbdt_algo.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 75e26e6..0b854e7 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -143,6 +143,11 @@ Status TrainGBDT(DataStore* data_store,
     if (!status.ok()) return status;
   }
 
+  if (!config.group_column().empty() &&
+      data_store->GetStringColumn(config.group_column()) == nullptr) {
+    return Status(error::NOT_FOUND,
+                  fmt::format("Failed to find {0} in data_store.", config.group_column()));
+  }
   status = loss_func->Init(data_store->num_rows(), w, y, GetGroupOrDie(config, data_store));
   if (!status.ok()) return status;
 
-- 
2.43.0


From e83d448df99ae3aee61bd13e9f4dc5547d62a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:04 +0000
Subject: [PATCH 14/31] fix: report failures to write score files

---
 src/gbdt_algo/evaluation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 89f2964..1f6849a 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -51,7 +51,7 @@ bool WriteScoreFile(const string& filename,
   }
 
   out_file.close();
-  return true;
+  return !out_file.fail();
 }
 
 Status EvaluateForest(DataStore* data_store,
-- 
2.43.0


From 914a4159e62897705d48323d90186a69b937502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:32 +0000
Subject: [PATCH 15/31] fix: logistic loss no longer overflows for large
 negative margins

---
 src/loss_func/loss_func_math.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/loss_func/loss_func_math.cc b/src/loss_func/loss_func_math.cc
index 878465f..7979195 100644
--- a/src/loss_func/loss_func_math.cc
+++ b/src/loss_func/loss_func_math.cc
@@ -26,6 +26,11 @@ tuple<double, double, double> ComputeMSE(double y, double f) {
 }
 
 tuple<double, double, double> ComputeLogLoss(double y, double f) {
+  if (y * f < 0) {
+    // exp(-y * f) overflows for large negative margins.
+    double e = exp(y * f);
+    return make_tuple(log(1 + e) - y * f, y / (1 + e), e / ((1 + e) * (1 + e)));
+  }
   double e = exp(-y * f);
   return make_tuple(log(1 + e), y * e / (1 + e), e / ((1 + e) * (1 + e)));
 };
-- 
2.43.0


From 5c85f3d1d8499169aced359477c8d3a962cbfb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:57 +0000
Subject: [PATCH 16/31] fix: training stops with an error when tree scores or
 constants overflow

---
 src/gbdt_algo/gbdt_algo.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 0b854e7..182ceea 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -57,6 +57,13 @@ void ApplyShrinkage(TreeNode* tree, float shrinkage) {
   }
 }
 
+// Returns true if all scores of the tree are finite.
+bool IsFinite(const TreeNode& tree) {
+  return std::isfinite(tree.score()) &&
+      (!tree.has_left_child() || IsFinite(tree.left_child())) &&
+      (!tree.has_right_child() || IsFinite(tree.right_child()));
+}
+
 void ClearInternalFields(TreeNode* tree) {
   if (!tree->has_left_child()) {
     tree->clear_split();
@@ -117,6 +124,12 @@ string MetaInfo(const StopWatch& stopwatch, const Config& config) {
                      config_str);
 }
 
+Status DivergenceError() {
+  return Status(error::INTERNAL,
+                "Stopped learning early because it diverges. "
+                "Please try adding regularization to the config.");
+}
+
 }  // namespace
 
 Status TrainGBDT(DataStore* data_store,
@@ -183,9 +196,7 @@ Status TrainGBDT(DataStore* data_store,
 
     // When constant is NaN of Inf, the learning diverges and should be stopped.
     if (std::isnan(constant) || std::isinf(constant)) {
-      return Status(error::INTERNAL,
-                    "Stopped learning early because it diverges. "
-                    "Please try adding regularization to the config.");
+      return DivergenceError();
     }
 
     // Log progress
@@ -202,6 +213,11 @@ Status TrainGBDT(DataStore* data_store,
     constant_tree->set_score(constant_tree->score() + constant);
     // Update function score.
     compute_tree_scores.AddTreeScores(*tree, constant, &f);
+
+    // Losses without constant show their divergence in the tree.
+    if (!IsFinite(*tree) || !IsFinite(*constant_tree)) {
+      return DivergenceError();
+    }
   }
 
   ClearInternalFields(forest);
-- 
2.43.0


From 5f6ebd3081e6225d1a82a4baa8ef88e8f7c07206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:21 +0000
Subject: [PATCH 17/31] fix: the constant of pointwise losses no longer
 diverges from badly biased scores

---
 src/loss_func/loss_func_pointwise.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/loss_func/loss_func_pointwise.cc b/src/loss_func/loss_func_pointwise.cc
index d92b24f..991d76b 100644
--- a/src/loss_func/loss_func_pointwise.cc
+++ b/src/loss_func/loss_func_pointwise.cc
@@ -60,6 +60,7 @@ void Pointwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   int k = 0;
   *c = 0;
   double delta_c = 0;
+  double last_g = 0;
   LossFuncData total;
   do {
     vector<LossFuncData> totals(slices_.size());
@@ -81,6 +82,13 @@ void Pointwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
       }
     }
     total = std::accumulate(totals.begin(), totals.end(), LossFuncData());
+    if (k > 0 && fabs(total.gradient_data.g) > fabs(last_g)) {
+      // Newton's method overshot, which it does where the loss is almost linear. Step back.
+      delta_c /= 2;
+      *c -= delta_c;
+      continue;
+    }
+    last_g = total.gradient_data.g;
     delta_c = total.gradient_data.Score(0);
     *c += delta_c;
     ++k;
-- 
2.43.0


From cef89a6fb620620b6ea2f0fdcf1a9085de6c08ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:39 +0000
Subject: [PATCH 18/31] fix: reading a TSV or flat file that cannot be read
 ends with an error instead of looping

---
 src/data_store/flatfiles_data_store.cc | 6 ++++--
 src/data_store/tsv_block.cc            | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index b36b95f..f0f1067 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -91,13 +91,14 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
 
 unique_ptr<Column> FlatfilesDataStore::LoadStringColumn(ifstream& in, const string& column_name) {
   vector<string> raw_strings;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (strings::HasPrefix(line, "#") || (line.empty() && !in.good())) {
       continue;
     }
     raw_strings.push_back(line);
   }
+  if (in.bad()) return nullptr;
 
   return Column::CreateStringColumn(column_name, raw_strings);
 }
@@ -106,7 +107,7 @@ unique_ptr<Column> FlatfilesDataStore::LoadFloatColumn(ifstream& in,
                                                        const string& column_name,
                                                        bool bucketized) {
   vector<float> raw_floats;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (strings::HasPrefix(line, "#") || (line.empty() && !in.good())) {
       continue;
@@ -118,6 +119,7 @@ unique_ptr<Column> FlatfilesDataStore::LoadFloatColumn(ifstream& in,
       raw_floats.push_back(NAN);
     }
   }
+  if (in.bad()) return nullptr;
 
   return bucketized ? Column::CreateBucketizedFloatColumn(column_name, raw_floats) :
       Column::CreateRawFloatColumn(column_name, std::move(raw_floats));
diff --git a/src/data_store/tsv_block.cc b/src/data_store/tsv_block.cc
index b520894..95eb203 100644
--- a/src/data_store/tsv_block.cc
+++ b/src/data_store/tsv_block.cc
@@ -57,7 +57,7 @@ Status TSVBlock::ReadTSV(const string& tsv,
   }
 
   int num_rows = 0;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (line.empty()) continue;
     auto row = strings::split(line, "\t");
@@ -96,6 +96,9 @@ Status TSVBlock::ReadTSV(const string& tsv,
       }
     }
   }
+  if (in.bad()) {
+    return Status(error::INVALID_ARGUMENT, fmt::format("Failed to read TSV {0}.", tsv));
+  }
   stopwatch.End();
   LOG(INFO) << "Loaded " << float_columns_.size() << " float columns"
             << " and " << string_columns_.size() << " string columns, each with "
-- 
2.43.0


From bd632e9577613fbea9b1f23788a80a28ba68d56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 19/31] fix: a checkpoint below 1 no longer suppresses the
 score file of checkpoint 1

---
 src/gbdt_algo/evaluation.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 1f6849a..fd488a2 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -59,6 +59,8 @@ Status EvaluateForest(DataStore* data_store,
                       const list<int>& test_points_arg,
                       const string& output_dir) {
   auto test_points = test_points_arg;
+  // Only points in [1, tree_size] get a score file.
+  test_points.remove_if([](int point) { return point < 1; });
   test_points.sort();
   auto status = LoadFeatures(forest, data_store);
   if (!status.ok()) return status;
-- 
2.43.0


From 59bccec66c374a9657fce2429c6072718baf23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:50 +0000
Subject: [PATCH 20/31] fix: a pairwise loss initialized again no longer keeps
 the groups of the data before

---
 src/loss_func/loss_func_pairwise.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index dd5a007..fb5c1a5 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -83,6 +83,7 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     }
   }
 
+  groups_.clear();
   groups_.reserve(groups.size());
   for (auto& group : groups) {
     groups_.emplace_back(std::move(group), y);
-- 
2.43.0


From 9ee6560cbd7ebc6c2b92bb7d1cd8406148375df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:37 +0000
Subject: [PATCH 21/31] fix: the constant of pointwise losses balances the
 gradients also from badly biased scores

---
 src/loss_func/loss_func_pointwise.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/loss_func/loss_func_pointwise.cc b/src/loss_func/loss_func_pointwise.cc
index 991d76b..5ee243a 100644
--- a/src/loss_func/loss_func_pointwise.cc
+++ b/src/loss_func/loss_func_pointwise.cc
@@ -17,6 +17,7 @@
 
 #include <functional>
 #include <gflags/gflags.h>
+#include <limits>
 #include <numeric>
 #include <vector>
 
@@ -60,7 +61,8 @@ void Pointwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   int k = 0;
   *c = 0;
   double delta_c = 0;
-  double last_g = 0;
+  double lower = -std::numeric_limits<double>::infinity();
+  double upper = std::numeric_limits<double>::infinity();
   LossFuncData total;
   do {
     vector<LossFuncData> totals(slices_.size());
@@ -82,16 +84,20 @@ void Pointwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
       }
     }
     total = std::accumulate(totals.begin(), totals.end(), LossFuncData());
-    if (k > 0 && fabs(total.gradient_data.g) > fabs(last_g)) {
-      // Newton's method overshot, which it does where the loss is almost linear. Step back.
-      delta_c /= 2;
-      *c -= delta_c;
-      continue;
-    }
-    last_g = total.gradient_data.g;
+    // The loss is convex, so the sign of g tells on which side the best constant lies.
+    if (total.gradient_data.g > 0) lower = *c;
+    if (total.gradient_data.g < 0) upper = *c;
     delta_c = total.gradient_data.Score(0);
-    *c += delta_c;
     ++k;
+    bool converged = total.gradient_data.g == 0 ||
+                     (total.gradient_data.h > 0 && fabs(delta_c) <= kConvergenceThreshold);
+    if (!converged && std::isfinite(lower) && std::isfinite(upper) &&
+        !(*c + delta_c > lower && *c + delta_c < upper)) {
+      // Newton's method overshoots where the loss is almost linear. Bisect instead.
+      delta_c = lower + (upper - lower) / 2 - *c;
+      --k;
+    }
+    *c += delta_c;
   } while (fabs(delta_c) > kConvergenceThreshold && k < kMaxIterations);
 
   if (progress) {
-- 
2.43.0


From d254889fcc4b3558d3ce43864839589507d4f5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:18 +0000
Subject: [PATCH 22/31] fix: sampling rates which are not a number are refused
 like others outside of their range

---
 src/gbdt_algo/utils.cc              | 9 +++++----
 src/loss_func/loss_func_pairwise.cc | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index 500f0be..f6b196c 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -241,14 +241,15 @@ Status CheckConfig(Config config) {
                   fmt::format("num_leaves should be positive (actual {0})",
                               config.num_leaves()));
   }
-  if (config.example_sampling_rate() <= 0 ||
-      config.example_sampling_rate() > 1) {
+  // The conditions are written such that NaN doesn't meet them.
+  if (!(config.example_sampling_rate() > 0 &&
+        config.example_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("example_sampling_rate should be in [0, 1] (actual {0})",
                               config.example_sampling_rate()));
   }
-  if (config.feature_sampling_rate() <= 0 ||
-      config.feature_sampling_rate() > 1) {
+  if (!(config.feature_sampling_rate() > 0 &&
+        config.feature_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("feature_sampling_rate should be in [0, 1] (actual {0})",
                               config.feature_sampling_rate()));
diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index fb5c1a5..2d24e14 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -16,6 +16,7 @@
 #include "loss_func_pairwise.h"
 
 #include <algorithm>
+#include <cmath>
 #include <gflags/gflags.h>
 #include <string>
 #include <vector>
@@ -59,7 +60,7 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
   w_ = w;
   y_ = y;
 
-  if (pair_sampling_rate_ <= 0) {
+  if (!(pair_sampling_rate_ > 0) || std::isinf(pair_sampling_rate_)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("pair_sampling_rate need to by positive (actual {0})", pair_sampling_rate_));
   }
-- 
2.43.0


From a910077f79a704afd4f85e833ad1d34b1e71361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:58 +0000
Subject: [PATCH 23/31] fix: rows without a target are refused by pairwise
 losses

---
 src/loss_func/loss_func_pairwise.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 2d24e14..b9435f2 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -65,6 +65,13 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
                   fmt::format("pair_sampling_rate need to by positive (actual {0})", pair_sampling_rate_));
   }
 
+  // Rows cannot be ordered by targets that are not a number.
+  for (int i = 0; i < num_rows; ++i) {
+    if (std::isnan(y(i))) {
+      return Status(error::INVALID_ARGUMENT, fmt::format("The target of row {0} is missing.", i));
+    }
+  }
+
   // Construct groups.
   vector<vector<uint>> groups;
   if (!group_column) {
-- 
2.43.0


From d5c3b38cb03eec5503842fca224fed6dad988188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:41 +0000
Subject: [PATCH 24/31] fix: throw an exception for every failed status in the
 Python interface

ThrowException ignored ALREADY_EXISTS and other codes, so that adding a
column under an existing name silently did nothing.
---
 src/python/gbdt_py_base.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/gbdt_py_base.cc b/src/python/gbdt_py_base.cc
index 47e5b1a..ee7accd 100644
--- a/src/python/gbdt_py_base.cc
+++ b/src/python/gbdt_py_base.cc
@@ -17,5 +17,7 @@ void ThrowException(const Status& status) {
       throw std::logic_error(status.ToString());
     case error::OK:
       return;
+    default:
+      throw std::runtime_error(status.ToString());
   }
 }
-- 
2.43.0


From 95d29ff0cddb0ac1167db11362cc2bf2e0216c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:41 +0000
Subject: [PATCH 25/31] fix: refuse empty data stores in train and
 predict_and_output

Both dereferenced the missing store.
---
 src/python/forest_py.cc     | 3 +++
 src/python/train_gbdt_py.cc | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/forest_py.cc b/src/python/forest_py.cc
index 9f566b4..d95586d 100644
--- a/src/python/forest_py.cc
+++ b/src/python/forest_py.cc
@@ -57,6 +57,9 @@ vector<double> ForestPy::Predict(DataStorePy* data_store_py) const {
 void ForestPy::PredictAndOutput(DataStorePy* data_store_py,
                                 const list<int>& test_points,
                                 const string& output_dir) const {
+  if (!data_store_py || !data_store_py->data_store()) {
+    ThrowException(Status(error::NOT_FOUND, "Data store is empty."));
+  }
   auto status = EvaluateForest(data_store_py->data_store(),
                                forest_,
                                test_points,
diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 98ffa34..497820b 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -51,7 +51,7 @@ ForestPy TrainPy(DataStorePy* data_store,
   Config config;
   auto status = JsonUtils::FromJson(json_config, &config);
   if (!status.ok()) ThrowException(status);
-  if (!data_store) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
+  if (!data_store || !data_store->data_store()) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
 
   if (!y.empty() && data_store->num_rows() != y.size()) {
     ThrowException(Status(error::INVALID_ARGUMENT,
-- 
2.43.0


From 983ad8908d1e5a2147920e5f9482e0e72c369e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:41 +0000
Subject: [PATCH 26/31] fix: write checkpoint predictions into a directory of
 their own

They went to fixed names in the shared temporary directory, so that
predictions being read at the same time were mixed up, and scores left
there by others were returned for checkpoints beyond the forest.
---
 gbdt/_forest.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gbdt/_forest.py b/gbdt/_forest.py
index 12f259f..4123f43 100644
--- a/gbdt/_forest.py
+++ b/gbdt/_forest.py
@@ -19,14 +19,18 @@ class Forest:
         """Computes prediction scores for data_store at different checkpoints. At each checkpoint n,
            We compute prediction scores for the sub forest from the first tree to nth tree.
         """
+        import shutil
         import tempfile
 
-        output_dir = tempfile.gettempdir()
-
-        self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
-        for p in checkpoints:
-            yield p, [float(line) for line in open(output_dir + '/forest.{}.score'.format(p))
-                      if line.strip()]
+        output_dir = tempfile.mkdtemp()
+        try:
+            self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
+            for p in checkpoints:
+                with open(output_dir + '/forest.{}.score'.format(p)) as f:
+                    scores = [float(line) for line in f if line.strip()]
+                yield p, scores
+        finally:
+            shutil.rmtree(output_dir, ignore_errors=True)
 
     def feature_importance(self):
         """Outputs list of feature importances in descending order."""
-- 
2.43.0


From 8ef3cae01d766f0dc037ff7db4c68a81e9a1fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:41 +0000
Subject: [PATCH 27/31] fix: train does not change the config it is given

---
 gbdt/_gbdt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gbdt/_gbdt.py b/gbdt/_gbdt.py
index 5ae6a09..14e23d5 100644
--- a/gbdt/_gbdt.py
+++ b/gbdt/_gbdt.py
@@ -33,6 +33,7 @@ def train(data_store,
     if len(unfound_features) > 0:
         raise ValueError('Failed to find feature {} in data store.'.format(unfound_features))
 
+    config = dict(config)
     config['float_feature'] = float_features
     config['categorical_feature'] = cat_features
     if 'example_sampling_rate' not in config:
-- 
2.43.0


From 34535c85ba4af57adf2150067b46dd45269467d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 28/31] fix: Python column handles keep their column alive

A handle pointed into the data store, and read freed memory once the column
was erased or the store cleared, reloaded or collected, as in
store.copy()['x'][0].
---
 src/data_store/data_store.cc     |  7 ++++++-
 src/data_store/data_store.h      |  4 +++-
 src/data_store/tsv_data_store.cc |  4 ++--
 src/python/column_py.h           | 12 ++++++------
 src/python/datastore_py.cc       |  9 ++++++---
 5 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 4d829f6..3da7882 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -72,7 +72,7 @@ uint DataStore::num_cols() const {
   return column_map_.size();
 }
 
-uint CountColumn(const unordered_map<string, unique_ptr<Column>>& column_map,
+uint CountColumn(const unordered_map<string, shared_ptr<Column>>& column_map,
                  Column::ColumnType type) {
   int count = 0;
   for (const auto& p : column_map) {
@@ -121,6 +121,11 @@ const Column* DataStore::GetColumn(const string& column_name) {
   return it == column_map_.end() ? nullptr : it->second.get();
 }
 
+shared_ptr<const Column> DataStore::ShareColumn(const string& column_name) const {
+  auto it = column_map_.find(column_name);
+  return it == column_map_.end() ? nullptr : it->second;
+}
+
 Status DataStore::Add(unique_ptr<Column>&& column) {
   auto it = column_map_.find(column->name());
   if (it != column_map_.end()) {
diff --git a/src/data_store/data_store.h b/src/data_store/data_store.h
index 08a6b79..69bf680 100644
--- a/src/data_store/data_store.h
+++ b/src/data_store/data_store.h
@@ -43,13 +43,15 @@ public:
   void RemoveColumnIfExists(const string& column_name);
 
   virtual const Column* GetColumn(const string& column_name);
+  // Shares the column if it is loaded, so that it survives its removal from the data store.
+  shared_ptr<const Column> ShareColumn(const string& column_name) const;
   string Description() const;
   const Status& status() const {
     return status_;
   }
 
 protected:
-  unordered_map<string, unique_ptr<Column>> column_map_;
+  unordered_map<string, shared_ptr<Column>> column_map_;
   Status status_;
 };
 
diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 61af967..9d5deff 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -41,7 +41,7 @@ string ReadFirstLine(const string& tsv) {
   return ReadLine(in);
 }
 
-Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& column_map) {
+Status MaybeFindFirstNotOK(const unordered_map<string, shared_ptr<Column>>& column_map) {
   for (const auto&p : column_map) {
     if (!p.second->status().ok()) {
       return p.second->status();
@@ -51,7 +51,7 @@ Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& colu
 }
 
 // A column can be requested several times, e.g. as feature and as group, but only as one type.
-Status CheckDuplicate(const unordered_map<string, unique_ptr<Column>>& column_map,
+Status CheckDuplicate(const unordered_map<string, shared_ptr<Column>>& column_map,
                       const string& header, Column::ColumnType type, bool* duplicate) {
   auto it = column_map.find(header);
   *duplicate = it != column_map.end();
diff --git a/src/python/column_py.h b/src/python/column_py.h
index 8f2f491..881fe93 100644
--- a/src/python/column_py.h
+++ b/src/python/column_py.h
@@ -26,36 +26,36 @@ namespace gbdt {
 
 class StringColumnPy {
  public:
-  StringColumnPy(const StringColumn* column) : column_(column) {}
+  StringColumnPy(const shared_ptr<const StringColumn>& column) : column_(column) {}
   int size() const;
   const string name() const;
   const string& get(int i) const;
   const string Description() const;
  private:
-  const StringColumn* column_ = nullptr;
+  shared_ptr<const StringColumn> column_;
 };
 
 class RawFloatColumnPy {
  public:
-  RawFloatColumnPy(const RawFloatColumn* column) : column_(column) {}
+  RawFloatColumnPy(const shared_ptr<const RawFloatColumn>& column) : column_(column) {}
   int size() const;
   const string name() const;
   float get(int i) const;
   const string Description() const;
  private:
-  const RawFloatColumn* column_ = nullptr;
+  shared_ptr<const RawFloatColumn> column_;
 };
 
 class BucketizedFloatColumnPy {
  public:
-  BucketizedFloatColumnPy(const BucketizedFloatColumn* column) : column_(column) {}
+  BucketizedFloatColumnPy(const shared_ptr<const BucketizedFloatColumn>& column) : column_(column) {}
   int size() const;
   const string name() const;
   float get(int i) const;
   vector<pair<float, float>> GetBuckets() const;
   const string Description() const;
  private:
-  const BucketizedFloatColumn* column_ = nullptr;
+  shared_ptr<const BucketizedFloatColumn> column_;
 };
 
 }  // namespace gbdt
diff --git a/src/python/datastore_py.cc b/src/python/datastore_py.cc
index c508479..5ed65ce 100644
--- a/src/python/datastore_py.cc
+++ b/src/python/datastore_py.cc
@@ -60,21 +60,24 @@ StringColumnPy DataStorePy::GetStringColumn(const string& col) const {
   const auto* column = data_store_ ? data_store_->GetStringColumn(col) : nullptr;
   if (!column) ThrowException(Status(error::NOT_FOUND,
                                       fmt::format("Failed to find {0} from data store", col)));
-  return StringColumnPy(column);
+  return StringColumnPy(
+      std::static_pointer_cast<const StringColumn>(data_store_->ShareColumn(col)));
 }
 
 RawFloatColumnPy DataStorePy::GetRawFloatColumn(const string& col) const {
   const auto* column = data_store_ ? data_store_->GetRawFloatColumn(col) : nullptr;
   if (!column) ThrowException(Status(error::NOT_FOUND,
                                       fmt::format("Failed to find {0} from data store", col)));
-  return RawFloatColumnPy(column);
+  return RawFloatColumnPy(
+      std::static_pointer_cast<const RawFloatColumn>(data_store_->ShareColumn(col)));
 }
 
 BucketizedFloatColumnPy DataStorePy::GetBucketizedFloatColumn(const string& col) const {
   const auto* column = data_store_ ? data_store_->GetBucketizedFloatColumn(col) : nullptr;
   if (!column) ThrowException(Status(error::NOT_FOUND,
                                       fmt::format("Failed to find {0} from data store", col)));
-  return BucketizedFloatColumnPy(column);
+  return BucketizedFloatColumnPy(
+      std::static_pointer_cast<const BucketizedFloatColumn>(data_store_->ShareColumn(col)));
 }
 
 bool DataStorePy::Exists(const string& col) const {
-- 
2.43.0


From 1c60daa51aa24f70e1b0f3bd2f8ef4b1086ebc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:07 +0000
Subject: [PATCH 29/31] fix: report failures to write models and feature
 importances

A full disk left a cut off model behind while training ended successfully.
---
 src/utils/utils.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 939d812..dac1e61 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -44,6 +44,7 @@ void WriteStringToFile(const string& content, const string& file) {
   CHECK(!out.fail()) << "Failed to open " << file << " for writing.";
   out << content;
   out.close();
+  CHECK(!out.fail()) << "Failed to write " << file << ".";
 }
 
 vector<uint> VectorSliceToVector(VectorSlice<uint> slice) {
-- 
2.43.0


From afec7426156bd68d762f303802be7d1132c0ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:07 +0000
Subject: [PATCH 30/31] fix: count the rows of flat files when testing a forest
 without splits

---
 src/main.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.cc b/src/main.cc
index f17f777..756abd5 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -178,6 +178,14 @@ void Test() {
 
   // Load DataStore.
   auto data_store = LoadDataStoreOrDie(config);
+  if (CollectAllFeatures(forest).empty() && data_store->num_cols() == 0) {
+    // The forest doesn't need any column, but flat files are loaded on demand and the number of
+    // rows is only known after loading a column.
+    for (const string& feature : GetFeaturesSetFromConfig(config)) {
+      if (data_store->GetColumn(feature) != nullptr) break;
+    }
+    CHECK(data_store->num_cols() > 0) << "Failed to find the number of rows of the data store.";
+  }
 
   // Evaluate forest and write score out.
   mkdir(FLAGS_output_dir.c_str(), 0744);
-- 
2.43.0


From adcdc2f9e5b6f5f7cb53fb993ef5cc1e8f62e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 31/31] fix: load numeric columns of a data frame as strings
 when told so

---
 gbdt/_data_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gbdt/_data_store.py b/gbdt/_data_store.py
index 1163358..c095fe2 100644
--- a/gbdt/_data_store.py
+++ b/gbdt/_data_store.py
@@ -161,7 +161,9 @@ class DataLoader:
         for col in df.select_dtypes(include=[numpy.number]).keys():
             if col in raw_float_cols:
                 d.add_raw_float_col(col, list(df[col]))
-            elif col not in string_cols:
+            elif col in string_cols:
+                d.add_string_col(col, [str(v) for v in df[col]])
+            else:
                 d.add_bucketized_float_col(col, list(df[col]))
 
         for col in df.select_dtypes(exclude=[numpy.number]).keys():
-- 
2.43.0

