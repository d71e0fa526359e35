From 82fc063f3c287e18f9e48964b79600acebfc08fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:18 +0000
Subject: [PATCH 01/35] verif: cfg(goko_verif) re-exports of the snapshot map
 and the sparse store

---
 goko/src/lib.rs                    | 6 ++++++
 pointcloud/src/data_sources/mod.rs | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/goko/src/lib.rs b/goko/src/lib.rs
index de63f6f..6def623 100644
--- a/goko/src/lib.rs
+++ b/goko/src/lib.rs
@@ -75,6 +75,12 @@ pub mod utils;
 
 pub mod plugins;
 
+/// Access to crate-private types for external verification harnesses, compiled only with `--cfg goko_verif`.
+#[cfg(goko_verif)]
+pub mod verif_hooks {
+    pub use crate::monomap::{MonoOptions, MonoReadHandle, MonoReadHandleFactory, MonoWriteHandle};
+}
+
 /// The data structure explicitly seperates the covertree by layer, and the addressing schema for nodes
 /// is a pair for the layer index and the center point index of that node.
 pub type NodeAddress = (i32, usize);
diff --git a/pointcloud/src/data_sources/mod.rs b/pointcloud/src/data_sources/mod.rs
index 03919c3..89a5b39 100644
--- a/pointcloud/src/data_sources/mod.rs
+++ b/pointcloud/src/data_sources/mod.rs
@@ -28,3 +28,7 @@ mod memmapf32;
 
 #[doc(hidden)]
 pub use memmap_ram::*;
+
+/// The sparse store is crate-private, external verification harnesses see it with `--cfg goko_verif`.
+#[cfg(goko_verif)]
+pub use sparse_ram::SparseDataRam;
-- 
2.43.0


From c135e02027be77366480fd765cb0a8b6c0bebb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:18 +0000
Subject: [PATCH 02/35] fix: keep the root scale index at or above the minimum
 resolution

Building panicked with a capacity overflow when the whole dataset fits inside
the minimum resolution (duplicates, a tight cluster, one point with a positive
minimum resolution).
---
 goko/src/covertree/builders.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 5dd3945..caba61a 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -58,7 +58,11 @@ impl BuilderNode {
                 CoveredData::FirstCoveredData(FirstCoveredData::new::<D>(&parameters.point_cloud)?)
             }
         };
-        let scale_index = (covered.max_distance()).log(parameters.scale_base).ceil() as i32;
+        // Tight clusters, duplicates and single points can fit below the minimum resolution.
+        let scale_index = max(
+            (covered.max_distance()).log(parameters.scale_base).ceil() as i32,
+            parameters.min_res_index,
+        );
         Ok(BuilderNode {
             parent_address: None,
             scale_index,
-- 
2.43.0


From 11979b6697457820baa7b9e684d1e87ea59ae0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:18 +0000
Subject: [PATCH 03/35] fix: read rng_seed and integer scale_base from the yaml
 parameters

The seed was read from the verbosity key, and an integer scale base was
silently replaced by 2.0.
---
 goko/src/covertree/builders.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index caba61a..974c418 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -343,13 +343,16 @@ impl CoverTreeBuilder {
             PartitionType::Nearest
         };
         CoverTreeBuilder {
-            scale_base: params["scale_base"].as_f64().unwrap_or(2.0) as f32,
+            scale_base: params["scale_base"]
+                .as_f64()
+                .or_else(|| params["scale_base"].as_i64().map(|i| i as f64))
+                .unwrap_or(2.0) as f32,
             leaf_cutoff: params["leaf_cutoff"].as_i64().unwrap_or(1) as usize,
             min_res_index: params["min_res_index"].as_i64().unwrap_or(-10) as i32,
             use_singletons: params["use_singletons"].as_bool().unwrap_or(true),
             partition_type,
             verbosity: params["verbosity"].as_i64().unwrap_or(2) as u32,
-            rng_seed: params["verbosity"].as_i64().map(|i| i as u64),
+            rng_seed: params["rng_seed"].as_i64().map(|i| i as u64),
         }
     }
 
-- 
2.43.0


From 6390994b18f6cd35de5f14b6b62e05b5a0957d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:18 +0000
Subject: [PATCH 04/35] fix: routing_knn visits every node that could hold a
 closer center

The query stopped when the greedy descent met two leaves in a row, and missed
closer routing nodes.
---
 goko/src/covertree/tree.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 582709c..364112d 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -311,9 +311,20 @@ impl<D: PointCloud> CoverTreeReader<D> {
         let root_center = self.parameters.point_cloud.point(self.root_address.1)?;
         let dist_to_root = D::Metric::dist(&root_center, &point);
         query_heap.push_nodes(&[self.root_address], &[dist_to_root], None);
-        self.greedy_knn_nodes(point, &mut query_heap);
 
-        while self.greedy_knn_nodes(point, &mut query_heap) {}
+        // `child_knn` does nothing on leaves, so keep going until no node could hold a closer center.
+        while let Some((dist, address)) = query_heap.closest_unvisited_child_covering_address() {
+            if let Some(res) = self.get_node_and(address, |n| {
+                n.child_knn(
+                    Some(dist),
+                    point,
+                    &self.parameters.point_cloud,
+                    &mut query_heap,
+                )
+            }) {
+                res?;
+            }
+        }
         Ok(query_heap.unpack())
     }
 
-- 
2.43.0


From d0658c6e4caa733c6c8e56a7ebc87bf80978cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:18 +0000
Subject: [PATCH 05/35] fix: size the knn result by what was found, not by k

A large k panicked with a capacity overflow or aborted on allocation.
---
 goko/src/covertree/query_tools/knn_query_heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/query_tools/knn_query_heap.rs b/goko/src/covertree/query_tools/knn_query_heap.rs
index c579692..2d8486c 100644
--- a/goko/src/covertree/query_tools/knn_query_heap.rs
+++ b/goko/src/covertree/query_tools/knn_query_heap.rs
@@ -195,7 +195,7 @@ impl KnnQueryHeap {
 
     /// Unpacks the distance heap. This consumes the query heap.
     pub fn unpack(mut self) -> Vec<(f32, usize)> {
-        let mut result = Vec::with_capacity(self.k);
+        let mut result = Vec::with_capacity(self.dist_heap.len());
         while let Some(el) = self.dist_heap.pop() {
             result.push((el.dist, el.index));
         }
-- 
2.43.0


From 32c3ae0e07e0d5d3eb05e17897a0a74af0c6832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:18 +0000
Subject: [PATCH 06/35] fix: removing a point from a diagonal gaussian lowers
 its count

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index e7ef561..c6fa7ba 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -134,7 +134,7 @@ impl DiagGaussian {
                 .iter_mut()
                 .zip(point.dense_iter())
                 .for_each(|(m, p)| *m -= p * p);
-            self.count += 1;
+            self.count -= 1;
         }
     }
 
-- 
2.43.0


From 192c9b026b4eead13754f7a867c7479be9b56e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:18 +0000
Subject: [PATCH 07/35] fix: ln_pdf of a diagonal gaussian is the log of its
 density

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index c6fa7ba..91aab25 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -45,13 +45,13 @@ impl ContinousDistribution for DiagGaussian {
             self.count
         ));
 
-        let (exponent, det) = point
+        let (exponent, ln_det) = point
             .dense_iter()
             .zip(mean_vars)
-            .map(|(xi, (ui, vi))| ((xi - ui) * (xi - ui) / vi, vi))
-            .fold((0.0, 1.0), |(a, v), (x, u)| (a + x, v * u));
+            .map(|(xi, (ui, vi))| ((xi - ui) * (xi - ui) / vi, vi.ln()))
+            .fold((0.0, 0.0), |(a, v), (x, u)| (a + x, v + u));
 
-        Some((exponent - det + (self.dim() as f32) * (2.0 * PI).ln()) as f64)
+        Some((-0.5 * (exponent + ln_det + (self.dim() as f32) * (2.0 * PI).ln())) as f64)
     }
 
     fn sample<R: Rng>(&self, rng: &mut R) -> Vec<f32> {
-- 
2.43.0


From 2794054b2d56867778f5371a74ca56c259bb60cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:18 +0000
Subject: [PATCH 08/35] fix: the trace term of the gaussian KL divergence
 divides by the variance

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index 91aab25..f22aa2d 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -82,7 +82,7 @@ impl ContinousDistribution for DiagGaussian {
         let (trace, mah_dist, ln_det) = mean_vars
             .zip(other_mean_vars)
             .map(|((xi, yi), (ui, vi))| {
-                let trace = yi / ui;
+                let trace = yi / vi;
                 let mah_dist = (ui - xi) * (ui - xi) / vi;
                 let ln_det = vi.ln() - yi.ln();
                 (trace, mah_dist, ln_det)
-- 
2.43.0


From 50acbd220fec46ec34b6d013fd8703a970291c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:00 +0000
Subject: [PATCH 09/35] fix: give the log probability vector of every non-empty
 Dirichlet

---
 goko/src/plugins/discrete/dirichlet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index 73e72be..65d4042 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -69,8 +69,9 @@ impl Dirichlet {
 
     /// Gives the probability vector for this
     pub fn ln_prob_vector(&self) -> Option<(Vec<(NodeAddress, f64)>, f64)> {
-        let total_ln = self.total().ln();
-        if total_ln > 1.0 {
+        let total = self.total();
+        if total > 0.0 {
+            let total_ln = total.ln();
             let v: Vec<(NodeAddress, f64)> = self
                 .child_counts
                 .iter()
-- 
2.43.0


From 9235cbbd8861b843260f78d04d49e27b906a36c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:00 +0000
Subject: [PATCH 10/35] fix: compare categorical distributions by child, None
 outside the support

---
 goko/src/plugins/discrete/categorical.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/goko/src/plugins/discrete/categorical.rs b/goko/src/plugins/discrete/categorical.rs
index 6761d0f..2c473a5 100644
--- a/goko/src/plugins/discrete/categorical.rs
+++ b/goko/src/plugins/discrete/categorical.rs
@@ -134,14 +134,22 @@ impl Categorical {
         } else {
             let ln_total = my_total.ln() - other_total.ln();
             let mut sum: f64 = 0.0;
-            if self.singleton_count > 0.0 && other.singleton_count > 0.0 {
+            if self.singleton_count > 0.0 {
+                if other.singleton_count <= 0.0 {
+                    return None;
+                }
                 sum += (self.singleton_count / my_total)
                     * (self.singleton_count.ln() - other.singleton_count.ln() - ln_total);
             }
-            for ((ca, ca_count), (other_ca, other_ca_count)) in
-                self.child_counts.iter().zip(other.child_counts.iter())
-            {
-                assert_eq!(ca, other_ca);
+            for (ca, ca_count) in self.child_counts.iter().filter(|(_, c)| *c > 0.0) {
+                let other_ca_count = other
+                    .child_counts
+                    .binary_search_by_key(ca, |&(a, _)| a)
+                    .map(|i| other.child_counts[i].1)
+                    .unwrap_or(0.0);
+                if other_ca_count <= 0.0 {
+                    return None;
+                }
                 sum += (ca_count / my_total) * (ca_count.ln() - other_ca_count.ln() - ln_total);
             }
             Some(sum)
-- 
2.43.0


From 738a79415e77222c14b789c08c6c2f71fdfbad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:00 +0000
Subject: [PATCH 11/35] fix: sample discrete distributions in proportion to
 fractional counts

---
 goko/src/plugins/discrete/categorical.rs | 8 +++++---
 goko/src/plugins/discrete/dirichlet.rs   | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/goko/src/plugins/discrete/categorical.rs b/goko/src/plugins/discrete/categorical.rs
index 2c473a5..04d76d8 100644
--- a/goko/src/plugins/discrete/categorical.rs
+++ b/goko/src/plugins/discrete/categorical.rs
@@ -109,9 +109,11 @@ impl Categorical {
 
     /// Samples from the given categorical distribution
     pub fn sample<R: Rng>(&self, rng: &mut R) -> Option<NodeAddress> {
-        let sum = self.total() as usize;
-        let uniform = Uniform::from(0..sum);
-        let sample = uniform.sample(rng) as f64;
+        let sum = self.total();
+        if sum <= 0.0 {
+            return None;
+        }
+        let sample = Uniform::from(0.0..sum).sample(rng);
 
         let mut count = 0.0;
         for (a, c) in &self.child_counts {
diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index 65d4042..1fb5934 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -183,9 +183,11 @@ impl Dirichlet {
 
     /// Samples from the expected PDF of the Dirichlet distribution
     pub fn sample<R: Rng>(&self, rng: &mut R) -> Option<NodeAddress> {
-        let sum = self.total() as usize;
-        let uniform = Uniform::from(0..sum);
-        let sample = uniform.sample(rng) as f64;
+        let sum = self.total();
+        if sum <= 0.0 {
+            return None;
+        }
+        let sample = Uniform::from(0.0..sum).sample(rng);
 
         let mut count = 0.0;
         for (a, c) in &self.child_counts {
-- 
2.43.0


From cf316ba0b006f5a9e8cec241d68d6e510f2fefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:00 +0000
Subject: [PATCH 12/35] fix: appending trackers keeps the window size

---
 goko/src/plugins/discrete/tracker.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 3927259..542815c 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -59,6 +59,12 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
         self.sequence_queue
             .extend(other.sequence_queue.iter().cloned());
         self.sequence_count += other.sequence_count;
+        if self.window_size != 0 {
+            while self.sequence_queue.len() > self.window_size {
+                let oldest = self.sequence_queue.pop_front().unwrap();
+                self.remove_trace_from_pdfs(&oldest);
+            }
+        }
         self
     }
 
-- 
2.43.0


From 5c658d3642caa4a9a0fb9de7ba940a81be8d8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:00 +0000
Subject: [PATCH 13/35] fix: a baseline with a single sampled length has stats
 past that length

---
 goko/src/plugins/discrete/baseline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/goko/src/plugins/discrete/baseline.rs b/goko/src/plugins/discrete/baseline.rs
index b8fac9f..6d36daa 100644
--- a/goko/src/plugins/discrete/baseline.rs
+++ b/goko/src/plugins/discrete/baseline.rs
@@ -195,6 +195,8 @@ impl KLDivergenceBaseline {
             Err(index) => {
                 if index == 0 {
                     KLDivergenceBaselineStats::default()
+                } else if self.sequence_len.len() == 1 {
+                    self.stats[0].to_mean_var(self.num_sequences as f64)
                 } else if index == self.sequence_len.len() {
                     let stats1 = self.stats[index - 2].to_mean_var(self.num_sequences as f64);
                     let stats2 = self.stats[index - 1].to_mean_var(self.num_sequences as f64);
-- 
2.43.0


From bd04ead5e66660892b7037cb8289f7fc681dff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 14/35] fix: a bulk query over no points answers nothing
 instead of panicking

---
 goko/src/query_interface/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/goko/src/query_interface/mod.rs b/goko/src/query_interface/mod.rs
index af6cd66..0cbd424 100644
--- a/goko/src/query_interface/mod.rs
+++ b/goko/src/query_interface/mod.rs
@@ -35,7 +35,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 
     /// Applies the passed in fn to the passed in indexes and collects the result in a vector. Core function for this struct.
@@ -60,7 +60,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 
     /// Bulk known path
@@ -130,7 +130,7 @@ impl<D: PointCloud<Point = [f32]>> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 }
 
-- 
2.43.0


From 0a61bd812618d72659c3e2e0fba90604700311a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 15/35] fix: bulk queries accept arrays that are not row
 contiguous

---
 goko/src/query_interface/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/goko/src/query_interface/mod.rs b/goko/src/query_interface/mod.rs
index 0cbd424..df906bc 100644
--- a/goko/src/query_interface/mod.rs
+++ b/goko/src/query_interface/mod.rs
@@ -111,6 +111,7 @@ impl<D: PointCloud<Point = [f32]>> BulkInterface<D> {
         F: Fn(&CoverTreeReader<D>, &&[f32]) -> T + Send + Sync,
         T: Send + Sync,
     {
+        let points = points.as_standard_layout();
         let indexes: Vec<usize> = (0..points.nrows()).collect();
         let point_iter = indexes.par_chunks(100);
         let reader_copies = point_iter.len();
-- 
2.43.0


From 18f9b847540964471ab65d9f7750c4dc114cf534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 16/35] fix: vector summaries count their first label and
 combine into empty ones

---
 pointcloud/src/summaries/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/summaries/mod.rs b/pointcloud/src/summaries/mod.rs
index 0f6c110..4669add 100644
--- a/pointcloud/src/summaries/mod.rs
+++ b/pointcloud/src/summaries/mod.rs
@@ -94,10 +94,15 @@ impl Summary for VecSummary {
             }
         } else {
             self.moment1.extend(val);
-            self.moment2.extend(val.iter().map(|x| x * x))
+            self.moment2.extend(val.iter().map(|x| x * x));
+            self.count += 1;
         }
     }
     fn combine(&mut self, other: &VecSummary) {
+        if self.moment1.is_empty() {
+            self.moment1.resize(other.moment1.len(), 0.0);
+            self.moment2.resize(other.moment2.len(), 0.0);
+        }
         self.moment1
             .iter_mut()
             .zip(&other.moment1)
-- 
2.43.0


From 80e6cc124bf08829619d97502e94ad042122372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 17/35] fix: merging labels keeps unmasked labels visible and
 the mask aligned

---
 pointcloud/src/label_sources/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index e0b28e1..46bb41b 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -64,20 +64,21 @@ impl SmallIntLabels {
 
     /// Merges 2 labels together
     pub fn merge(&mut self, other: &Self) {
+        let original_len = self.labels.len();
         self.labels.extend(other.labels.iter());
         let mut replace_mask = false;
         match (self.mask.as_mut(), other.mask.as_ref()) {
             (Some(s_mask), Some(o_mask)) => s_mask.extend(o_mask),
             (Some(s_mask), None) => {
-                s_mask.extend(std::iter::repeat(false).take(other.labels.len()))
+                s_mask.extend(std::iter::repeat(true).take(other.labels.len()))
             }
             (None, Some(_)) => replace_mask = true,
             (None, None) => {}
         }
 
         if replace_mask {
-            let mut mask = std::iter::repeat(false)
-                .take(self.labels.len())
+            let mut mask = std::iter::repeat(true)
+                .take(original_len)
                 .collect::<Vec<bool>>();
             mask.extend(other.mask.as_ref().unwrap().iter());
             self.mask = Some(mask)
-- 
2.43.0


From 91fc98a43c3d27a2def23945d43cb97e602373ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 18/35] fix: only negative labels in a csv are masked

---
 pointcloud/src/loaders/csv_loaders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/loaders/csv_loaders.rs b/pointcloud/src/loaders/csv_loaders.rs
index 26e31e2..c1a0a2a 100644
--- a/pointcloud/src/loaders/csv_loaders.rs
+++ b/pointcloud/src/loaders/csv_loaders.rs
@@ -49,7 +49,7 @@ fn read_csv<P: AsRef<Path> + std::fmt::Debug, R: Read>(
                         key: format!("Unable to read u64 from {:?}", record),
                     })
                 })?;
-                if 0 < val {
+                if 0 <= val {
                     mask.push(true);
                 } else {
                     mask.push(false);
-- 
2.43.0


From 10e8b08144b09cfb3b1ae438f3629f62e497ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 19/35] fix: the length of vector labels is the number of
 vectors

---
 pointcloud/src/label_sources/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index 46bb41b..b654930 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -172,7 +172,7 @@ impl LabelSet for VecLabels {
     type LabelSummary = VecSummary;
 
     fn len(&self) -> usize {
-        self.labels.len()
+        self.labels.len() / self.label_dim
     }
     fn is_empty(&self) -> bool {
         self.labels.is_empty()
-- 
2.43.0


From 682005a1612d4894356893142e277b79122dd6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 20/35] fix: iterating a sparse point densely yields its
 trailing zeros

---
 pointcloud/src/points/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pointcloud/src/points/mod.rs b/pointcloud/src/points/mod.rs
index 0a78ed1..d57ef84 100644
--- a/pointcloud/src/points/mod.rs
+++ b/pointcloud/src/points/mod.rs
@@ -65,7 +65,10 @@ where
     type Item = f32;
     fn next(&mut self) -> Option<Self::Item> {
         let dim = self.raw.dim();
-        if self.index < dim && self.sparse_index < self.raw.len {
+        if self.index < dim && self.sparse_index >= self.raw.len {
+            self.index += 1;
+            Some(0.0)
+        } else if self.index < dim {
             let raw_si = unsafe { *self.raw.indexes_ptr.add(self.sparse_index) };
 
             let si: usize = match raw_si.try_into() {
@@ -91,8 +94,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let dim = self.raw.dim();
-        (dim, Some(dim))
+        let remaining = self.raw.dim() - self.index;
+        (remaining, Some(remaining))
     }
 }
 
-- 
2.43.0


From 3bc387f9996b21f5bb8a5b83e84bcdd138e7480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 21/35] fix: a sparse cloud is empty when it has no rows

---
 pointcloud/src/data_sources/sparse_ram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/data_sources/sparse_ram.rs b/pointcloud/src/data_sources/sparse_ram.rs
index be3a4eb..d9a08f6 100644
--- a/pointcloud/src/data_sources/sparse_ram.rs
+++ b/pointcloud/src/data_sources/sparse_ram.rs
@@ -88,7 +88,7 @@ where
     }
     /// If this is empty
     fn is_empty(&self) -> bool {
-        self.row_index.len() > 1
+        self.row_index.len() <= 1
     }
     /// The dimension of the underlying data
     fn dim(&self) -> usize {
-- 
2.43.0


From 8efedba9cf758dce023a5da21b0e45bac053f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 22/35] fix: the index of a name in a glued cloud is its index
 in the glued cloud

---
 pointcloud/src/glued_data_cloud.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index 28ef578..41b9806 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -133,10 +133,12 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
         self.data_sources[i].name(j)
     }
     fn index(&self, pn: &str) -> PointCloudResult<usize> {
-        for data_source in &self.data_sources {
-            let index = data_source.index(pn);
-            if index.is_ok() {
-                return index;
+        for (i, data_source) in self.data_sources.iter().enumerate() {
+            if let Ok(j) = data_source.index(pn) {
+                let glued = self.addresses.iter().find(|(_, a)| **a == (i, j));
+                if let Some((index, _)) = glued {
+                    return Ok(*index);
+                }
             }
         }
         Err(PointCloudError::UnknownName)
-- 
2.43.0


From e04f2a9a0d9baea764030b15ca6ca24a5f906ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 23/35] fix: a glued cloud without sources is empty

---
 pointcloud/src/glued_data_cloud.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index 41b9806..4cbe4ce 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -99,11 +99,7 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
 
     /// Total number of points in the point cloud
     fn is_empty(&self) -> bool {
-        if self.data_sources.is_empty() {
-            false
-        } else {
-            self.data_sources.iter().all(|m| m.is_empty())
-        }
+        self.data_sources.iter().all(|m| m.is_empty())
     }
 
     /// The names of the data are currently a shallow wrapper around a usize.
-- 
2.43.0


From c7e77d33cd4bc28e14188b3d41851c5b400ecd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 24/35] fix: unmap the whole memory map, its length is counted
 in f32

---
 pointcloud/src/data_sources/memmapf32/unix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/data_sources/memmapf32/unix.rs b/pointcloud/src/data_sources/memmapf32/unix.rs
index 0f9cb38..a3e8e42 100644
--- a/pointcloud/src/data_sources/memmapf32/unix.rs
+++ b/pointcloud/src/data_sources/memmapf32/unix.rs
@@ -216,7 +216,7 @@ impl Drop for MmapInner {
             assert!(
                 libc::munmap(
                     self.ptr.offset(-(alignment as isize)),
-                    (self.len + alignment) as libc::size_t
+                    (self.len * std::mem::size_of::<f32>() + alignment) as libc::size_t
                 ) == 0,
                 "unable to unmap mmap: {}",
                 io::Error::last_os_error()
-- 
2.43.0


From 74a2ec95b592fbc557d9a7bd80fe86d8fc196c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:10 +0000
Subject: [PATCH 25/35] fix: count a request as in flight until it is answered
 or dropped

---
 serve_goko/src/core/internal_service.rs | 30 ++++++++++++++++++++-----
 serve_goko/src/http/message.rs          | 10 ++++++---
 serve_goko/src/http/service.rs          |  6 ++---
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/serve_goko/src/core/internal_service.rs b/serve_goko/src/core/internal_service.rs
index 3c62082..b4665f1 100644
--- a/serve_goko/src/core/internal_service.rs
+++ b/serve_goko/src/core/internal_service.rs
@@ -46,11 +46,29 @@ impl<T: Send, S: Send> Message<T, S> {
     }
 }
 
+/// Counts a request as in flight from its creation until it is dropped.
+pub(crate) struct InFlight {
+    counter: Arc<atomic::AtomicU32>,
+}
+
+impl InFlight {
+    pub(crate) fn new(counter: &Arc<atomic::AtomicU32>) -> InFlight {
+        counter.fetch_add(1, atomic::Ordering::SeqCst);
+        InFlight { counter: Arc::clone(counter) }
+    }
+}
+
+impl Drop for InFlight {
+    fn drop(&mut self) {
+        self.counter.fetch_sub(1, atomic::Ordering::SeqCst);
+    }
+}
+
 #[pin_project]
 pub struct ResponseFuture<T> {
     #[pin]
     pub(crate) response: oneshot::Receiver<Result<T,InternalServiceError>>,
-    pub(crate) flight_counter: Arc<atomic::AtomicU32>,
+    pub(crate) in_flight: Option<InFlight>,
     pub(crate) error: Option<InternalServiceError>,
 }
 
@@ -59,6 +77,7 @@ impl<T> Future for ResponseFuture<T> {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
         if let Some(err) = this.error.take() {
+            this.in_flight.take();
             return core::task::Poll::Ready(Err(err));
         }
         else {
@@ -68,7 +87,9 @@ impl<T> Future for ResponseFuture<T> {
                     Err(e) => Err(e.into())
                 }
             });
-            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            if res.is_ready() {
+                this.in_flight.take();
+            }
             res
         }
     }
@@ -111,8 +132,7 @@ impl<T: Send + 'static, S: Send + 'static> InternalServiceOperator<T, S> {
 
 
     pub(crate) fn message(&self, request: T) -> ResponseFuture<S> {
-        let flight_counter = Arc::clone(&self.in_flight);
-        self.in_flight.fetch_add(1, atomic::Ordering::SeqCst);
+        let in_flight = Some(InFlight::new(&self.in_flight));
         let (reply, response): (CoreResponseSender<S>, CoreResponseReciever<S>) = oneshot::channel();
         
         let msg = Message {
@@ -124,7 +144,7 @@ impl<T: Send + 'static, S: Send + 'static> InternalServiceOperator<T, S> {
         let error = self.request_snd.send(msg).err().map(|_e| InternalServiceError::FailedSend); 
         ResponseFuture {
             response,
-            flight_counter,
+            in_flight,
             error,
         }
     }
diff --git a/serve_goko/src/http/message.rs b/serve_goko/src/http/message.rs
index 8fa94da..377a992 100644
--- a/serve_goko/src/http/message.rs
+++ b/serve_goko/src/http/message.rs
@@ -9,8 +9,9 @@ use std::future::Future;
 use std::pin::Pin;
 use std::task::Poll;
 
-use std::sync::{atomic, Arc, Mutex};
+use std::sync::{Arc, Mutex};
 
+use crate::core::internal_service::InFlight;
 use crate::errors::{GokoClientError, InternalServiceError};
 
 pub(crate) type HttpResponseSender = oneshot::Sender<Result<Response<Body>, GokoClientError>>;
@@ -52,7 +53,7 @@ impl HttpMessage {
 pub struct ResponseFuture {
     #[pin]
     pub(crate) response: HttpResponseReciever,
-    pub(crate) flight_counter: Arc<atomic::AtomicU32>,
+    pub(crate) in_flight: Option<InFlight>,
     pub(crate) error: Option<GokoClientError>,
 }
 
@@ -61,6 +62,7 @@ impl Future for ResponseFuture {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
         if let Some(err) = this.error.take() {
+            this.in_flight.take();
             return core::task::Poll::Ready(Err(err));
         }
         else {
@@ -70,7 +72,9 @@ impl Future for ResponseFuture {
                     Err(e) => Err(GokoClientError::from(e))
                 }
             });
-            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            if res.is_ready() {
+                this.in_flight.take();
+            }
             res
         }
     }
diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index aff8dce..4682876 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -26,6 +26,7 @@ use crate::parsers::PointBuffer;
 use crate::errors::*;
 use crate::api::*;
 use crate::core::*;
+use crate::core::internal_service::InFlight;
 
 
 pub struct GokoHttp<D: PointCloud, P: PointParser> {
@@ -202,8 +203,7 @@ where
     }
 
     pub(crate) fn message(&self, request: Request<Body>) -> ResponseFuture {
-        let flight_counter = Arc::clone(&self.in_flight);
-        self.in_flight.fetch_add(1, atomic::Ordering::SeqCst);
+        let in_flight = Some(InFlight::new(&self.in_flight));
         let (reply, response): (HttpResponseSender, HttpResponseReciever) = oneshot::channel();
         
         let msg = HttpMessage {
@@ -215,7 +215,7 @@ where
         let error = self.request_snd.send(msg).err().map(|_e| GokoClientError::Underlying(InternalServiceError::FailedSend)); 
         ResponseFuture {
             response,
-            flight_counter,
+            in_flight,
             error,
         }
     }
-- 
2.43.0


From 4dbcbb61b75adf09a60b9fd4c41cf86ff7a3d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:10 +0000
Subject: [PATCH 26/35] fix: answer an unparsable k instead of panicking the
 http worker

---
 serve_goko/src/http/service.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index 4682876..134a014 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -38,14 +38,16 @@ pub struct GokoHttp<D: PointCloud, P: PointParser> {
 }
 
 
-fn parse_knn_query(uri: &Uri) -> usize {
+fn parse_knn_query(uri: &Uri) -> Result<usize, GokoClientError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(r"k=(?P<k>\d+)").unwrap();
     }
 
     match uri.query().map(|s| RE.captures(s)).flatten() {
-        Some(caps) => caps["k"].parse::<usize>().unwrap(),
-        None => 10,
+        Some(caps) => caps["k"]
+            .parse::<usize>()
+            .map_err(|_| GokoClientError::MalformedQuery("Unable to parse k.")),
+        None => Ok(10),
     }
 }
 
@@ -74,12 +76,12 @@ pub(crate) async fn parse_http<P: PointParser>(request: Request<Body>, parser: &
         // Serve some instructions at /
         (&Method::GET, "/") => Ok(GokoRequest::Parameters(ParametersRequest)),
         (&Method::GET, "/knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri())?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::Knn(KnnRequest { point, k }))
         }
         (&Method::GET, "/routing_knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri())?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::RoutingKnn(RoutingKnnRequest { point, k }))
 
-- 
2.43.0


From 2bc29c304a9ac7f675559ed3041e3b783ee3fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:10 +0000
Subject: [PATCH 27/35] fix: answer an unreadable content type instead of
 panicking the http worker

---
 serve_goko/src/parsers/msgpack_dense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serve_goko/src/parsers/msgpack_dense.rs b/serve_goko/src/parsers/msgpack_dense.rs
index 6697971..80160be 100644
--- a/serve_goko/src/parsers/msgpack_dense.rs
+++ b/serve_goko/src/parsers/msgpack_dense.rs
@@ -45,7 +45,7 @@ impl PointParser for MsgPackDense {
         scratch_buffer.clear();
         let mut reader = match request.headers().get(CONTENT_TYPE) {
             Some(typestr) => {
-                let token = typestr.to_str().unwrap();
+                let token = typestr.to_str().map_err(|e| GokoClientError::parse(Box::new(e)))?;
                 match token {
                     "zlib" => {
                         Readers::Zlib(DeflateDecoder::new(body_buffer))
-- 
2.43.0


From 8e6d3cd69f3bfaa928c49e7ee57e519bbd460f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:10 +0000
Subject: [PATCH 28/35] fix: a request body of unknown length ends when its
 data does

---
 serve_goko/src/parsers/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serve_goko/src/parsers/mod.rs b/serve_goko/src/parsers/mod.rs
index 86b0e28..ce89120 100644
--- a/serve_goko/src/parsers/mod.rs
+++ b/serve_goko/src/parsers/mod.rs
@@ -48,6 +48,8 @@ impl<P: PointParser> PointBuffer<P> {
     pub(crate) fn poll_point(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<P::Point, GokoClientError>> {
         let this = self.project();
         let mut body = this.request.body_mut();
+        // Bodies of unknown length never report their end, they only run out of data.
+        let mut body_ended = false;
         loop {
             let new_bytes = match Pin::new(&mut body).poll_data(cx) {
                 Poll::Ready(data) => data,
@@ -67,12 +69,12 @@ impl<P: PointParser> PointBuffer<P> {
                 }
             } else {
                 match Pin::new(&mut body).poll_trailers(cx) {
-                    Poll::Ready(_) => (),
+                    Poll::Ready(_) => body_ended = true,
                     Poll::Pending => return Poll::Pending,
                 }
             }
 
-            if body.is_end_stream() {
+            if body_ended || body.is_end_stream() {
                 let point_res = P::parse(this.body_buffer, this.point_buffer, this.request);
                 this.body_buffer.clear();
                 this.point_buffer.clear();
-- 
2.43.0


From 325a6524370a4e8bce18e9049e1cbee6213730bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:18 +0000
Subject: [PATCH 29/35] fix: distances in more than 300000 dimensions take at
 least one point per chunk

---
 pointcloud/src/base_traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointcloud/src/base_traits.rs b/pointcloud/src/base_traits.rs
index 8ee6c1f..00f13d6 100644
--- a/pointcloud/src/base_traits.rs
+++ b/pointcloud/src/base_traits.rs
@@ -1,7 +1,7 @@
 use std::sync::Mutex;
 
 use rayon::prelude::*;
-use std::cmp::min;
+use std::cmp::{max, min};
 use std::fmt::Debug;
 
 use std::ops::Deref;
@@ -39,7 +39,7 @@ use ndarray::{Array1, Array2};
 
 #[inline]
 fn chunk(data_dim: usize) -> usize {
-    min(300000 / data_dim, 100)
+    max(min(300000 / data_dim, 100), 1)
 }
 
 /// Base trait for a point cloud
-- 
2.43.0


From 4076076edb2ecc342d3ab2d8dac466446797c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:15 +0000
Subject: [PATCH 30/35] fix: the L1 distance is the sum of absolute
 differences, not its root

---
 pointcloud/src/metrics/l1_f32.rs  | 8 ++++----
 pointcloud/src/metrics/l1_misc.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pointcloud/src/metrics/l1_f32.rs b/pointcloud/src/metrics/l1_f32.rs
index f082650..18127f7 100644
--- a/pointcloud/src/metrics/l1_f32.rs
+++ b/pointcloud/src/metrics/l1_f32.rs
@@ -8,25 +8,25 @@ use std::ops::Deref;
 
 impl Metric<[f32]> for L1 {
     fn dist(x: &[f32], y: &[f32]) -> f32 {
-        l1_dense_f32(x.deref(), y.deref()).sqrt()
+        l1_dense_f32(x.deref(), y.deref())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u32>> for L1 {
     fn dist(x: &RawSparse<f32, u32>, y: &RawSparse<f32, u32>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u16>> for L1 {
     fn dist(x: &RawSparse<f32, u16>, y: &RawSparse<f32, u16>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u8>> for L1 {
     fn dist(x: &RawSparse<f32, u8>, y: &RawSparse<f32, u8>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
diff --git a/pointcloud/src/metrics/l1_misc.rs b/pointcloud/src/metrics/l1_misc.rs
index f8325c8..27ebaeb 100644
--- a/pointcloud/src/metrics/l1_misc.rs
+++ b/pointcloud/src/metrics/l1_misc.rs
@@ -118,25 +118,25 @@ macro_rules! make_l1_distance {
         }
         impl Metric<[$base]> for L1 {
             fn dist(x: &[$base], y: &[$base]) -> f32 {
-                $dist_base(x.deref(), y.deref()).sqrt()
+                $dist_base(x.deref(), y.deref())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u32>> for L1 {
             fn dist(x: &RawSparse<$base, u32>, y: &RawSparse<$base, u32>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u16>> for L1 {
             fn dist(x: &RawSparse<$base, u16>, y: &RawSparse<$base, u16>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u8>> for L1 {
             fn dist(x: &RawSparse<$base, u8>, y: &RawSparse<$base, u8>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
     };
-- 
2.43.0


From 5385e86769bd06f0d330814192dfc130da0f796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:52 +0000
Subject: [PATCH 31/35] fix: forget nodes that left a tracker's window

---
 goko/src/plugins/discrete/tracker.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 542815c..f541c6e 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -110,6 +110,14 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
             .get_mut(&last)
             .unwrap()
             .remove_child_pop(None, 1.0);
+        // nodes that no element of the window touches are not part of the sequence anymore
+        for (_, address) in trace {
+            if let Some(evidence) = self.running_evidence.get(address) {
+                if evidence.total() <= 0.0 {
+                    self.running_evidence.remove(address);
+                }
+            }
+        }
     }
 
     /// Gives the probability vector for this
-- 
2.43.0


From c89604e23a9e939ca7fd14cd5cfb7241018007f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:14 +0000
Subject: [PATCH 32/35] fix: flushing a map that was never refreshed publishes
 its writes

---
 goko/src/monomap/write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index b67abac..fe9a0eb 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -264,7 +264,8 @@ where
     /// `MonoWriteHandle::refresh` will *always* wait for old readers to depart and swap the maps.
     /// This method will only do so if there are pending operations.
     pub fn flush(&mut self) -> &mut Self {
-        if !self.pending().is_empty() {
+        // before the first refresh the operations are not in the log
+        if self.first || !self.pending().is_empty() {
             self.refresh();
         }
 
-- 
2.43.0


From bfef6401473c459c6faf45164fad217cf10fe946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:48 +0000
Subject: [PATCH 33/35] fix: dropping the writer of a map waits for the readers
 that are active

---
 goko/src/monomap/write.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index fe9a0eb..7108ab0 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -80,11 +80,18 @@ where
         // now, wait for all readers to depart
         let epochs = Arc::clone(&self.epochs);
         let mut epochs = epochs.lock().unwrap();
-        self.wait(&mut epochs);
 
         // ensure that the subsequent epoch reads aren't re-ordered to before the swap
         atomic::fence(atomic::Ordering::SeqCst);
 
+        // the readers to wait for are those that are active now, not those that were active at the
+        // last refresh
+        self.last_epochs = epochs
+            .iter()
+            .map(|epoch| epoch.load(atomic::Ordering::Acquire))
+            .collect();
+        self.wait(&mut epochs);
+
         let w_handle = &mut self.w_handle.as_mut().unwrap().data;
 
         #[cfg(not(feature = "indexed"))]
-- 
2.43.0


From 2147f87858581367827ab26ff5ed292913b93570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:21 +0000
Subject: [PATCH 34/35] fix: building ends when the next scale underflows to
 zero

With copies of a point and a minimum resolution whose scale is zero as a float
(for example scale base 10 and min_res_index -50), no ball of the next scale
holds its own center and the build picked centers forever, until memory ran
out. Such nodes are leaves now.
---
 goko/src/covertree/builders.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 974c418..1d8ff9d 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -122,6 +122,11 @@ impl BuilderNode {
                     parameters.min_res_index,
                 ),
             );
+            // a ball of this scale does not even hold its own center, so there's nothing to split
+            if parameters.scale_base.powi(next_scale_index) <= 0.0 {
+                node.insert_singletons(self.covered.into_indexes());
+                return Ok((node, vec![]));
+            }
             match self.covered {
                 CoveredData::FirstCoveredData(covered) => BuilderNode::split_first(
                     &mut node,
-- 
2.43.0


From cb16fa32ffc828d6233fd8df2ae8ec88ae1cb5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:01 +0000
Subject: [PATCH 35/35] fix: a read inside a read of the same map handle does
 not end the outer one

---
 goko/src/monomap/read.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/goko/src/monomap/read.rs b/goko/src/monomap/read.rs
index 33c5fc5..7d0ea1b 100644
--- a/goko/src/monomap/read.rs
+++ b/goko/src/monomap/read.rs
@@ -169,6 +169,15 @@ where
         //
         // in all cases, using a pointer we read *after* updating our epoch is safe.
 
+        // if this handle is already inside a read (`f` itself reads), its epoch says so, and the
+        // writer can modify neither copy until that read has ended. leave the epoch alone: ending
+        // the inner read must not tell the writer that the outer one is over.
+        let current = self.epoch.load(atomic::Ordering::Relaxed);
+        if current != 0 && current & (1usize << (mem::size_of::<usize>() * 8 - 1)) == 0 {
+            let r_handle = self.inner.load(atomic::Ordering::Acquire);
+            return unsafe { r_handle.as_ref().map(f) };
+        }
+
         // so, update our epoch tracker.
         let epoch = self.my_epoch.fetch_add(1, atomic::Ordering::Relaxed);
         self.epoch.store(epoch + 1, atomic::Ordering::Release);
-- 
2.43.0

