From e5402d883407eb2b3ce87ed64fa8a6fbe693e6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 01/20] fix: Bitset::disable_bit clears the bit

It called enable_bit and set the bit instead.
---
 src/bitset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitset.rs b/src/bitset.rs
index 3e36f45..046dfc5 100644
--- a/src/bitset.rs
+++ b/src/bitset.rs
@@ -49,7 +49,7 @@ impl Bitset {
     pub fn disable_bit(&mut self, index: usize) {
         let i = index / BitBlock::nbits();
         let j = index % BitBlock::nbits();
-        self.blocks[i].enable_bit(j)
+        self.blocks[i].disable_bit(j)
     }
 }
 
-- 
2.43.0


From 5a13e9ec29751d57e7ad624c10534f859a1a4dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 02/20] fix: group high-cardinality categories by the gradients
 of their own rows

With example sampling the gradient was looked up by the position in the bag
instead of the row number.
---
 src/dataset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 79e5b2e..f3052ac 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -122,10 +122,10 @@ impl <'a> InnerDataset<'a> {
 
         // collect gradient sums & counts per categorical value
         let mut grad_stat_pairs: Vec<(NumT, u32)> = vec![(0.0, 0); card];
-        for (i, j) in example_iter.into_iter().enumerate() {
+        for j in example_iter {
             let category = into_cat(data[j]) as usize;
             let entry = &mut grad_stat_pairs[category];
-            entry.0 += grad[i];
+            entry.0 += grad[j];
             entry.1 += 1;
         }
 
-- 
2.43.0


From 6b1f095ad63f470ab0b2cd7714ade4e8af4f10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 03/20] fix: no rank underflow with more bins than twice the
 active examples

---
 src/dataset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index f3052ac..83a2a12 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -143,7 +143,7 @@ impl <'a> InnerDataset<'a> {
         // extract quantiles
         let extractor = |bin: &u32| *bin;
         let rank_step = self.nactive_examples as NumT / (config.max_nbins + 1) as NumT;
-        let ranks = (1..=config.max_nbins).map(|i| (i as NumT * rank_step).round() as u32 - 1);
+        let ranks = (1..=config.max_nbins).map(|i| ((i as NumT * rank_step).round() as u32).saturating_sub(1));
         let qbins = binner.rank_iter(ranks, extractor);
         let mut last_bin = usize::max_value();
         let mut split_weights = Vec::with_capacity(config.max_nbins);
-- 
2.43.0


From 200f95c8f8ae6b7ccb31923e6ecb8e778043d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 04/20] fix: L1 and Huber quantiles of equal values

Constant targets or residuals (a single example, for instance) made the
binner panic on its empty value range.
---
 src/objective.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/objective.rs b/src/objective.rs
index 5b21e9c..0405201 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -126,20 +126,23 @@ macro_rules! quantile {
         $targets[$i] - $self.predictions[$i]
     }};
     (of $values:ident: $q:expr, $self:ident, $limits:expr, $targets:ident, $irange:expr) => {{
-        let bins = &mut $self.bins;
-        bins.iter_mut().for_each(|x| *x = 0);
-
-        let mut binner = Binner::new(bins, $limits);
-        let mut count = 0;
-        for i in $irange {
-            let value = quantile!(@get_value $values: $self, $targets, i);
-            count += 1;
-            binner.insert(value, 1, |x, y| *x += y);
-        }
+        let (lo, hi) = $limits;
+        if lo < hi {
+            let bins = &mut $self.bins;
+            bins.iter_mut().for_each(|x| *x = 0);
+
+            let mut binner = Binner::new(bins, (lo, hi));
+            let mut count = 0;
+            for i in $irange {
+                let value = quantile!(@get_value $values: $self, $targets, i);
+                count += 1;
+                binner.insert(value, 1, |x, y| *x += y);
+            }
 
-        let rank = ((count as NumT) * $q).floor() as u32;
-        let bin = binner.bin_with_rank(rank, |&x| x);
-        binner.bin_representative(bin + 1)
+            let rank = ((count as NumT) * $q).floor() as u32;
+            let bin = binner.bin_with_rank(rank, |&x| x);
+            binner.bin_representative(bin + 1)
+        } else { lo } // all values are equal
     }}
 }
 
-- 
2.43.0


From 0472cf0e1a5b1a739dd7495f077980392baae9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 05/20] fix: no candidate splits for high-cardinality features
 when the gradient bounds coincide

The binner panicked on the empty range, e.g. once the targets are fitted
perfectly.
---
 src/dataset.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dataset.rs b/src/dataset.rs
index 83a2a12..85a9156 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -120,6 +120,13 @@ impl <'a> InnerDataset<'a> {
         let data = self.data.get_feature(feat_id);
         let card = self.data.feat_card(feat_id);
 
+        // all gradients are equal: there is nothing to order the categories by
+        if !(grad_bounds.0 < grad_bounds.1) {
+            self.used_nbins[feat_id] = 0;
+            self.supercats[feat_id] = vec![0; card];
+            return;
+        }
+
         // collect gradient sums & counts per categorical value
         let mut grad_stat_pairs: Vec<(NumT, u32)> = vec![(0.0, 0); card];
         for j in example_iter {
-- 
2.43.0


From 5078b31e334a41e8b84a1dc4c6a592308eec2c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 06/20] fix: numerical candidate splits contain exactly the
 values below the split value

The masks used while training followed the quantile bins, prediction tests
value < split; values near a bin edge or in the last bin were sent to
different leaves by the two.
---
 src/dataset.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 85a9156..1c8d59e 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -259,10 +259,14 @@ impl <'a> InnerDataset<'a> {
             //}
             //println!("NUM CAT = {} [ max={} feat_value={} < {:?}]", cat, nsplit_candidates,
             //         feat_value, split_candidates.get(cat));
-            let alt_cat = binner.bin_value(binner.get_bin(feat_value));
+            let mut alt_cat = binner.bin_value(binner.get_bin(feat_value)) as usize;
             //println!("alt_cat = {}, cat = {}", alt_cat, cat);
             //cat
-            alt_cat as usize
+            // a bin can contain values on both sides of a split candidate (rounding, last bin), but
+            // prediction uses `feat_value < split`
+            while alt_cat > 0 && feat_value < split_candidates[alt_cat - 1] { alt_cat -= 1; }
+            while split_candidates.get(alt_cat).map_or(false, |&s| feat_value >= s) { alt_cat += 1; }
+            alt_cat
         };
         Self::zero_bitvecs(&mut self.store, bitvecs);
         Self::fill_bitvecs(&mut self.store, bitvecs, example_iter, get_cat);
-- 
2.43.0


From c5e86097634528d3c9602e4654e30fb76cb78811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 07/20] fix: histograms keep the gradient sums of small bins

Bins with fewer than min_examples_leaf examples got the sum 0. The histogram
of the right child is parent minus left child, so its sums were wrong
whenever the left child had such a bin, and bad splits were chosen.
---
 src/tree/learner.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index 052f369..f1b7236 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -723,7 +723,6 @@ macro_rules! build_histograms {
             let mask_store = &this.ctx.mask_store;
             let grad_store = &this.ctx.grad_store;
             let idx_store = &this.ctx.idx_store;
-            let config = this.ctx.config;
 
             //for &feat_id in this.dataset.active_features() {
             //    // For each possible split, compute left grad & count stats
@@ -750,7 +749,7 @@ macro_rules! build_histograms {
                     let fmask = dataset.get_bitvec(feat_id, split_id);
                     let (grad_sum, example_count) = get_grad_sum(n2s, &fmask,
                                                                  mask_store, grad_store, idx_store,
-                                                                 grad_bounds, config);
+                                                                 grad_bounds);
                     let histval = HistVal { grad_sum, example_count };
                     (feat_id, split_id, histval)
                 })
@@ -806,8 +805,7 @@ macro_rules! get_grad_sum {
               mask_store: &BitBlockStore,
               grad_store: &BitBlockStore,
               idx_store: &BitBlockStore,
-              grad_bounds: (NumT, NumT),
-              config: &Config)
+              grad_bounds: (NumT, NumT))
             -> (NumT, u32)
         {
             let ems = mask_store.get_bitvec(n2s.mask_range);
@@ -815,7 +813,7 @@ macro_rules! get_grad_sum {
 
             if !n2s.compressed {
                 let count = ems.count_ones_and(&fmask) as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
+                if count == 0 { return (0.0, 0); }
                 let sum = unsafe { grads.sum_all_masked2_unsafe(&ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
@@ -823,7 +821,7 @@ macro_rules! get_grad_sum {
             } else {
                 let indices = idx_store.get_bitvec(n2s.idx_range);
                 let count = unsafe { ems.count_ones_and_compr_unsafe(&indices, &fmask) } as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
+                if count == 0 { return (0.0, 0); }
                 let sum = unsafe { grads.sum_all_masked2_compr_unsafe(&indices, &ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
-- 
2.43.0


From c87ba104ca19e9ab8df65554e2af13a60f94c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 08/20] fix: setting feature data replaces the feature
 completely

Limits always included 0 and those of earlier data, cardinality and type of
earlier data were kept, and an invalid category left the feature half
written.
---
 src/data.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data.rs b/src/data.rs
index d457d67..49aeaa2 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -150,17 +150,22 @@ impl Data {
         -> Result<(), String>
     {
         assert_eq!(data.len(), self.nexamples);
+        if categorical { // check first: a failure leaves the feature as it was
+            for &value in data { Self::check_categorical_value(value)?; }
+        }
         let feat = &mut self.features[feat_id];
         let flim = &mut self.limits[feat_id];
         let card = &mut self.cards[feat_id];
         assert_eq!(feat.len(), self.nexamples);
+        *flim = (POS_INF, NEG_INF);
+        *card = 0;
+        self.ftypes[feat_id] = FeatType::Numerical;
         for i in 0..self.nexamples {
             let value = data[i];
             feat[i] = value;
             *flim = (flim.0.min(value), flim.1.max(value));
 
             if categorical {
-                Self::check_categorical_value(value)?;
                 *card = (*card).max(1 + into_cat(value) as usize);
             }
         }
-- 
2.43.0


From 014eece4441c718dc1c8cf301905c55f4c141384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 09/20] fix: CSV text without records is an error instead of a
 panic

---
 src/data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index 49aeaa2..6ee626f 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -92,6 +92,8 @@ impl Data {
             record_count += 1;
         }
 
+        if record_len == 0 { return Err("CSV error: no records".to_string()); }
+
         // update feature types to high cardinality categorical if cards exceeds max_nbins
         for j in 0..record_len {
             if cards[j] > config.max_nbins {
-- 
2.43.0


From be1e43dfe36afe0106fb88a2edd85716e12d9bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 10/20] fix: infinity is not a valid category

---
 src/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data.rs b/src/data.rs
index 6ee626f..1e6e87a 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -211,7 +211,7 @@ impl Data {
     }
 
     fn check_categorical_value(value: NumT) -> Result<(), String> {
-        if value.round() != value || value < 0.0 {
+        if value.round() != value || value < 0.0 || !value.is_finite() {
             Err(format!("Invalid categorical value {}", value))
         } else {
             Ok(())
-- 
2.43.0


From fcdfd61bc63bab43836dee9068eed133cc202322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 11/20] fix: configuration values may contain '='

Everything after a second equals sign was dropped silently, for instance
from file names.
---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 2523bd0..e82dc33 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -66,7 +66,7 @@ macro_rules! parse_config {
             }
 
             fn parse_record_str<'a>(&mut self, line: &'a str) -> Result<(), String> {
-                let mut iter = line.split('=');
+                let mut iter = line.splitn(2, '=');
                 let name = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 let value = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 self.parse_record(name.trim(), value.trim())?;
-- 
2.43.0


From fa5d7238d967f9760bb15ab1875da951f1880dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 12/20] fix: train on data without any candidate splits

No features, or only single-category ones, made the histogram allocation
panic.
---
 src/slice_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/slice_store.rs b/src/slice_store.rs
index 0be79c9..52bc19e 100644
--- a/src/slice_store.rs
+++ b/src/slice_store.rs
@@ -299,7 +299,8 @@ where T: Clone + Default {
 
     pub fn alloc_hists(&mut self) -> SliceRange {
         let total_bins = *self.hist_layout.last().unwrap();
-        self.slice_store.alloc_slice(total_bins, T::default())
+        // without any bins there are no splits, but slices are never empty
+        self.slice_store.alloc_slice(total_bins.max(1), T::default())
     }
 
     pub fn free_hists(&mut self, r: SliceRange) {
-- 
2.43.0


From 611449373e8182cea76f90a4225a3ff0ac65712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 13/20] fix: finite starting value for binary targets of a
 single class

The log-odds were infinite and training panicked.
---
 src/objective.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objective.rs b/src/objective.rs
index 0405201..a1df040 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -336,6 +336,7 @@ impl Objective for Binary {
         let nneg = targets.iter().filter(|&x| *x < 0.5).count() as NumT;
         let npos = n as NumT - nneg;
         let avg  = (-1.0 * nneg + 1.0 * npos) / n as NumT;
+        let avg  = avg.max(EPSILON - 1.0).min(1.0 - EPSILON); // finite prior for a single class
         let prior = 0.5 * ((1.0 + avg) / (1.0 - avg)).ln();
 
         self.initialize_base(config, n, prior);
-- 
2.43.0


From 8d3b89f1b7055a6740c928e54039a8faad7c8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 14/20] fix: sign of the Huber gradients

Gradients are the negative residuals, as for the other objectives.
---
 src/objective.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/objective.rs b/src/objective.rs
index a1df040..d6bf643 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -295,9 +295,9 @@ impl Objective for Huber {
             let err = targets[i] - self.predictions[i];
             let err_abs = err.abs();
             if err_abs <= self.delta {
-                self.gradients[i] = err;
+                self.gradients[i] = -err;
             } else {
-                self.gradients[i] = self.delta * err.signum();
+                self.gradients[i] = -self.delta * err.signum();
             }
         }
     }
-- 
2.43.0


From bd52c8562ba1720d6b5556f1ef109aedc020b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 15/20] fix: a bag always has at least one example

Small example fractions were rounded to an empty bag and training panicked.
---
 src/dataset.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dataset.rs b/src/dataset.rs
index 1c8d59e..204985d 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -44,6 +44,7 @@ impl <'a> InnerDataset<'a> {
         let nfeatures = data.nfeatures();
         let nexamples = data.nexamples();
         let nactive_examples = (nexamples as NumT * config.example_fraction).round() as usize;
+        let nactive_examples = nactive_examples.max(1); // a tree needs an example
 
         let mut bitvecs      = vec![Vec::new(); nfeatures];
         let split_candidates = vec![Vec::new(); nfeatures];
-- 
2.43.0


From f2ae2c0afb7ec28f673db30297b71baa55df1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 16/20] fix: binary loss of confident wrong predictions does
 not overflow

---
 src/metric.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index 19016a2..d2cac3c 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -97,7 +97,8 @@ impl Rmse {
 pub struct BinaryLoss {}
 impl_metric!(BinaryLoss, eval_one: |_, t: NumT, p: NumT| {
     let y = 2.0 * t - 1.0;
-    (1.0 + (-2.0 * y * p).exp()).ln()
+    let x = -2.0 * y * p;
+    NumT::max(x, 0.0) + (-x.abs()).exp().ln_1p() // = ln(1 + exp(x)), without overflow
 });
 
 impl BinaryLoss {
-- 
2.43.0


From b9e94924df2125bc858b5044399d9222492664e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 17/20] fix: the Python wrapper raises when a native call fails

---
 python/bitboost/bitboost.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index 39fc3ee..3d086c7 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -111,6 +111,10 @@ class RawBitBoost:
         if not self._ctx_ptr:
             raise Exception("no BitBoost context")
 
+    def _call(self, fun, *args):
+        if fun(self._ctx_ptr, *args) != 0:
+            raise Exception("BitBoost call {} failed".format(fun.__name__))
+
     def set_feature_data(self, feat_id, data, is_categorical):
         self._check()
         assert isinstance(data, np.ndarray)
@@ -120,7 +124,7 @@ class RawBitBoost:
         data = data.copy() # make copy to ensure congiguous, not optimal
         data_ptr = data.ctypes.data_as(self.numt_p)
         is_cat = 1 if is_categorical else 0
-        self._rust_set_fdata(self._ctx_ptr, feat_id, data_ptr, is_cat)
+        self._call(self._rust_set_fdata, feat_id, data_ptr, is_cat)
 
     def set_data(self, data, cat_features = set()):
         self._check()
@@ -129,7 +133,7 @@ class RawBitBoost:
         assert data.shape[1] == self._nfeatures
 
         self._nexamples = data.shape[0]
-        self._rust_refresh_data(self._ctx_ptr, self._nexamples)
+        self._call(self._rust_refresh_data, self._nexamples)
 
         for feat_id in range(self._nfeatures):
             is_cat = feat_id in cat_features
@@ -146,7 +150,7 @@ class RawBitBoost:
                 value = ",".join(map(str, value))
         n = c_char_p(bytes(str(name), "utf8"))
         v = c_char_p(bytes(str(value), "utf8"))
-        self._rust_set_config_field(self._ctx_ptr, n, v)
+        self._call(self._rust_set_config_field, n, v)
 
     def set_config(self, values):
         self._check()
@@ -156,14 +160,14 @@ class RawBitBoost:
 
     def train(self):
         self._check()
-        self._rust_train(self._ctx_ptr)
+        self._call(self._rust_train)
 
     def predict(self):
         self._check()
         assert self._nexamples > 0
         output = np.zeros(self._nexamples, dtype=self.numt)
         output_ptr = output.ctypes.data_as(self.numt_p)
-        self._rust_predict(self._ctx_ptr, output_ptr)
+        self._call(self._rust_predict, output_ptr)
         return output
 
     def write_model(self):
-- 
2.43.0


From 03f3289276136a9777197f3596d79e72c89db555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 18/20] fix: the Python wrapper checks the length of columns
 before the native code reads them

---
 python/bitboost/bitboost.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index 3d086c7..0051736 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -119,6 +119,7 @@ class RawBitBoost:
         self._check()
         assert isinstance(data, np.ndarray)
         assert data.dtype == self.numt
+        assert data.shape == (self._nexamples,)
         assert 0 <= feat_id and feat_id <= self._nfeatures
         assert isinstance(is_categorical, bool) 
         data = data.copy() # make copy to ensure congiguous, not optimal
-- 
2.43.0


From 434a979581f44689fd007982cc4a20e16df216ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 19/20] fix: the Python estimator converts targets and
 prediction inputs to the number type

---
 python/bitboost/sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/bitboost/sklearn.py b/python/bitboost/sklearn.py
index aa03891..1e7d34b 100644
--- a/python/bitboost/sklearn.py
+++ b/python/bitboost/sklearn.py
@@ -44,7 +44,7 @@ class BitBoost(BaseEstimator):
         self._bitboost = RawBitBoost(nfeatures, nexamples)
         self._bitboost.set_config(self.get_params())
         self._bitboost.set_data(X, self.categorical_features)
-        self._bitboost.set_target(y)
+        self._bitboost.set_target(y.astype(self.numt))
 
         self._bitboost.train()
 
@@ -64,7 +64,7 @@ class BitBoost(BaseEstimator):
         y : ndarray, shape (n_samples,)
             Returns an array of predictions.
         """
-        X = check_array(X, accept_sparse=False)
+        X = check_array(X, accept_sparse=False, dtype=self.numt)
         check_is_fitted(self, "_is_fitted")
 
         self._bitboost.set_data(X)
-- 
2.43.0


From 417a53a2ebbae05e7b93b50997d60e6d74a9e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 20/20] fix: min_examples_leaf=0 must not produce empty leaves

---
 src/tree/learner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index f1b7236..7896b92 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -297,7 +297,7 @@ where 'a: 'b {
     fn find_best_split(&mut self, n2s: &Node2Split) -> Split {
         let mut best_split = Split::no_split();
         let mut best_gain = self.ctx.config.min_gain;
-        let min_examples = self.ctx.config.min_examples_leaf;
+        let min_examples = self.ctx.config.min_examples_leaf.max(1); // never an empty leaf
 
         let (pgrad, pcount) = (n2s.grad_sum, n2s.example_count);
         let ploss = self.get_loss(pgrad, pcount);
-- 
2.43.0

