From b938cd5e6c04ba7e3f2c7645b732a4c517e59993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 1/7] Add window and order knobs for the simulator behind
 cfg(demixer_sim)

---
 Cargo.lock           |  5 ++++-
 src/lib.rs           |  2 ++
 src/predictor/mod.rs |  7 ++++++-
 src/sim_knobs.rs     | 38 ++++++++++++++++++++++++++++++++++++++
 4 files changed, 50 insertions(+), 2 deletions(-)
 create mode 100644 src/sim_knobs.rs

diff --git a/Cargo.lock b/Cargo.lock
index 951cf40..d4d3370 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,4 +1,7 @@
+# This file is automatically @generated by Cargo.
+# It is not intended for manual editing.
+version = 4
+
 [[package]]
 name = "demixer"
 version = "0.10.3"
-
diff --git a/src/lib.rs b/src/lib.rs
index aa43655..0a62ed3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,6 +26,8 @@ pub mod lut;
 pub mod mixing;
 pub mod predictor;
 pub mod random;
+#[cfg(demixer_sim)]
+pub mod sim_knobs;
 pub mod util;
 
 pub const DO_CHECKS: bool = true;
diff --git a/src/predictor/mod.rs b/src/predictor/mod.rs
index 045dbdf..fb553bb 100644
--- a/src/predictor/mod.rs
+++ b/src/predictor/mod.rs
@@ -45,10 +45,15 @@ impl<'a> Predictor<'a> {
     const MAX_ORDER: usize = 20;
 
     pub fn new(luts: &'a LookUpTables) -> Self {
+        let max_window_size = 10_000_000;
         let max_order = Self::MAX_ORDER;
+        #[cfg(demixer_sim)]
+        let (max_window_size, max_order) =
+            ::sim_knobs::limits(max_window_size, max_order);
         Predictor {
             last_bytes: LastBytesCache::new(),
-            tree_source: TreeHistorySource::new(10_000_000, max_order, luts),
+            tree_source: TreeHistorySource::new(
+                max_window_size, max_order, luts),
             contexts_chain: CollectedContextStates::new(max_order),
             contexts_chain_predictor: ContextsChainPredictionMixer::new(
                 max_order, luts),
diff --git a/src/sim_knobs.rs b/src/sim_knobs.rs
new file mode 100644
index 0000000..1e79ac7
--- /dev/null
+++ b/src/sim_knobs.rs
@@ -0,0 +1,38 @@
+/*
+ *  demixer - file compressor aimed at high compression ratios
+ *  Copyright (C) 2018  Piotr Tarsa ( https://github.com/tarsa )
+ *
+ *  This program is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  This program is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with this program.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+//! Tuning knobs for the deterministic simulator, compiled only with
+//! `--cfg demixer_sim`. They let a simulated run pick the window size and
+//! the maximum order of the predictors it creates, so that sliding of the
+//! window is reached within short runs.
+
+use std::cell::Cell;
+
+thread_local! {
+    static LIMITS: Cell<Option<(usize, usize)>> = Cell::new(None);
+}
+
+/// Overrides (window size, max order) of predictors subsequently created on
+/// the current thread. `None` restores the shipped limits.
+pub fn set_limits(limits_opt: Option<(usize, usize)>) {
+    LIMITS.with(|limits| limits.set(limits_opt));
+}
+
+pub fn limits(max_window_size: usize, max_order: usize) -> (usize, usize) {
+    LIMITS.with(|limits| limits.get()).unwrap_or((max_window_size, max_order))
+}
-- 
2.43.0


From 0ed51b24c9d6522b407ede509ce12da9240c9884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 2/7] fix: keep a clean prefix and do not abort when encoder
 output fails

A writer failure made encode_bit or encode_rare_event panic and then the
destructor of the encoder kept writing while unwinding: after a transient
failure the output got a hole in the middle, after a permanent one the second
panic aborted the process.
---
 src/coding/encoder.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/coding/encoder.rs b/src/coding/encoder.rs
index b33c1e8..9f1d885 100644
--- a/src/coding/encoder.rs
+++ b/src/coding/encoder.rs
@@ -30,6 +30,7 @@ pub struct Encoder<'a> {
     last_output_byte: u8,
     delay: bool,
     carry: bool,
+    write_failed: bool,
 }
 
 impl<'a> Encoder<'a> {
@@ -42,6 +43,7 @@ impl<'a> Encoder<'a> {
             last_output_byte: 0,
             delay: false,
             carry: true,
+            write_failed: false,
         }
     }
 
@@ -85,12 +87,12 @@ impl<'a> Encoder<'a> {
             if self.delay {
                 let to_write = self.last_output_byte +
                     if self.carry { 1 } else { 0 };
-                self.writer.write_all(&[to_write]).unwrap();
+                self.write_byte(to_write);
             }
             while self.run_length_0xff > 0 {
                 self.run_length_0xff -= 1;
                 let to_write = if self.carry { 0x00 } else { 0xff };
-                self.writer.write_all(&[to_write]).unwrap();
+                self.write_byte(to_write);
             }
             self.last_output_byte = octet;
             self.delay = true;
@@ -100,6 +102,23 @@ impl<'a> Encoder<'a> {
         }
     }
 
+    /// After the first failed write nothing more is written, so the output
+    /// stays a prefix of the complete stream even if the writer recovers.
+    /// A failure met while unwinding isn't reported again, as a second panic
+    /// would abort the process.
+    fn write_byte(&mut self, octet: u8) {
+        if self.write_failed {
+            return;
+        }
+        self.write_failed = true;
+        match self.writer.write_all(&[octet]) {
+            Ok(()) => self.write_failed = false,
+            Err(error) => if !::std::thread::panicking() {
+                panic!("writing encoded output failed: {}", error);
+            },
+        }
+    }
+
     fn add_with_carry(&mut self, cumulative_exclusive_fraction: i32) {
         self.rc_buffer =
             self.rc_buffer.wrapping_add(cumulative_exclusive_fraction);
-- 
2.43.0


From dfb85063ed50ed5d1e9d13ca14fd1950993fc354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 3/7] fix: measure durations with a monotonic clock

The wall clock may be set back during a run, duration_since then fails and
the unwrap discards all results.
---
 src/bin/bench_sigmoid.rs | 14 +++++++-------
 src/main.rs              |  8 ++++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/bin/bench_sigmoid.rs b/src/bin/bench_sigmoid.rs
index 6dcc15a..b692bae 100644
--- a/src/bin/bench_sigmoid.rs
+++ b/src/bin/bench_sigmoid.rs
@@ -21,7 +21,7 @@ use demixer::fixed_point::FixedPoint;
 use demixer::fixed_point::types::StretchedProbD;
 use demixer::lut::LookUpTables;
 use demixer::random::MersenneTwister;
-use std::time::SystemTime;
+use std::time::Instant;
 
 fn main() {
     let elems = 1000;
@@ -39,15 +39,15 @@ fn main() {
             sum_warmup += luts.squash_lut().squash(prob.clone()).raw() as u64;
         }
     }
-    let start_time_squash = SystemTime::now();
+    let start_time_squash = Instant::now();
     let mut sum_squash = 0u64;
     for _ in 0..loops {
         for prob in stretched_probs.iter() {
             sum_squash += luts.squash_lut().squash(prob.clone()).raw() as u64;
         }
     }
-    let end_time_squash = SystemTime::now();
-    let start_time_stretch = SystemTime::now();
+    let end_time_squash = Instant::now();
+    let start_time_stretch = Instant::now();
     let mut sum_stretch = 0i64;
     for _ in 0..loops {
         for prob in squashed_probs.iter() {
@@ -55,17 +55,17 @@ fn main() {
                 luts.stretch_lut().stretch(prob.clone()).raw() as i64;
         }
     }
-    let end_time_stretch = SystemTime::now();
+    let end_time_stretch = Instant::now();
     let nanos_per_squash = {
         let duration =
-            end_time_squash.duration_since(start_time_squash).unwrap();
+            end_time_squash.duration_since(start_time_squash);
         let nanos =
             duration.as_secs() as f64 * 1e9 + duration.subsec_nanos() as f64;
         nanos / (elems as f64 * loops as f64)
     };
     let nanos_per_stretch = {
         let duration =
-            end_time_stretch.duration_since(start_time_stretch).unwrap();
+            end_time_stretch.duration_since(start_time_stretch);
         let nanos =
             duration.as_secs() as f64 * 1e9 + duration.subsec_nanos() as f64;
         nanos / (elems as f64 * loops as f64)
diff --git a/src/main.rs b/src/main.rs
index 403773e..a31cffb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -18,7 +18,7 @@
 extern crate demixer;
 
 use std::io::Read;
-use std::time::SystemTime;
+use std::time::Instant;
 
 use demixer::bit::Bit;
 use demixer::fixed_point::FixedPoint;
@@ -42,11 +42,11 @@ fn print_banner() {
 
 fn estimate_compression(file_name: &String) -> std::io::Result<()> {
     let file = std::fs::File::open(file_name).expect("file not found");
-    let start_time = SystemTime::now();
+    let start_time = Instant::now();
     let luts = LookUpTables::new();
     let mut predictor = Predictor::new(&luts);
     let initialization_secs = {
-        let duration = SystemTime::now().duration_since(start_time).unwrap();
+        let duration = start_time.elapsed();
         duration.as_secs() as f64 + duration.subsec_nanos() as f64 * 1e-9
     };
 
@@ -72,7 +72,7 @@ fn estimate_compression(file_name: &String) -> std::io::Result<()> {
     }
 
     let total_duration_secs = {
-        let duration = SystemTime::now().duration_since(start_time).unwrap();
+        let duration = start_time.elapsed();
         duration.as_secs() as f64 + duration.subsec_nanos() as f64 * 1e-9
     };
     let speed_bps = total_bytes as f64 / total_duration_secs;
-- 
2.43.0


From 84cca5de5191700c82da9f7b79e3b4ec6cdf5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 4/7] fix: count the cost of bits coded without any matching
 context

The total cost computed using LUTs left out every bit for which no context
was found, so it disagreed with the total computed by the main program.
---
 src/predictor/stats.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/predictor/stats.rs b/src/predictor/stats.rs
index 8c18c45..4713732 100644
--- a/src/predictor/stats.rs
+++ b/src/predictor/stats.rs
@@ -77,6 +77,11 @@ impl<'a> PredictionStatistics<'a> {
         let contexts_count = contexts.items().len();
         self.total_contexts_count += contexts_count as u64;
 
+        let bit_cost = final_probability
+            .estimate_cost(input_bit, &self.luts.log2_lut()).to_fix_i64();
+        self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
+        self.total_cost = self.total_cost.add(&bit_cost);
+
         if contexts_count > 0 {
             let max_order = contexts_count - 1;
             let stats_index = {
@@ -86,10 +91,6 @@ impl<'a> PredictionStatistics<'a> {
                 orders * 5 + unary_orders
             };
             self.per_order_counts[stats_index] += 1;
-            let bit_cost = final_probability
-                .estimate_cost(input_bit, &self.luts.log2_lut()).to_fix_i64();
-            self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
-            self.total_cost = self.total_cost.add(&bit_cost);
             self.per_order_costs[stats_index] =
                 self.per_order_costs[stats_index].add(&bit_cost);
             self.per_order_occurrences_count[stats_index] +=
-- 
2.43.0


From 4db8e6b71afd3e14857fca81e74c5b097d6866b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 5/7] fix: let print_histories handle an empty file

The empty window made the history source constructors panic.
---
 src/bin/print_histories.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/print_histories.rs b/src/bin/print_histories.rs
index 61b66c4..93f7b37 100644
--- a/src/bin/print_histories.rs
+++ b/src/bin/print_histories.rs
@@ -54,7 +54,7 @@ fn main() {
 fn print_bit_histories<'a, Source: HistorySource<'a>>(input: &[u8],
                                                       luts: &'a LookUpTables) {
     let mut collected_states = CollectedContextStates::new(MAX_ORDER);
-    let mut history_source = Source::new(input.len(), MAX_ORDER, &luts);
+    let mut history_source = Source::new(input.len().max(1), MAX_ORDER, &luts);
     for (i, &x) in input.iter().take(1234).enumerate() {
         println!("Processing byte with index: {}, {}", i, x as char);
         history_source.start_new_byte();
-- 
2.43.0


From e3c98937bc9e4b8026d53a026c04ef69d72d0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 6/7] Restore the original Cargo.lock

---
 Cargo.lock | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index d4d3370..951cf40 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,7 +1,4 @@
-# This file is automatically @generated by Cargo.
-# It is not intended for manual editing.
-version = 4
-
 [[package]]
 name = "demixer"
 version = "0.10.3"
+
-- 
2.43.0


From b67ffffaa9f7e24be9df380da052420966ece049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:21 +0000
Subject: [PATCH 7/7] fix: estimate the repeated bit of a context without
 branches, not always zero

---
 src/history/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/history/mod.rs b/src/history/mod.rs
index a324d13..21b2227 100644
--- a/src/history/mod.rs
+++ b/src/history/mod.rs
@@ -58,9 +58,16 @@ impl ContextState {
     pub fn probability_estimator(
         &self, luts: &LookUpTables) -> DeceleratingEstimator {
         match self {
-            &ContextState::ForEdge { occurrence_count, .. } =>
-                DeceleratingEstimator::make(luts.direct_predictions().
-                    for_0_bit_run(occurrence_count).0, occurrence_count),
+            &ContextState::ForEdge { occurrence_count, repeated_bit, .. } => {
+                let for_0_bit_run = luts.direct_predictions()
+                    .for_0_bit_run(occurrence_count).0;
+                let prediction = if repeated_bit.is_1() {
+                    for_0_bit_run.flip()
+                } else {
+                    for_0_bit_run
+                };
+                DeceleratingEstimator::make(prediction, occurrence_count)
+            }
             &ContextState::ForNode { probability_estimator, .. } =>
                 probability_estimator,
         }
-- 
2.43.0

