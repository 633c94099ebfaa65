From 70f1b4454cdc5eb7b3029ce69824b2faae273617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:07 +0000
Subject: [PATCH 01/54] fix: union into an FST with states but no start state
 must offset the new start

---
 rustfst/src/algorithms/union/union_static.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/union/union_static.rs b/rustfst/src/algorithms/union/union_static.rs
index 10c8220..9cfbd3d 100644
--- a/rustfst/src/algorithms/union/union_static.rs
+++ b/rustfst/src/algorithms/union/union_static.rs
@@ -87,7 +87,7 @@ where
 
     let start1 = fst_1.start();
     if start1.is_none() {
-        unsafe { fst_1.set_start_unchecked(start2) };
+        unsafe { fst_1.set_start_unchecked(start2 + numstates1) };
         fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
         return Ok(());
     }
-- 
2.43.0


From 650e126bc333ed88aa1ec76a480d7922334a5206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:34 +0000
Subject: [PATCH 02/54] fix: condense panicked on an FST without start state

---
 rustfst/src/algorithms/condense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/condense.rs b/rustfst/src/algorithms/condense.rs
index 7a04985..391000e 100644
--- a/rustfst/src/algorithms/condense.rs
+++ b/rustfst/src/algorithms/condense.rs
@@ -27,7 +27,7 @@ pub fn condense<W: Semiring, FI: Fst<W> + ExpandedFst<W>, FO: MutableFst<W>>(
                 let c = c as StateId;
                 let s = s as StateId;
 
-                if s == ifst.start().unwrap() {
+                if Some(s) == ifst.start() {
                     ofst.set_start_unchecked(c);
                 }
                 if let Some(final_weight) = ifst.final_weight_unchecked(s) {
-- 
2.43.0


From 4f30c72f41ac712428c7fcbac30c16dde9322a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:34 +0000
Subject: [PATCH 03/54] fix: fst_convert dropped transitions and final weights
 of an FST without start state

---
 rustfst/src/algorithms/fst_convert.rs | 40 +++++++++++++--------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/rustfst/src/algorithms/fst_convert.rs b/rustfst/src/algorithms/fst_convert.rs
index ea96267..8b53645 100644
--- a/rustfst/src/algorithms/fst_convert.rs
+++ b/rustfst/src/algorithms/fst_convert.rs
@@ -16,18 +16,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for data in ifst.fst_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
-            }
-            for tr in data.trs.trs() {
-                unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
-            }
+    for data in ifst.fst_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
+        }
+        for tr in data.trs.trs() {
+            unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
+        }
 
-            if let Some(final_weight) = data.final_weight {
-                unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
-            }
+        if let Some(final_weight) = data.final_weight {
+            unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
         }
     }
 
@@ -52,18 +52,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for fst_iter_data in ifst.fst_into_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
-            }
-            for tr in fst_iter_data.trs {
-                unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
-            }
+    for fst_iter_data in ifst.fst_into_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
+        }
+        for tr in fst_iter_data.trs {
+            unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
+        }
 
-            if let Some(w) = fst_iter_data.final_weight {
-                unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
-            }
+        if let Some(w) = fst_iter_data.final_weight {
+            unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
         }
     }
 
-- 
2.43.0


From bef34c8b09a3e85e82e3a2ebac84b691e2971574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:34 +0000
Subject: [PATCH 04/54] fix: tr_unique left duplicate transitions separated by
 one with another weight

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index b7eb7d3..11e313a 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -359,7 +359,15 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
         let state = &mut self.states.get_unchecked_mut(state as usize);
         let trs_vec = Arc::make_mut(&mut state.trs.0);
         trs_vec.sort_by(tr_compare);
-        trs_vec.dedup();
+        // Copies of the same transition are not necessarily adjacent as the sort ignores the weights.
+        let mut uniq: Vec<Tr<W>> = Vec::with_capacity(trs_vec.len());
+        for tr in trs_vec.drain(..) {
+            let mut same_labels = uniq.iter().rev().take_while(|t| equal_tr(t, &tr));
+            if !same_labels.any(|t| *t == tr) {
+                uniq.push(tr);
+            }
+        }
+        *trs_vec = uniq;
 
         // There might be a better way to do this
         if state.niepsilons != 0 || state.noepsilons != 0 {
-- 
2.43.0


From 4244c3c040e0eadf4aa2961f9c57b40fadb6d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:44 +0000
Subject: [PATCH 05/54] fix: closure of the tropical zero is one, not -infinity

---
 rustfst/src/semirings/tropical_weight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/tropical_weight.rs b/rustfst/src/semirings/tropical_weight.rs
index 13663fa..bfbc062 100644
--- a/rustfst/src/semirings/tropical_weight.rs
+++ b/rustfst/src/semirings/tropical_weight.rs
@@ -116,7 +116,7 @@ impl CompleteSemiring for TropicalWeight {}
 
 impl StarSemiring for TropicalWeight {
     fn closure(&self) -> Self {
-        if self.value.is_sign_positive() && self.value.is_finite() {
+        if self.value.0 >= 0.0 {
             Self::new(0.0)
         } else {
             Self::new(f32::NEG_INFINITY)
-- 
2.43.0


From a50875c854cf4600b348ddb5cfdb4309613bf7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:44 +0000
Subject: [PATCH 06/54] fix: closure of a log weight is the log of 1/(1-p)

---
 rustfst/src/semirings/log_weight.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/semirings/log_weight.rs b/rustfst/src/semirings/log_weight.rs
index 09ee25d..067087a 100644
--- a/rustfst/src/semirings/log_weight.rs
+++ b/rustfst/src/semirings/log_weight.rs
@@ -124,8 +124,9 @@ impl CompleteSemiring for LogWeight {}
 
 impl StarSemiring for LogWeight {
     fn closure(&self) -> Self {
-        if self.value.0 >= 0.0 && self.value.0 < 1.0 {
-            Self::new((1.0 - self.value.0).ln())
+        // 1 / (1 - p) with p = exp(-value)
+        if self.value.0 > 0.0 {
+            Self::new((-(-self.value.0).exp()).ln_1p())
         } else {
             Self::new(f32::NEG_INFINITY)
         }
-- 
2.43.0


From 7e19250b55111294771dfdae6488ca422573ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:44 +0000
Subject: [PATCH 07/54] fix: implement reverse_back for ProbabilityWeight

---
 rustfst/src/semirings/probability_weight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/probability_weight.rs b/rustfst/src/semirings/probability_weight.rs
index 0591345..5da8a8a 100644
--- a/rustfst/src/semirings/probability_weight.rs
+++ b/rustfst/src/semirings/probability_weight.rs
@@ -84,7 +84,7 @@ impl Semiring for ProbabilityWeight {
 
 impl ReverseBack<ProbabilityWeight> for ProbabilityWeight {
     fn reverse_back(&self) -> Result<ProbabilityWeight> {
-        unimplemented!()
+        Ok(*self)
     }
 }
 
-- 
2.43.0


From aaf928ed4d4b846cb43459b7d99839aa9265ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:17 +0000
Subject: [PATCH 08/54] fix: depth-first visit skipped every state of an FST
 without start state, so ACYCLIC and other properties were declared falsely

---
 rustfst/src/algorithms/dfs_visit.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rustfst/src/algorithms/dfs_visit.rs b/rustfst/src/algorithms/dfs_visit.rs
index d810b21..13b9950 100644
--- a/rustfst/src/algorithms/dfs_visit.rs
+++ b/rustfst/src/algorithms/dfs_visit.rs
@@ -102,13 +102,11 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
     access_only: bool,
 ) {
     visitor.init_visit(fst);
-    let start = match fst.start() {
-        None => {
-            visitor.finish_visit();
-            return;
-        }
-        Some(s) => s,
-    };
+    let start = fst.start();
+    if start.is_none() && access_only {
+        visitor.finish_visit();
+        return;
+    }
 
     let nstates = fst.num_states();
     let mut state_color = vec![DfsStateColor::White; nstates];
@@ -116,7 +114,7 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
 
     // Continue dfs while true.
     let mut dfs = true;
-    let mut root = start;
+    let mut root = start.unwrap_or(0);
     loop {
         if !dfs || (root as usize) >= nstates {
             break;
@@ -178,7 +176,7 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
             break;
         }
 
-        root = if root == start { 0 } else { root + 1 };
+        root = if Some(root) == start { 0 } else { root + 1 };
 
         while (root as usize) < nstates && state_color[root as usize] != DfsStateColor::White {
             root += 1;
-- 
2.43.0


From b2e86205b3c82335902997bc88f4a8bd26e60ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:57 +0000
Subject: [PATCH 09/54] fix: state_sort left an FST without start state
 unsorted, and top_sort then declared it topologically sorted

---
 rustfst/src/algorithms/state_sort.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rustfst/src/algorithms/state_sort.rs b/rustfst/src/algorithms/state_sort.rs
index 30e5463..d810768 100644
--- a/rustfst/src/algorithms/state_sort.rs
+++ b/rustfst/src/algorithms/state_sort.rs
@@ -24,20 +24,17 @@ where
         order.len(),
         fst.num_states()
     );
-    if fst.start().is_none() {
-        return Ok(());
-    }
     // TODO: Use properties with mask once available
     let props = fst.properties_with_mask(FstProperties::statesort_properties());
 
-    let start_state = fst.start().unwrap();
-
     let mut done = vec![false; order.len()];
 
-    debug_assert!((start_state as usize) < order.len());
-    debug_assert!((order[start_state as usize] as usize) < fst.num_states());
+    if let Some(start_state) = fst.start() {
+        debug_assert!((start_state as usize) < order.len());
+        debug_assert!((order[start_state as usize] as usize) < fst.num_states());
 
-    fst.set_start(order[start_state as usize])?;
+        fst.set_start(order[start_state as usize])?;
+    }
 
     for mut s1 in fst.states_range() {
         if done[s1 as usize] {
-- 
2.43.0


From 0b74e2be1a0f69c404945b37ac915392b7b00905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:52 +0000
Subject: [PATCH 10/54] fix: shortest_distance tested the wrong state before
 enqueueing, so states after a self-loop were never relaxed again

---
 rustfst/src/algorithms/shortest_distance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/shortest_distance.rs b/rustfst/src/algorithms/shortest_distance.rs
index 715d16f..5030f5b 100644
--- a/rustfst/src/algorithms/shortest_distance.rs
+++ b/rustfst/src/algorithms/shortest_distance.rs
@@ -221,7 +221,7 @@ impl<W: Semiring, Q: Queue, A: TrFilter<W>> ShortestDistanceState<W, Q, A> {
                     na.plus_assign(&weight)?;
                     *nd = na.clone();
                     nr.plus_assign(&weight)?;
-                    if !self.enqueued[state] {
+                    if !self.enqueued[nextstate] {
                         self.state_queue.enqueue(nextstate as StateId);
                         self.enqueued[nextstate] = true;
                     } else {
-- 
2.43.0


From 84d1c5bae493723d36c4f45844e58a1cae3a6b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:22 +0000
Subject: [PATCH 11/54] fix: label pushing with affix removal panicked on an
 FST without successful path

---
 rustfst/src/algorithms/push.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/push.rs b/rustfst/src/algorithms/push.rs
index cfdf649..4372061 100644
--- a/rustfst/src/algorithms/push.rs
+++ b/rustfst/src/algorithms/push.rs
@@ -203,11 +203,14 @@ macro_rules! m_labels_pushing {
                 &gdistance,
                 $reweight_type == ReweightType::ReweightToInitial,
             )?;
-            if !$push_type.intersects(PushType::REMOVE_COMMON_AFFIX) {
-                total_weight.set_value1($string_weight::one());
-            }
-            if !$push_type.intersects(PushType::REMOVE_TOTAL_WEIGHT) {
-                total_weight.set_value2(W::one());
+            // Without any successful path there is nothing to remove.
+            if !total_weight.is_zero() {
+                if !$push_type.intersects(PushType::REMOVE_COMMON_AFFIX) {
+                    total_weight.set_value1($string_weight::one());
+                }
+                if !$push_type.intersects(PushType::REMOVE_TOTAL_WEIGHT) {
+                    total_weight.set_value2(W::one());
+                }
             }
             reweight(&mut gfst, gdistance.as_slice(), $reweight_type)?;
             remove_weight(
-- 
2.43.0


From 5a7457c85c8a2a5d67177117f98d3627f221cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:02 +0000
Subject: [PATCH 12/54] fix: cyclic minimization did not merge equivalent
 states whose transitions are in a different order

---
 rustfst/src/algorithms/minimize.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index 05e0e3a..ea9d374 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -486,6 +486,7 @@ fn pre_partition<W: Semiring, F: MutableFst<W>>(
                 .trs()
                 .iter()
                 .map(|e| e.ilabel)
+                .sorted()
                 .dedup()
                 .collect_vec();
 
-- 
2.43.0


From bee4f4151a53596b5fa5ae091ea005fb174498b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:02 +0000
Subject: [PATCH 13/54] fix: minimize failed on a weighted FST without start
 state

---
 rustfst/src/algorithms/minimize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index ea9d374..4c307b8 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -118,6 +118,12 @@ where
         false
     };
 
+    if ifst.start().is_none() {
+        // No state is accessible.
+        ifst.del_all_states();
+        return Ok(());
+    }
+
     if !props.contains(FstProperties::ACCEPTOR) {
         // Weighted transducer
         let mut to_gallic = ToGallicConverter {};
-- 
2.43.0


From b39fddb1757ecef84bd6fcccdf1e17c9b1a1645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:30 +0000
Subject: [PATCH 14/54] fix: minimization of a non-deterministic FST merged
 states with different languages

---
 rustfst/src/algorithms/minimize.rs  | 14 ++++++++++++--
 rustfst/src/algorithms/partition.rs |  7 ++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index 4c307b8..e52dc4f 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -528,6 +528,12 @@ fn cyclic_minimize<W: Semiring, F: MutableFst<W>>(fst: &mut F) -> Result<Rc<RefC
     let mut queue = LifoQueue::default();
     pre_partition(fst, &partition, &mut queue);
 
+    // Refining with the smaller half of a split class only is correct when each state has at most
+    // one transition per label into the class. Otherwise, both halves are needed.
+    let both_halves = !fst
+        .compute_and_update_properties(FstProperties::I_DETERMINISTIC)?
+        .contains(FstProperties::I_DETERMINISTIC);
+
     let comp = TrIterCompare {};
 
     let mut aiter_queue = BinaryHeap::new_by(|v1, v2| {
@@ -561,7 +567,9 @@ fn cyclic_minimize<W: Semiring, F: MutableFst<W>>(fst: &mut F) -> Result<Rc<RefC
             let from_state = tr.nextstate - 1;
             let from_label = tr.ilabel;
             if prev_label != from_label as i32 {
-                partition.borrow_mut().finalize_split(&mut Some(&mut queue));
+                partition
+                    .borrow_mut()
+                    .finalize_split(&mut Some(&mut queue), both_halves);
             }
             let from_class = partition.borrow().get_class_id(from_state as usize);
             if partition.borrow().get_class_size(from_class) > 1 {
@@ -574,7 +582,9 @@ fn cyclic_minimize<W: Semiring, F: MutableFst<W>>(fst: &mut F) -> Result<Rc<RefC
             }
         }
 
-        partition.borrow_mut().finalize_split(&mut Some(&mut queue));
+        partition
+            .borrow_mut()
+            .finalize_split(&mut Some(&mut queue), both_halves);
     }
 
     // Get Partition
diff --git a/rustfst/src/algorithms/partition.rs b/rustfst/src/algorithms/partition.rs
index 118a78d..3be1c19 100644
--- a/rustfst/src/algorithms/partition.rs
+++ b/rustfst/src/algorithms/partition.rs
@@ -164,12 +164,17 @@ impl Partition {
         }
     }
 
-    pub fn finalize_split<Q: Queue>(&mut self, queue: &mut Option<&mut Q>) {
+    /// Refines the visited classes. The smaller half of each class that is split is enqueued, and
+    /// the other one too if `both_halves` is true.
+    pub fn finalize_split<Q: Queue>(&mut self, queue: &mut Option<&mut Q>, both_halves: bool) {
         let visited_classes = self.visited_classes.clone();
         for visited_class in visited_classes {
             let new_class = self.split_refine(visited_class);
             if new_class != -1 && queue.as_ref().is_some() {
                 queue.as_mut().unwrap().enqueue(new_class as StateId);
+                if both_halves {
+                    queue.as_mut().unwrap().enqueue(visited_class as StateId);
+                }
             }
         }
         self.visited_classes.clear();
-- 
2.43.0


From 21853337afa27e4ecb9c955120ef6b017bc43287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 15/54] fix: epsilon mappers declared epsilons on an FST
 without transition

---
 rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs  | 4 +---
 rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
index 136c858..dfa682d 100644
--- a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
@@ -24,9 +24,7 @@ impl<S: Semiring> TrMapper<S> for InputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::I_EPSILONS
-            | FstProperties::I_LABEL_SORTED
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::I_LABEL_SORTED
     }
 }
 
diff --git a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
index 42e4ac4..73fe89a 100644
--- a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
@@ -24,9 +24,7 @@ impl<S: Semiring> TrMapper<S> for OutputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::O_EPSILONS
-            | FstProperties::O_LABEL_SORTED
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::O_LABEL_SORTED
     }
 }
 
-- 
2.43.0


From e33343e2f6ce67d13bbebca0542b125351abe012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 16/54] fix: union into an FST with states but no start state
 took over the properties of the second FST

---
 rustfst/src/algorithms/union/union_static.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/union/union_static.rs b/rustfst/src/algorithms/union/union_static.rs
index 9cfbd3d..012bfcf 100644
--- a/rustfst/src/algorithms/union/union_static.rs
+++ b/rustfst/src/algorithms/union/union_static.rs
@@ -88,7 +88,9 @@ where
     let start1 = fst_1.start();
     if start1.is_none() {
         unsafe { fst_1.set_start_unchecked(start2 + numstates1) };
-        fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        if numstates1 == 0 {
+            fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        }
         return Ok(());
     }
     let start1 = unsafe { start1.unsafe_unwrap() };
-- 
2.43.0


From fc152e068dc31558d9dd63b8b1a37dbd20c2ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:47 +0000
Subject: [PATCH 17/54] fix: replace declared properties that only hold of FSTs
 that are never called, or of labels that the calls rewrite

---
 .../src/fst_properties/mutate_properties.rs   | 46 +++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/rustfst/src/fst_properties/mutate_properties.rs b/rustfst/src/fst_properties/mutate_properties.rs
index 6fff2c0..25b6b06 100644
--- a/rustfst/src/fst_properties/mutate_properties.rs
+++ b/rustfst/src/fst_properties/mutate_properties.rs
@@ -525,28 +525,20 @@ pub fn replace_properties(
         if inprops[root as usize].contains(FstProperties::INITIAL_CYCLIC) {
             outprops |= FstProperties::INITIAL_CYCLIC;
         }
-        let mut props = FstProperties::empty();
-        let mut string = true;
-        for inprop in inprops {
-            if replace_transducer {
-                props |= FstProperties::NOT_ACCEPTOR & *inprop;
-            }
-            props |= (FstProperties::NOT_I_DETERMINISTIC
-                | FstProperties::NOT_O_DETERMINISTIC
-                | FstProperties::EPSILONS
-                | FstProperties::I_EPSILONS
-                | FstProperties::O_EPSILONS
-                | FstProperties::WEIGHTED
-                | FstProperties::WEIGHTED_CYCLES
-                | FstProperties::CYCLIC
-                | FstProperties::NOT_TOP_SORTED
-                | FstProperties::NOT_STRING)
-                & *inprop;
-            if !inprop.contains(FstProperties::STRING) {
-                string = false;
-            }
-        }
-        outprops |= props;
+        // Only the root is known to be part of the result : the other FSTs might never be called.
+        // Rewriting the labels of the calls and renumbering the states invalidate
+        // NOT_ACCEPTOR, NOT_I_DETERMINISTIC, NOT_TOP_SORTED and NOT_STRING.
+        outprops |= (FstProperties::NOT_O_DETERMINISTIC
+            | FstProperties::EPSILONS
+            | FstProperties::I_EPSILONS
+            | FstProperties::O_EPSILONS
+            | FstProperties::WEIGHTED
+            | FstProperties::WEIGHTED_CYCLES
+            | FstProperties::CYCLIC)
+            & inprops[root as usize];
+        let string = inprops
+            .iter()
+            .all(|inprop| inprop.contains(FstProperties::STRING));
         if string {
             outprops |= FstProperties::STRING;
         }
@@ -602,7 +594,15 @@ pub fn replace_properties(
     //  1. the input label of the call arc is not epsilon
     //  2. all non-terminals are negative, or
     //  3. all non-terninals are positive and form a dense range containing 1.
-    if all_ilabel_sorted && epsilon_on_return && (!epsilon_on_call || all_negative_or_dense) {
+    //
+    // The non-terminals are output labels : 2. and 3. also require the sub-FSTs to be acceptors.
+    let all_acceptors = inprops
+        .iter()
+        .all(|inprop| inprop.contains(FstProperties::ACCEPTOR));
+    if all_ilabel_sorted
+        && epsilon_on_return
+        && (!epsilon_on_call || (all_negative_or_dense && all_acceptors))
+    {
         outprops |= FstProperties::I_LABEL_SORTED;
     }
     // Similarly, the resulting ReplaceFst is known to be FstProperties::O_LABEL_SORTED when: (1)
-- 
2.43.0


From 2578a28685e2101d08c3a3086288421ba749e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:51 +0000
Subject: [PATCH 18/54] fix: del_states panicked on a state that does not exist
 instead of returning an error

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index 11e313a..4fb7554 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -133,7 +133,9 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
         let mut new_id = vec![0_i32; self.states.len()];
 
         for s in dstates {
-            new_id[s as usize] = -1;
+            *new_id
+                .get_mut(s as usize)
+                .ok_or_else(|| format_err!("State id {:?} doesn't exist", s))? = -1;
         }
 
         let mut nstates = 0_usize;
-- 
2.43.0


From bb16c5c76276313fa00b6392e618027da3c243e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:52 +0000
Subject: [PATCH 19/54] fix: to_trs_vec of a ConstFst state returned the
 transitions of all the states

---
 rustfst/src/trs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/trs.rs b/rustfst/src/trs.rs
index b20ec1f..d1f8247 100644
--- a/rustfst/src/trs.rs
+++ b/rustfst/src/trs.rs
@@ -77,7 +77,7 @@ impl<W: Semiring> Trs<W> for TrsConst<W> {
     }
 
     fn to_trs_vec(&self) -> TrsVec<W> {
-        TrsVec(Arc::clone(&self.trs))
+        TrsVec(Arc::new(self.trs().to_vec()))
     }
 
     // Doesn't clone the data, only the Arc
-- 
2.43.0


From 4ff8bcf12ce51821ede898df783630663aa6180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:52 +0000
Subject: [PATCH 20/54] fix: is_final_unchecked disagreed with is_final on a
 zero final weight

---
 rustfst/src/fst_traits/fst.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_traits/fst.rs b/rustfst/src/fst_traits/fst.rs
index 9c59c69..a760d84 100644
--- a/rustfst/src/fst_traits/fst.rs
+++ b/rustfst/src/fst_traits/fst.rs
@@ -129,7 +129,9 @@ pub trait CoreFst<W: Semiring> {
     ///
     #[inline]
     unsafe fn is_final_unchecked(&self, state: StateId) -> bool {
-        self.final_weight_unchecked(state).is_some()
+        self.final_weight_unchecked(state)
+            .map(|final_weight| final_weight != W::zero())
+            .unwrap_or(false)
     }
 
     /// Check whether a state is the start state or not.
-- 
2.43.0


From cef0486cad00d9f0553ac00bfbfb9d0eadc0ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:39 +0000
Subject: [PATCH 21/54] fix: counters of a lazy FST state were an error until
 the state had been expanded

---
 rustfst/src/algorithms/lazy/lazy_fst.rs   | 15 ++++++++++++++-
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index 60b0778..4b5a5eb 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -61,13 +61,14 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
+        self.expand_if_discovered(s)?;
         self.cache
             .num_trs(s)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -90,18 +91,30 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_if_discovered(state)?;
         self.cache
             .num_input_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_if_discovered(state)?;
         self.cache
             .num_output_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
     }
 }
 
+impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> LazyFst<W, Op, Cache> {
+    /// The counters of a state are only cached once it has been expanded.
+    fn expand_if_discovered(&self, state: StateId) -> Result<()> {
+        if (state as usize) < self.cache.num_known_states() {
+            self.get_trs(state)?;
+        }
+        Ok(())
+    }
+}
+
 impl<'a, W, Op, Cache> StateIterator<'a> for LazyFst<W, Op, Cache>
 where
     W: Semiring,
diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 853f34e..57cb8c0 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -56,13 +56,14 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
+        self.expand_if_discovered(s)?;
         self.cache
             .num_trs(s)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -86,18 +87,30 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_if_discovered(state)?;
         self.cache
             .num_input_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_if_discovered(state)?;
         self.cache
             .num_output_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
     }
 }
 
+impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> LazyFst2<W, Op, Cache> {
+    /// The counters of a state are only cached once it has been expanded.
+    fn expand_if_discovered(&self, state: StateId) -> Result<()> {
+        if (state as usize) < self.cache.num_known_states() {
+            self.get_trs(state)?;
+        }
+        Ok(())
+    }
+}
+
 impl<'a, W, Op, Cache> StateIterator<'a> for LazyFst2<W, Op, Cache>
 where
     W: Semiring,
-- 
2.43.0


From 35e187b46eb39fe19def3be5273e371f0e42b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:43 +0000
Subject: [PATCH 22/54] fix: text format lost the start state of an FST whose
 start state has no transitions

---
 rustfst/src/fst_traits/macros.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/fst_traits/macros.rs b/rustfst/src/fst_traits/macros.rs
index 8b90c9e..771760e 100644
--- a/rustfst/src/fst_traits/macros.rs
+++ b/rustfst/src/fst_traits/macros.rs
@@ -43,9 +43,31 @@ macro_rules! display_single_state {
     };
 }
 
+macro_rules! display_final_state {
+    ($fst:expr, $state_id:expr, $f: expr, $show_weight_one: expr) => {
+        let final_weight = unsafe { $fst.final_weight_unchecked($state_id).unsafe_unwrap() };
+        if final_weight.is_one() && !$show_weight_one {
+            writeln!($f, "{}", $state_id)?;
+        } else {
+            writeln!($f, "{}\t{}", $state_id, &final_weight)?;
+        }
+    };
+}
+
 macro_rules! write_fst {
     ($fst:expr, $f:expr, $show_weight_one: expr, $use_symt: expr) => {
         if let Some(start_state) = $fst.start() {
+            // The first line must be about the start state: when no tr leaves it, that line is
+            // the one of its final weight ("Infinity" if it is not final).
+            let start_without_trs = $fst.num_trs(start_state).unwrap() == 0;
+            if start_without_trs {
+                if $fst.is_final(start_state).unwrap() {
+                    display_final_state!($fst, start_state, $f, $show_weight_one);
+                } else {
+                    writeln!($f, "{}\tInfinity", start_state)?;
+                }
+            }
+
             // Firstly print the trs leaving the start state
             display_single_state!($fst, start_state, $f, $show_weight_one, $use_symt);
 
@@ -58,12 +80,8 @@ macro_rules! write_fst {
 
             // Finally, print the final states with their weight
             for final_state in $fst.final_states_iter() {
-                let final_weight =
-                    unsafe { $fst.final_weight_unchecked(final_state).unsafe_unwrap() };
-                if final_weight.is_one() && !$show_weight_one {
-                    writeln!($f, "{}", &final_state)?;
-                } else {
-                    writeln!($f, "{}\t{}", &final_state, &final_weight)?;
+                if !(start_without_trs && final_state == start_state) {
+                    display_final_state!($fst, final_state, $f, $show_weight_one);
                 }
             }
         }
-- 
2.43.0


From 404cc48edb86267f8f06bda6b2dd1ef8fb738ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:24 +0000
Subject: [PATCH 23/54] fix: writing to a file returned Ok although the last
 bytes could not be written

---
 rustfst/src/algorithms/compose/compose_fst_op.rs          | 3 ++-
 .../src/algorithms/lazy/cache/simple_hash_map_cache.rs    | 1 +
 rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs     | 1 +
 rustfst/src/fst_traits/serializable_fst.rs                | 8 +++++++-
 rustfst/src/symbol_table.rs                               | 2 ++
 5 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/compose/compose_fst_op.rs b/rustfst/src/algorithms/compose/compose_fst_op.rs
index b947e3a..c7487a2 100644
--- a/rustfst/src/algorithms/compose/compose_fst_op.rs
+++ b/rustfst/src/algorithms/compose/compose_fst_op.rs
@@ -2,7 +2,7 @@ use std::borrow::Borrow;
 use std::fmt::Debug;
 use std::fs::{read, File};
 use std::hash::Hash;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::Path;
 use std::sync::Arc;
 
@@ -60,6 +60,7 @@ impl<T: Hash + Eq + Clone + SerializeBinary> SerializableOpState for ComposeFstO
 
         // Write StateTable
         self.state_table.write_binary(&mut file)?;
+        file.flush()?;
         Ok(())
     }
 }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index 2a3bcdf..f1f216a 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -184,6 +184,7 @@ impl<W: SerializableSemiring> SerializableCache for SimpleHashMapCache<W> {
 
         // Serialize SimpleHashMapCache
         write_simple_hashmap_cache(&mut file, self)?;
+        file.flush()?;
 
         Ok(())
     }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index 47c19c5..0b9e39e 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -195,6 +195,7 @@ impl<W: SerializableSemiring> SerializableCache for SimpleVecCache<W> {
 
         // Write SimpleVecCache
         write_simple_vec_cache(&mut file, self)?;
+        file.flush()?;
 
         Ok(())
     }
diff --git a/rustfst/src/fst_traits/serializable_fst.rs b/rustfst/src/fst_traits/serializable_fst.rs
index 28a53fb..e9e249d 100644
--- a/rustfst/src/fst_traits/serializable_fst.rs
+++ b/rustfst/src/fst_traits/serializable_fst.rs
@@ -45,7 +45,11 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
                 path_bin_fst.as_ref(),
             )
         })?;
-        self.store(BufWriter::new(output))
+        let mut writer = BufWriter::new(output);
+        self.store(&mut writer)?;
+        // Errors are ignored when the writer is dropped with unwritten data.
+        writer.flush()?;
+        Ok(())
     }
 
     // TEXT
@@ -70,6 +74,7 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
         let buffer = File::create(path_output.as_ref())?;
         let mut line_writer = LineWriter::new(buffer);
         write_fst!(self, line_writer, true, false);
+        line_writer.flush()?;
         Ok(())
     }
 
@@ -127,6 +132,7 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
 
             writeln!(f, "}}")?;
         }
+        f.flush()?;
         Ok(())
     }
 }
diff --git a/rustfst/src/symbol_table.rs b/rustfst/src/symbol_table.rs
index 8b08f2a..4843cd2 100644
--- a/rustfst/src/symbol_table.rs
+++ b/rustfst/src/symbol_table.rs
@@ -268,6 +268,7 @@ impl<H: BuildHasher> SymbolTable<H> {
         let mut writer = BufWriter::new(LineWriter::new(buffer));
 
         write!(writer, "{}", self)?;
+        writer.flush()?;
 
         Ok(())
     }
@@ -277,6 +278,7 @@ impl<H: BuildHasher> SymbolTable<H> {
         let mut writer = BufWriter::new(LineWriter::new(buffer));
 
         write_bin_symt(&mut writer, self)?;
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 27e72a8cda27cd0fe15ef3b9fa60815ff01547c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:48 +0000
Subject: [PATCH 24/54] fix: loading a binary file with a string that is not
 UTF-8 panicked instead of returning an error

---
 rustfst/src/parsers/bin_fst/fst_header.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rustfst/src/parsers/bin_fst/fst_header.rs b/rustfst/src/parsers/bin_fst/fst_header.rs
index 7a9ddae..1ca58e8 100644
--- a/rustfst/src/parsers/bin_fst/fst_header.rs
+++ b/rustfst/src/parsers/bin_fst/fst_header.rs
@@ -146,14 +146,8 @@ impl OpenFstString {
     }
     pub(crate) fn parse(i: &[u8]) -> IResult<&[u8], OpenFstString, NomCustomError<&[u8]>> {
         let (i, n) = parse_bin_i32(i)?;
-        let (i, s) = take(n as usize)(i)?;
-        Ok((
-            i,
-            OpenFstString {
-                n,
-                s: String::from_utf8(s.to_vec()).unwrap(),
-            },
-        ))
+        let (i, s) = map_res(take(n as usize), |s: &[u8]| String::from_utf8(s.to_vec()))(i)?;
+        Ok((i, OpenFstString { n, s }))
     }
 
     pub(crate) fn write<W: Write>(&self, file: &mut W) -> Result<()> {
-- 
2.43.0


From dcaf0d90ec0cdc524bf9b0f82c2aafd89e92e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:26 +0000
Subject: [PATCH 25/54] fix: loading a binary FST accepted start states, next
 states and transition ranges that do not exist

---
 .../fst_impls/const_fst/serializable_fst.rs   | 27 +++++++++++++++++--
 .../fst_impls/vector_fst/serializable_fst.rs  | 14 ++++++++--
 rustfst/src/parsers/bin_fst/utils_parsing.rs  | 10 +++++++
 3 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/rustfst/src/fst_impls/const_fst/serializable_fst.rs b/rustfst/src/fst_impls/const_fst/serializable_fst.rs
index da7fde4..ac3192d 100644
--- a/rustfst/src/fst_impls/const_fst/serializable_fst.rs
+++ b/rustfst/src/fst_impls/const_fst/serializable_fst.rs
@@ -4,6 +4,7 @@ use std::sync::Arc;
 use anyhow::Result;
 use itertools::Itertools;
 use nom::bytes::complete::take;
+use nom::combinator::verify;
 use nom::multi::count;
 use nom::IResult;
 
@@ -16,7 +17,7 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::{ExpandedFst, Fst, SerializableFst};
 use crate::parsers::bin_fst::fst_header::{FstFlags, FstHeader, OpenFstString, FST_MAGIC_NUMBER};
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    parse_bin_fst_tr, parse_final_weight, parse_start_state, verify_nextstates, verify_start_state,
 };
 use crate::parsers::nom_utils::NomCustomError;
 use crate::parsers::parse_bin_i32;
@@ -196,6 +197,19 @@ fn parse_const_state<W: SerializableSemiring>(
     ))
 }
 
+/// Checks that the state refers to existing transitions and counts their epsilons.
+fn verify_const_state<W: SerializableSemiring>(state: &ConstState<W>, trs: &[Tr<W>]) -> bool {
+    let state_trs = match state.pos.checked_add(state.ntrs) {
+        Some(end) => trs.get(state.pos..end),
+        None => None,
+    };
+    state_trs.map_or(false, |state_trs| {
+        let count_trs = |f: fn(&&Tr<W>) -> bool| state_trs.iter().filter(f).count();
+        state.niepsilons == count_trs(|tr| tr.ilabel == EPS_LABEL)
+            && state.noepsilons == count_trs(|tr| tr.olabel == EPS_LABEL)
+    })
+}
+
 fn parse_const_fst<W: SerializableSemiring>(
     i: &[u8],
 ) -> IResult<&[u8], ConstFst<W>, NomCustomError<&[u8]>> {
@@ -221,7 +235,16 @@ fn parse_const_fst<W: SerializableSemiring>(
     if aligned && hdr.num_trs > 0 && pos % CONST_ARCH_ALIGNMENT > 0 {
         i = take(CONST_ARCH_ALIGNMENT - (pos % CONST_ARCH_ALIGNMENT))(i)?.0;
     }
-    let (i, const_trs) = count(parse_bin_fst_tr, hdr.num_trs as usize)(i)?;
+    let (i, const_trs) = verify(
+        count(parse_bin_fst_tr, hdr.num_trs as usize),
+        |const_trs: &Vec<Tr<W>>| {
+            verify_start_state(hdr.start, const_states.len())
+                && verify_nextstates(const_trs, const_states.len())
+                && const_states
+                    .iter()
+                    .all(|state| verify_const_state(state, const_trs))
+        },
+    )(i)?;
 
     Ok((
         i,
diff --git a/rustfst/src/fst_impls/vector_fst/serializable_fst.rs b/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
index 1ca8e1f..8b0a8a8 100644
--- a/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
@@ -2,6 +2,7 @@ use std::io::Write;
 use std::sync::Arc;
 
 use anyhow::Result;
+use nom::combinator::verify;
 use nom::multi::count;
 use nom::number::complete::le_i64;
 use nom::IResult;
@@ -12,7 +13,7 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::{CoreFst, ExpandedFst, Fst, MutableFst, SerializableFst};
 use crate::parsers::bin_fst::fst_header::{FstFlags, FstHeader, OpenFstString, FST_MAGIC_NUMBER};
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    parse_bin_fst_tr, parse_final_weight, parse_start_state, verify_nextstates, verify_start_state,
 };
 use crate::parsers::bin_fst::utils_serialization::write_bin_fst_tr;
 use crate::parsers::nom_utils::NomCustomError;
@@ -154,7 +155,16 @@ fn parse_vector_fst<W: SerializableSemiring>(
         VectorFst::<W>::fst_type(),
         Tr::<W>::tr_type(),
     )?;
-    let (i, states) = count(parse_vector_fst_state, header.num_states as usize)(i)?;
+    let num_states = header.num_states as usize;
+    let (i, states) = verify(
+        count(parse_vector_fst_state, num_states),
+        |states: &Vec<VectorFstState<W>>| {
+            verify_start_state(header.start, num_states)
+                && states
+                    .iter()
+                    .all(|state| verify_nextstates(state.trs.trs(), num_states))
+        },
+    )(i)?;
     Ok((
         i,
         VectorFst {
diff --git a/rustfst/src/parsers/bin_fst/utils_parsing.rs b/rustfst/src/parsers/bin_fst/utils_parsing.rs
index a0c7d76..283592d 100644
--- a/rustfst/src/parsers/bin_fst/utils_parsing.rs
+++ b/rustfst/src/parsers/bin_fst/utils_parsing.rs
@@ -42,3 +42,13 @@ pub(crate) fn parse_bin_fst_tr<W: SerializableSemiring>(
         },
     ))
 }
+
+/// Checks that the start state is an existing state, or the absence of start state.
+pub(crate) fn verify_start_state(start: i64, num_states: usize) -> bool {
+    start == -1 || (start >= 0 && (start as u64) < num_states as u64)
+}
+
+/// Checks that all the transitions lead to existing states.
+pub(crate) fn verify_nextstates<W: SerializableSemiring>(trs: &[Tr<W>], num_states: usize) -> bool {
+    trs.iter().all(|tr| (tr.nextstate as usize) < num_states)
+}
-- 
2.43.0


From 95a840919ed0e2f27386aa4975c23a37e0803102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:57 +0000
Subject: [PATCH 26/54] fix: a malformed row of a text FST or symbol table
 silently discarded the rest of the file

---
 rustfst/src/parsers/text_fst/parsed_text_fst.rs   | 8 +++++++-
 rustfst/src/parsers/text_symt/nom_parser.rs       | 5 ++---
 rustfst/src/parsers/text_symt/parsed_text_symt.rs | 8 +++++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/parsers/text_fst/parsed_text_fst.rs b/rustfst/src/parsers/text_fst/parsed_text_fst.rs
index 4c88236..8073b28 100644
--- a/rustfst/src/parsers/text_fst/parsed_text_fst.rs
+++ b/rustfst/src/parsers/text_fst/parsed_text_fst.rs
@@ -85,8 +85,14 @@ impl<W: SerializableSemiring> ParsedTextFst<W> {
     /// 3   0.67
     /// ```
     pub fn from_string(fst_string: &str) -> Result<Self> {
-        let (_, vec_rows_parsed) =
+        let (remaining, vec_rows_parsed) =
             vec_rows_parsed(fst_string).map_err(|_| format_err!("Error while parsing text fst"))?;
+        if !remaining.trim().is_empty() {
+            bail!(
+                "Error while parsing text fst. Malformed row at : {:?}",
+                remaining.trim().lines().next()
+            );
+        }
 
         Ok(Self::from_vec_rows_parsed(vec_rows_parsed))
     }
diff --git a/rustfst/src/parsers/text_symt/nom_parser.rs b/rustfst/src/parsers/text_symt/nom_parser.rs
index 6d73061..76d7243 100644
--- a/rustfst/src/parsers/text_symt/nom_parser.rs
+++ b/rustfst/src/parsers/text_symt/nom_parser.rs
@@ -1,7 +1,6 @@
 use nom::bytes::complete::tag;
 use nom::character::complete::space1;
-use nom::multi::many0;
-use nom::sequence::terminated;
+use nom::multi::separated_list0;
 use nom::IResult;
 
 use crate::parsers::nom_utils::{num, word};
@@ -16,7 +15,7 @@ fn row(i: &str) -> IResult<&str, (Symbol, Label)> {
 }
 
 fn vec_rows(i: &str) -> IResult<&str, Vec<(Symbol, Label)>> {
-    many0(terminated(row, tag("\n")))(i)
+    separated_list0(tag("\n"), row)(i)
 }
 
 pub(crate) fn parse_text_symt(i: &str) -> IResult<&str, ParsedTextSymt> {
diff --git a/rustfst/src/parsers/text_symt/parsed_text_symt.rs b/rustfst/src/parsers/text_symt/parsed_text_symt.rs
index 73a8b5c..abeda71 100644
--- a/rustfst/src/parsers/text_symt/parsed_text_symt.rs
+++ b/rustfst/src/parsers/text_symt/parsed_text_symt.rs
@@ -13,8 +13,14 @@ pub(crate) struct ParsedTextSymt {
 
 impl ParsedTextSymt {
     pub(crate) fn from_string(symt_string: &str) -> Result<Self> {
-        let (_, parsed_symt) = parse_text_symt(symt_string)
+        let (remaining, parsed_symt) = parse_text_symt(symt_string)
             .map_err(|_| format_err!("Error while parsing text symt"))?;
+        if !remaining.trim().is_empty() {
+            bail!(
+                "Error while parsing text symt. Malformed row at : {:?}",
+                remaining.trim().lines().next()
+            );
+        }
         Ok(parsed_symt)
     }
 
-- 
2.43.0


From 3553d5f9b02908b60d09ed5e39851f0ec305bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 27/54] fix: approx_equal of two infinite weights was false

---
 rustfst/src/semirings/utils_float.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/utils_float.rs b/rustfst/src/semirings/utils_float.rs
index 0fc9f14..a6fbef2 100644
--- a/rustfst/src/semirings/utils_float.rs
+++ b/rustfst/src/semirings/utils_float.rs
@@ -1,3 +1,4 @@
 pub(crate) fn float_approx_equal(w1: f32, w2: f32, delta: f32) -> bool {
-    (w1 - w2).abs() <= delta
+    // Not a difference : infinities are equal to themselves.
+    w1 <= w2 + delta && w2 <= w1 + delta
 }
-- 
2.43.0


From 5831d9704664361cf3d5b03631ea220fbe108dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:49 +0000
Subject: [PATCH 28/54] fix: dividing the zero union weight by a union of
 several weights was an error

---
 rustfst/src/semirings/union_weight.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/semirings/union_weight.rs b/rustfst/src/semirings/union_weight.rs
index 3897971..ed45ed8 100644
--- a/rustfst/src/semirings/union_weight.rs
+++ b/rustfst/src/semirings/union_weight.rs
@@ -224,6 +224,7 @@ where
     fn divide_assign(&mut self, rhs: &Self, divide_type: DivideType) -> Result<()> {
         if self.is_zero() || rhs.is_zero() {
             self.list.clear();
+            return Ok(());
         }
         let mut quot = Self::zero();
         if self.len() == 1 {
-- 
2.43.0


From d417a8f4600f376d54832085039b942a0912b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:02 +0000
Subject: [PATCH 29/54] fix: isomorphic accepted two states of the first
 machine paired with the same state of the second

---
 rustfst/src/algorithms/isomorphic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rustfst/src/algorithms/isomorphic.rs b/rustfst/src/algorithms/isomorphic.rs
index 0651e0d..51f691e 100644
--- a/rustfst/src/algorithms/isomorphic.rs
+++ b/rustfst/src/algorithms/isomorphic.rs
@@ -12,6 +12,8 @@ struct Isomorphism<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> {
     fst_1: &'a F1,
     fst_2: &'a F2,
     state_pairs: Vec<Option<StateId>>,
+    // States of fst_2 already paired with a state of fst_1.
+    paired_2: Vec<bool>,
     queue: VecDeque<(StateId, StateId)>,
     w: PhantomData<W>,
     delta: f32,
@@ -53,6 +55,7 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
             fst_1,
             fst_2,
             state_pairs: vec![None; fst_1.num_states()],
+            paired_2: vec![false; fst_2.num_states()],
             queue: VecDeque::new(),
             w: PhantomData,
             delta,
@@ -66,7 +69,10 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
             return true; // already seen this pair
         } else if self.state_pairs[s1 as usize].is_some() {
             return false; // s1 already paired with another s2
+        } else if self.paired_2[s2 as usize] {
+            return false; // s2 already paired with another s1
         }
+        self.paired_2[s2 as usize] = true;
         self.state_pairs[s1 as usize] = Some(s2);
         self.queue.push_back((s1, s2));
         true
-- 
2.43.0


From 0a68432e0c60b069fe88d8d501f07b02cdc1a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:02 +0000
Subject: [PATCH 30/54] fix: head of an empty state-order, topological or
 component queue was a stale state or a panic

---
 rustfst/src/algorithms/queues/scc_queue.rs         | 3 +++
 rustfst/src/algorithms/queues/state_order_queue.rs | 3 +++
 rustfst/src/algorithms/queues/top_order_queue.rs   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/rustfst/src/algorithms/queues/scc_queue.rs b/rustfst/src/algorithms/queues/scc_queue.rs
index 757d6f7..f55f85a 100644
--- a/rustfst/src/algorithms/queues/scc_queue.rs
+++ b/rustfst/src/algorithms/queues/scc_queue.rs
@@ -31,6 +31,9 @@ impl SccQueue {
 
 impl Queue for SccQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         self.update_front();
         self.queues[self.front as usize].head()
     }
diff --git a/rustfst/src/algorithms/queues/state_order_queue.rs b/rustfst/src/algorithms/queues/state_order_queue.rs
index b7898fa..4439415 100644
--- a/rustfst/src/algorithms/queues/state_order_queue.rs
+++ b/rustfst/src/algorithms/queues/state_order_queue.rs
@@ -10,6 +10,9 @@ pub struct StateOrderQueue {
 
 impl Queue for StateOrderQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         Some(self.front as StateId)
     }
 
diff --git a/rustfst/src/algorithms/queues/top_order_queue.rs b/rustfst/src/algorithms/queues/top_order_queue.rs
index 5f1c4e2..2196ea3 100644
--- a/rustfst/src/algorithms/queues/top_order_queue.rs
+++ b/rustfst/src/algorithms/queues/top_order_queue.rs
@@ -39,6 +39,9 @@ impl TopOrderQueue {
 
 impl Queue for TopOrderQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         self.state[self.front as usize]
     }
 
-- 
2.43.0


From 0494f8c72e18ed81e8c81e72573fcee0a6029d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:02 +0000
Subject: [PATCH 31/54] fix: component queue reported a state to come after it
 had been drained twice

---
 rustfst/src/algorithms/queues/scc_queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/queues/scc_queue.rs b/rustfst/src/algorithms/queues/scc_queue.rs
index f55f85a..19d71d0 100644
--- a/rustfst/src/algorithms/queues/scc_queue.rs
+++ b/rustfst/src/algorithms/queues/scc_queue.rs
@@ -40,7 +40,7 @@ impl Queue for SccQueue {
 
     fn enqueue(&mut self, state: StateId) {
         let u_state = state as usize;
-        if self.front > self.back {
+        if self.is_empty() {
             self.front = self.sccs[u_state] as i32;
             self.back = self.sccs[u_state] as i32;
         } else if (self.sccs[u_state] as i32) > self.back {
-- 
2.43.0


From 4c9b295d65ae55d5e64f8654f054ff3178dc0b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:02 +0000
Subject: [PATCH 32/54] fix: shortest-first queue delivered the farthest state
 first

---
 rustfst/src/algorithms/queues/shortest_first_queue.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/queues/shortest_first_queue.rs b/rustfst/src/algorithms/queues/shortest_first_queue.rs
index bf588f0..98e86fa 100644
--- a/rustfst/src/algorithms/queues/shortest_first_queue.rs
+++ b/rustfst/src/algorithms/queues/shortest_first_queue.rs
@@ -87,10 +87,11 @@ impl NaturalShortestFirstQueue {
     pub fn new<W: 'static + Semiring>(weights: Vec<W>) -> Self {
         let a = StateWeightCompare::new(weights, natural_less);
         let heap = ShortestFirstQueue::new(move |v1, v2| {
+            // The heap delivers the greatest element first.
             if a.compare(*v1, *v2).unwrap() {
-                Ordering::Less
-            } else {
                 Ordering::Greater
+            } else {
+                Ordering::Less
             }
         });
         NaturalShortestFirstQueue {
-- 
2.43.0


From 46c557dcce1183e4160ab088cb5dc0772b949ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:02 +0000
Subject: [PATCH 33/54] fix: updating a state of a shortest-first queue
 panicked

---
 rustfst/src/algorithms/queues/shortest_first_queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/queues/shortest_first_queue.rs b/rustfst/src/algorithms/queues/shortest_first_queue.rs
index 98e86fa..e87c1ed 100644
--- a/rustfst/src/algorithms/queues/shortest_first_queue.rs
+++ b/rustfst/src/algorithms/queues/shortest_first_queue.rs
@@ -62,7 +62,11 @@ impl<C: Clone + FnMut(&StateId, &StateId) -> Ordering> Queue for ShortestFirstQu
     }
 
     fn update(&mut self, _state: StateId) {
-        unimplemented!()
+        // The priority of the state may have changed: rebuild the heap.
+        let states: Vec<_> = self.heap.drain().collect();
+        for state in states {
+            self.heap.push(state);
+        }
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From 27b8572a819d4cf502a31cd33c3b98d7da8300ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:44 +0000
Subject: [PATCH 34/54] fix: check_path_in_fst compared output labels at the
 position of the input label

---
 rustfst/src/fst_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/fst_path.rs b/rustfst/src/fst_path.rs
index acb3db3..2b09af8 100644
--- a/rustfst/src/fst_path.rs
+++ b/rustfst/src/fst_path.rs
@@ -126,7 +126,7 @@ pub fn check_path_in_fst<W: Semiring, F: Fst<W>>(fst: &F, fst_path: &FstPath<W>)
                 let match_ilabel = next_ilabel_idx < fst_path.ilabels.len()
                     && tr.ilabel == fst_path.ilabels[next_ilabel_idx];
                 let match_olabel = next_olabel_idx < fst_path.olabels.len()
-                    && tr.olabel == fst_path.olabels[next_ilabel_idx];
+                    && tr.olabel == fst_path.olabels[next_olabel_idx];
                 let (new_next_ilabel_idx, new_next_olabel_idx) =
                     if tr.ilabel == EPS_LABEL && tr.olabel == EPS_LABEL {
                         (next_ilabel_idx, next_olabel_idx)
-- 
2.43.0


From 94df4a6a600451e16090026c18d30acd228041da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:23 +0000
Subject: [PATCH 35/54] fix: conversion to and from gallic weights failed on
 zero final weights

---
 .../weight_converters/from_gallic_mapper.rs           |  8 ++++++++
 .../weight_converters/to_gallic_converter.rs          | 11 ++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/weight_converters/from_gallic_mapper.rs b/rustfst/src/algorithms/weight_converters/from_gallic_mapper.rs
index 99115f6..62b6e2f 100644
--- a/rustfst/src/algorithms/weight_converters/from_gallic_mapper.rs
+++ b/rustfst/src/algorithms/weight_converters/from_gallic_mapper.rs
@@ -80,6 +80,14 @@ macro_rules! impl_weight_converter_gallic {
             }
 
             fn final_tr_map(&mut self, final_tr: &FinalTr<$gallic<W>>) -> Result<FinalTr<W>> {
+                // Final weight of a non-final state.
+                if final_tr.weight.is_zero() {
+                    return Ok(FinalTr {
+                        ilabel: final_tr.ilabel,
+                        olabel: EPS_LABEL,
+                        weight: W::zero(),
+                    });
+                }
                 let (extracted_w, extracted_l) = $fextract(&final_tr.weight).expect("Fail");
                 if final_tr.ilabel != final_tr.olabel {
                     panic!("Unrepresentable weight : {:?}", &final_tr);
diff --git a/rustfst/src/algorithms/weight_converters/to_gallic_converter.rs b/rustfst/src/algorithms/weight_converters/to_gallic_converter.rs
index fa4640e..345f0eb 100644
--- a/rustfst/src/algorithms/weight_converters/to_gallic_converter.rs
+++ b/rustfst/src/algorithms/weight_converters/to_gallic_converter.rs
@@ -31,14 +31,15 @@ macro_rules! impl_to_gallic_converter {
             }
 
             fn final_tr_map(&mut self, final_tr: &FinalTr<W>) -> Result<FinalTr<$gallic<W>>> {
-                if final_tr.weight.is_zero() {
-                    bail!("Shouldn't happen")
-                }
-                let w = ($string_weight::one(), final_tr.weight.clone());
+                let weight = if final_tr.weight.is_zero() {
+                    $gallic::zero()
+                } else {
+                    ($string_weight::one(), final_tr.weight.clone()).into()
+                };
                 Ok(FinalTr {
                     ilabel: EPS_LABEL,
                     olabel: EPS_LABEL,
-                    weight: w.into(),
+                    weight,
                 })
             }
 
-- 
2.43.0


From 681da3835ff742a687df60d9754a5be9eb6c617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:23 +0000
Subject: [PATCH 36/54] fix: decode panicked on epsilon transitions added after
 encoding

---
 rustfst/src/algorithms/encode/decode_static.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/encode/decode_static.rs b/rustfst/src/algorithms/encode/decode_static.rs
index 58bcf59..ba82082 100644
--- a/rustfst/src/algorithms/encode/decode_static.rs
+++ b/rustfst/src/algorithms/encode/decode_static.rs
@@ -4,7 +4,7 @@ use crate::algorithms::{encode::EncodeTable, rm_final_epsilon};
 use crate::algorithms::{FinalTr, MapFinalAction, TrMapper};
 use crate::fst_properties::FstProperties;
 use crate::fst_traits::MutableFst;
-use crate::{Semiring, Tr};
+use crate::{Semiring, Tr, EPS_LABEL};
 
 struct DecodeMapper<W: Semiring> {
     encode_table: EncodeTable<W>,
@@ -26,6 +26,10 @@ impl<W: Semiring> DecodeMapper<W> {
 
 impl<W: Semiring> TrMapper<W> for DecodeMapper<W> {
     fn tr_map(&self, tr: &mut Tr<W>) -> Result<()> {
+        // Encoding never yields epsilon: the transition was added afterwards.
+        if tr.ilabel == EPS_LABEL {
+            return Ok(());
+        }
         let tuple = self
             .encode_table
             .0
-- 
2.43.0


From 19d6f261a1cbfa4a20cd72058eb4f6727f352fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:29 +0000
Subject: [PATCH 37/54] fix: a sigma transition did not match labels that also
 have transitions of their own

---
 .../compose/matchers/sigma_matcher.rs         | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
index 3abcd41..4cd9fab 100644
--- a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
@@ -201,19 +201,18 @@ where
         }
 
         let mut find_empty = false;
-        let has_sigma = has_sigma(state, &matcher, sigma_label)?;
+        // Sigma matches any label, on top of the transitions with this very label.
+        let has_sigma = match_label != EPS_LABEL
+            && match_label != NO_LABEL
+            && is_match_label_allowed(sigma_allowed_matches, match_label)
+            && has_sigma(state, &matcher, sigma_label)?;
 
         let mut matcher_iterator_match_label = matcher.iter(state, match_label)?.peekable();
         let (sigma_match, matcher_iterator) = if matcher_iterator_match_label.peek().is_some() {
             (Some(NO_LABEL), matcher_iterator_match_label)
         } else {
             let mut matcher_iterator_sigma_label = matcher.iter(state, sigma_label)?.peekable();
-            if has_sigma
-                && match_label != EPS_LABEL
-                && match_label != NO_LABEL
-                && is_match_label_allowed(sigma_allowed_matches, match_label)
-                && matcher_iterator_sigma_label.peek().is_some()
-            {
+            if has_sigma && matcher_iterator_sigma_label.peek().is_some() {
                 (Some(match_label), matcher_iterator_sigma_label)
             } else {
                 find_empty = true;
@@ -268,11 +267,10 @@ where
     }
 
     pub fn next_openfst(&mut self) {
-        let r = self.matcher_iterator.next();
-        if r.is_none()
-            && self.has_sigma
+        self.matcher_iterator.next();
+        if self.has_sigma
             && self.sigma_match.unwrap() == NO_LABEL
-            && self.match_label > 0
+            && self.matcher_iterator.peek().is_none()
         {
             self.matcher_iterator = self
                 .matcher
-- 
2.43.0


From 05dc9b071d1a4834d02a0b273dfba07a99342ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:21 +0000
Subject: [PATCH 38/54] fix: composition with a sigma matcher declared
 properties the result does not have

---
 .../src/algorithms/compose/compose_fst_op.rs  |  4 +++-
 .../src/algorithms/compose/matchers/mod.rs    |  6 +++++
 .../compose/matchers/sigma_matcher.rs         | 24 +++++++++++++++++++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/compose/compose_fst_op.rs b/rustfst/src/algorithms/compose/compose_fst_op.rs
index c7487a2..db76996 100644
--- a/rustfst/src/algorithms/compose/compose_fst_op.rs
+++ b/rustfst/src/algorithms/compose/compose_fst_op.rs
@@ -154,7 +154,9 @@ where
 
         let fprops1 = fst1.borrow().properties();
         let fprops2 = fst2.borrow().properties();
-        let cprops = compose_properties(fprops1, fprops2);
+        let mprops1 = compose_filter.matcher1().properties(fprops1);
+        let mprops2 = compose_filter.matcher2().properties(fprops2);
+        let cprops = compose_properties(mprops1, mprops2);
         let properties = compose_filter.properties(cprops);
 
         Ok(Self {
diff --git a/rustfst/src/algorithms/compose/matchers/mod.rs b/rustfst/src/algorithms/compose/matchers/mod.rs
index 78257a8..ab199e9 100644
--- a/rustfst/src/algorithms/compose/matchers/mod.rs
+++ b/rustfst/src/algorithms/compose/matchers/mod.rs
@@ -8,6 +8,7 @@ pub use multi_eps_matcher::{MultiEpsMatcher, MultiEpsMatcherFlags};
 pub use sigma_matcher::SigmaMatcher;
 pub use sorted_matcher::SortedMatcher;
 
+use crate::fst_properties::FstProperties;
 use crate::fst_traits::Fst;
 use crate::semirings::Semiring;
 use crate::{Label, StateId};
@@ -119,6 +120,11 @@ pub trait Matcher<W: Semiring, F: Fst<W>, B: Borrow<F>>: Debug {
     fn match_type(&self, test: bool) -> Result<MatchType>;
     fn flags(&self) -> MatcherFlags;
 
+    /// Properties of the FST seen through the matcher, given those of the FST itself.
+    fn properties(&self, inprops: FstProperties) -> FstProperties {
+        inprops
+    }
+
     /// Indicates preference for being the side used for matching in
     /// composition. If the value is kRequirePriority, then it is
     /// mandatory that it be used. Calling this method without passing the
diff --git a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
index 4cd9fab..91d0771 100644
--- a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
@@ -131,6 +131,30 @@ where
         }
     }
 
+    fn properties(&self, inprops: FstProperties) -> FstProperties {
+        let outprops = self.matcher.properties(inprops);
+        if self.sigma_label == NO_LABEL || self.match_type == MatchType::MatchNone {
+            return outprops;
+        }
+        // A sigma transition stands for several ones, with other labels.
+        let mut mask = FstProperties::all_properties()
+            - (FstProperties::I_DETERMINISTIC
+                | FstProperties::NOT_I_DETERMINISTIC
+                | FstProperties::O_DETERMINISTIC
+                | FstProperties::NOT_O_DETERMINISTIC
+                | FstProperties::STRING);
+        if self.rewrite_both || self.match_type == MatchType::MatchInput {
+            mask -= FstProperties::I_LABEL_SORTED | FstProperties::NOT_I_LABEL_SORTED;
+        }
+        if self.rewrite_both || self.match_type == MatchType::MatchOutput {
+            mask -= FstProperties::O_LABEL_SORTED | FstProperties::NOT_O_LABEL_SORTED;
+        }
+        if !self.rewrite_both {
+            mask -= FstProperties::ACCEPTOR | FstProperties::NOT_ACCEPTOR;
+        }
+        outprops & mask
+    }
+
     fn priority(&self, state: StateId) -> Result<usize> {
         if self.sigma_label != NO_LABEL {
             if has_sigma(state, &self.matcher, self.sigma_label)? {
-- 
2.43.0


From e29c88af47feb4c453d6f6559c4d639c6a60e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:42 +0000
Subject: [PATCH 39/54] fix: report removal past the end of a transition list
 through the status code

---
 rustfst-ffi/src/trs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rustfst-ffi/src/trs.rs b/rustfst-ffi/src/trs.rs
index c5603fa..60e5f6c 100644
--- a/rustfst-ffi/src/trs.rs
+++ b/rustfst-ffi/src/trs.rs
@@ -2,7 +2,7 @@ use crate::tr::CTr;
 use crate::{get, get_mut, wrap, RUSTFST_FFI_RESULT};
 use std::ffi::CString;
 
-use anyhow::Result;
+use anyhow::{bail, Result};
 use ffi_convert::*;
 use rustfst::prelude::TrsVec;
 use rustfst::semirings::TropicalWeight;
@@ -35,6 +35,9 @@ pub unsafe extern "C" fn trs_vec_remove(
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs = get_mut!(CTrs, trs);
+        if index >= trs.len() {
+            bail!("No transition at index {} (length {})", index, trs.len());
+        }
         let removed_tr = trs.remove(index);
         let ctr = Box::into_raw(Box::new(CTr::c_repr_of(removed_tr)?));
         unsafe { *removed_tr_ptr = ctr };
-- 
2.43.0


From 87d38a0a1bebcda5a8b77897f6812df684b9396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:42 +0000
Subject: [PATCH 40/54] fix: exit with a failure status when a command fails

---
 rustfst-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst-cli/src/main.rs b/rustfst-cli/src/main.rs
index 1311e09..3bf5b98 100644
--- a/rustfst-cli/src/main.rs
+++ b/rustfst-cli/src/main.rs
@@ -202,7 +202,7 @@ fn main() {
 
     if let Err(e) = handle(matches) {
         error!("{:?}", e);
-        process::exit(exitcode::OK)
+        process::exit(exitcode::SOFTWARE)
     }
 }
 
-- 
2.43.0


From cd18462ec6839b94e9e53f041180e2ac85f5146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:49 +0000
Subject: [PATCH 41/54] fix: determinization made several states of one
 weighted subset

The elements of a subset came out of a HashMap in random order, so that the
same subset was a new state whenever the order differed, and the start subset
carried the start state as filter state, so that it was never met again.
---
 .../src/algorithms/determinize/determinize_fsa_op.rs  | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
index c137f1a..03644b8 100644
--- a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
+++ b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
@@ -1,7 +1,6 @@
 use std::borrow::Borrow;
 use std::collections::btree_map::Entry as EntryBTreeMap;
-use std::collections::hash_map::Entry as EntryHashMap;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::BTreeMap;
 use std::fmt::Debug;
 use std::marker::PhantomData;
 use std::sync::Arc;
@@ -46,7 +45,7 @@ where
             let elt = DeterminizeElement::new(start_state, W::one());
             let tuple = DeterminizeStateTuple {
                 subset: WeightedSubset::from_vec(vec![elt]),
-                filter_state: start_state,
+                filter_state: 0,
             };
             return Ok(Some(self.find_state(&tuple)?));
         }
@@ -155,13 +154,13 @@ where
             det_tr.weight = CD::common_divisor(&det_tr.weight, &dest_elt.weight)?;
         }
 
-        let mut new_pairs = HashMap::new();
+        let mut new_pairs = BTreeMap::new();
         for x in &mut det_tr.dest_tuple.subset.pairs {
             match new_pairs.entry(x.state) {
-                EntryHashMap::Vacant(e) => {
+                EntryBTreeMap::Vacant(e) => {
                     e.insert(x.clone());
                 }
-                EntryHashMap::Occupied(mut e) => {
+                EntryBTreeMap::Occupied(mut e) => {
                     e.get_mut().weight.plus_assign(&x.weight)?;
                 }
             };
-- 
2.43.0


From 2350132cae09a37b844dd0cc015d6ef7377643a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:26 +0000
Subject: [PATCH 42/54] fix: invert kept the symbol tables on the wrong tapes

---
 rustfst/src/algorithms/inversion.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rustfst/src/algorithms/inversion.rs b/rustfst/src/algorithms/inversion.rs
index 169d25a..2fcfeeb 100644
--- a/rustfst/src/algorithms/inversion.rs
+++ b/rustfst/src/algorithms/inversion.rs
@@ -44,5 +44,15 @@ pub fn invert<W: Semiring, F: MutableFst<W>>(fst: &mut F) {
         }
     }
 
+    // The symbol tables describe the tapes, which are exchanged.
+    let isymt = fst.take_input_symbols();
+    let osymt = fst.take_output_symbols();
+    if let Some(symt) = osymt {
+        fst.set_input_symbols(symt);
+    }
+    if let Some(symt) = isymt {
+        fst.set_output_symbols(symt);
+    }
+
     fst.set_properties_with_mask(invert_properties(props), FstProperties::all_properties());
 }
-- 
2.43.0


From f8ff64995324f8ddfab424b754f92758637b1152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:26 +0000
Subject: [PATCH 43/54] fix: project left the symbol table of the discarded
 tape

---
 rustfst/src/algorithms/projection.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rustfst/src/algorithms/projection.rs b/rustfst/src/algorithms/projection.rs
index 3041524..0806303 100644
--- a/rustfst/src/algorithms/projection.rs
+++ b/rustfst/src/algorithms/projection.rs
@@ -1,3 +1,5 @@
+use std::sync::Arc;
+
 use crate::fst_properties::mutable_properties::project_properties;
 use crate::fst_properties::FstProperties;
 use crate::fst_traits::MutableFst;
@@ -86,6 +88,16 @@ pub fn project<W: Semiring, F: MutableFst<W>>(fst: &mut F, project_type: Project
             }
         }
     };
+    // Both tapes now carry the labels, hence the symbol table, of the tape that is kept.
+    let (isymt, osymt) = (fst.take_input_symbols(), fst.take_output_symbols());
+    let symt = match project_type {
+        ProjectType::ProjectInput => isymt,
+        ProjectType::ProjectOutput => osymt,
+    };
+    if let Some(symt) = symt {
+        fst.set_input_symbols(Arc::clone(&symt));
+        fst.set_output_symbols(symt);
+    }
     fst.set_properties_with_mask(
         project_properties(props, project_type),
         FstProperties::all_properties(),
-- 
2.43.0


From c382d19bf709fca9bb85c9075b77ddea230882e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:39 +0000
Subject: [PATCH 44/54] fix: symbol tables were dropped from results without
 start state

---
 rustfst/src/algorithms/lazy/lazy_fst.rs   | 13 ++++++-------
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 12 ++++++------
 rustfst/src/algorithms/weight_convert.rs  |  1 +
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index 4b5a5eb..c409d3e 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -240,6 +240,12 @@ where
     pub fn compute<F2: MutableFst<W> + AllocableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
         let mut fst_out = F2::new();
+        if let Some(isymt) = &self.isymt {
+            fst_out.set_input_symbols(Arc::clone(isymt));
+        }
+        if let Some(osymt) = &self.osymt {
+            fst_out.set_output_symbols(Arc::clone(osymt));
+        }
         let start_state = match start_state {
             Some(s) => s,
             None => return Ok(fst_out),
@@ -272,13 +278,6 @@ where
             }
         }
         fst_out.set_properties(self.properties());
-
-        if let Some(isymt) = &self.isymt {
-            fst_out.set_input_symbols(Arc::clone(isymt));
-        }
-        if let Some(osymt) = &self.osymt {
-            fst_out.set_output_symbols(Arc::clone(osymt));
-        }
         Ok(fst_out)
     }
 }
diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 57cb8c0..259649c 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -236,6 +236,12 @@ where
     pub fn compute<F2: MutableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
         let mut fst_out = F2::new();
+        if let Some(isymt) = &self.isymt {
+            fst_out.set_input_symbols(Arc::clone(isymt));
+        }
+        if let Some(osymt) = &self.osymt {
+            fst_out.set_output_symbols(Arc::clone(osymt));
+        }
         let start_state = match start_state {
             Some(s) => s,
             None => return Ok(fst_out),
@@ -265,12 +271,6 @@ where
             }
         }
         fst_out.set_properties(self.properties());
-        if let Some(isymt) = &self.isymt {
-            fst_out.set_input_symbols(Arc::clone(isymt));
-        }
-        if let Some(osymt) = &self.osymt {
-            fst_out.set_output_symbols(Arc::clone(osymt));
-        }
         Ok(fst_out)
     }
 }
diff --git a/rustfst/src/algorithms/weight_convert.rs b/rustfst/src/algorithms/weight_convert.rs
index a7fe862..66c5745 100644
--- a/rustfst/src/algorithms/weight_convert.rs
+++ b/rustfst/src/algorithms/weight_convert.rs
@@ -32,6 +32,7 @@ where
 
     // Empty FST.
     if fst_in.start().is_none() {
+        fst_out.set_symts_from_fst(fst_in);
         return Ok(fst_out);
     }
 
-- 
2.43.0


From 09582d77637f52ef8946dd37ad44f671d8698e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:41 +0000
Subject: [PATCH 45/54] fix: rm_final_epsilon multiplied the final weight
 before the transition weight

---
 rustfst/src/algorithms/rm_final_epsilon.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/algorithms/rm_final_epsilon.rs b/rustfst/src/algorithms/rm_final_epsilon.rs
index e8f1f83..2a55869 100644
--- a/rustfst/src/algorithms/rm_final_epsilon.rs
+++ b/rustfst/src/algorithms/rm_final_epsilon.rs
@@ -52,9 +52,8 @@ where
                             ifst.final_weight_unchecked(state).unwrap_or_else(W::zero)
                         })
                         .plus_assign(
-                            ifst.final_weight_unchecked(tr.nextstate)
-                                .unsafe_unwrap()
-                                .times(&tr.weight)?,
+                            tr.weight
+                                .times(ifst.final_weight_unchecked(tr.nextstate).unsafe_unwrap())?,
                         )?
                 };
                 trs_to_del.push(idx);
-- 
2.43.0


From bf9488f619db15446ec514ec7839ae637233d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:41 +0000
Subject: [PATCH 46/54] fix: reweighting to the final states multiplied the
 potential on the wrong side

---
 rustfst/src/algorithms/reweight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/reweight.rs b/rustfst/src/algorithms/reweight.rs
index 820ed9f..6f3cd8b 100644
--- a/rustfst/src/algorithms/reweight.rs
+++ b/rustfst/src/algorithms/reweight.rs
@@ -87,7 +87,7 @@ where
 
             match reweight_type {
                 ReweightType::ReweightToFinal => {
-                    final_weight.times_assign(d_s)?;
+                    final_weight = d_s.times(final_weight)?;
                 }
                 ReweightType::ReweightToInitial => {
                     if d_s.is_zero() {
-- 
2.43.0


From cea741b90c75a620be0c56fc5124b683fd3b116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:53 +0000
Subject: [PATCH 47/54] fix: factor_weight claimed an acceptor with different
 final labels on the tapes

---
 rustfst/src/algorithms/factor_weight/factor_weight_op.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/factor_weight/factor_weight_op.rs b/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
index f6a7192..56f5fe9 100644
--- a/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
+++ b/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
@@ -144,7 +144,14 @@ where
             bail!("Factoring neither tr weights nor final weights");
         }
         let factor_tr_weights = opts.mode.contains(FactorWeightType::FACTOR_ARC_WEIGHTS);
-        let properties = factor_weight_properties(fst.borrow().properties());
+        let mut properties = factor_weight_properties(fst.borrow().properties());
+        if opts.mode.contains(FactorWeightType::FACTOR_FINAL_WEIGHTS)
+            && (opts.final_ilabel != opts.final_olabel
+                || opts.increment_final_ilabel != opts.increment_final_olabel)
+        {
+            // The transitions made of the final weights are not acceptor transitions.
+            properties &= !FstProperties::ACCEPTOR;
+        }
         Ok(Self {
             opts,
             fst,
-- 
2.43.0


From d16f7d494cd8b7072e35a390891660d7950ec6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:52 +0000
Subject: [PATCH 48/54] fix: track the largest key of a compact set

---
 rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
index 4f29eaf..d0b85eb 100644
--- a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
@@ -311,7 +311,7 @@ impl<K: Copy + Ord> CompactSet<K> {
         if self.min_key == self.no_key || key < self.min_key {
             self.min_key = key;
         }
-        if self.max_key == self.no_key || self.max_key > key {
+        if self.max_key == self.no_key || self.max_key < key {
             self.max_key = key;
         }
     }
-- 
2.43.0


From b24ae2d19ebe190e1262ac08970447e5c5edc8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:52 +0000
Subject: [PATCH 49/54] fix: go on with the matches of the next multi-epsilon
 label

---
 rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
index d0b85eb..889ed6d 100644
--- a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
@@ -105,7 +105,7 @@ where
                     }
                     if *pos_labels < multi_eps_labels.len() {
                         self.done = false;
-                        res
+                        matcher_iter.next()
                     } else {
                         *matcher_iter = self
                             .matcher
-- 
2.43.0


From 9eafd88d375e1d2e0041d5c9a0d5339cd4ce81e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:52 +0000
Subject: [PATCH 50/54] fix: skip empty intervals when normalizing an interval
 set

---
 rustfst/src/algorithms/compose/interval_set.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/algorithms/compose/interval_set.rs b/rustfst/src/algorithms/compose/interval_set.rs
index 5b9cd75..294f7c2 100644
--- a/rustfst/src/algorithms/compose/interval_set.rs
+++ b/rustfst/src/algorithms/compose/interval_set.rs
@@ -164,6 +164,7 @@ impl IntervalSet {
             let inti_index = i;
             if inti.begin == inti.end {
                 // Empty interval
+                i += 1;
                 continue;
             }
             for j in (inti_index + 1)..n_intervals {
-- 
2.43.0


From c2da150a37d67772b27fab5247c88188d3de9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:52 +0000
Subject: [PATCH 51/54] fix: report a missing start state and a missing final
 weight as None

---
 rustfst-python/rustfst/fst/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rustfst-python/rustfst/fst/__init__.py b/rustfst-python/rustfst/fst/__init__.py
index 9a05b8b..477a0c1 100644
--- a/rustfst-python/rustfst/fst/__init__.py
+++ b/rustfst-python/rustfst/fst/__init__.py
@@ -9,6 +9,8 @@ from rustfst.symbol_table import SymbolTable
 from rustfst.iterators import TrsIterator
 from typing import Optional
 
+NO_STATE_ID = 2**32 - 1
+
 
 class Fst:
     """
@@ -26,12 +28,13 @@ class Fst:
         Returns :
             The start state or None.
         """
-        start = ctypes.c_size_t()
+        # the C interface leaves the value untouched when there is no start state
+        start = ctypes.c_size_t(NO_STATE_ID)
         ret_code = lib.fst_start(self.ptr, ctypes.byref(start))
         err_msg = "Error getting start state"
         check_ffi_error(ret_code, err_msg)
 
-        if start is None:
+        if start.value == NO_STATE_ID:
             return None
         return int(start.value)
 
@@ -52,7 +55,7 @@ class Fst:
         err_msg = "Error getting final weight"
         check_ffi_error(ret_code, err_msg)
 
-        if weight is None:
+        if not self.is_final(state.value):
             return None
 
         return weight.value
-- 
2.43.0


From ae3d08f3e719691dff91a538146c7c0d0fb5876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:18 +0000
Subject: [PATCH 52/54] fix: return the sorted machine from the Python top_sort

---
 rustfst-python/rustfst/algorithms/top_sort.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rustfst-python/rustfst/algorithms/top_sort.py b/rustfst-python/rustfst/algorithms/top_sort.py
index cdbf1c3..e2ef788 100644
--- a/rustfst-python/rustfst/algorithms/top_sort.py
+++ b/rustfst-python/rustfst/algorithms/top_sort.py
@@ -1,5 +1,4 @@
 from __future__ import annotations
-import ctypes
 from rustfst.ffi_utils import (
     lib,
     check_ffi_error,
@@ -28,9 +27,8 @@ def top_sort(fst: VectorFst) -> VectorFst:
         Equivalent top sorted Fst. Modification also happens in-place.
     """
 
-    top_sorted_fst = ctypes.c_void_p()
-    ret_code = lib.fst_top_sort(fst.ptr, ctypes.byref(top_sorted_fst))
+    ret_code = lib.fst_top_sort(fst.ptr)
     err_msg = "Error during top_sort"
     check_ffi_error(ret_code, err_msg)
 
-    return VectorFst(ptr=top_sorted_fst)
+    return fst
-- 
2.43.0


From 0f95f073c9025511599ee80d0c7c4441da5c2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:18 +0000
Subject: [PATCH 53/54] fix: forget the cached symbol tables of a projected
 Python machine

---
 rustfst-python/rustfst/algorithms/project.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rustfst-python/rustfst/algorithms/project.py b/rustfst-python/rustfst/algorithms/project.py
index 75926cb..150f263 100644
--- a/rustfst-python/rustfst/algorithms/project.py
+++ b/rustfst-python/rustfst/algorithms/project.py
@@ -45,6 +45,10 @@ def project(fst: VectorFst, proj_type: ProjectType) -> VectorFst:
     err_msg = "Error during projection"
     check_ffi_error(ret_code, err_msg)
 
+    # The projection moves the symbol tables cached on the python side.
+    fst._input_symbols = None
+    fst._output_symbols = None
+
     return fst
 
 
-- 
2.43.0


From 11a934c5fb75a19b313a21e40d2de2233b5ecbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:14 +0000
Subject: [PATCH 54/54] fix: reading a ConstFst file as a VectorFst accepted
 states and counters that do not exist

---
 .../src/fst_impls/vector_fst/parse_const.rs   | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/rustfst/src/fst_impls/vector_fst/parse_const.rs b/rustfst/src/fst_impls/vector_fst/parse_const.rs
index e5ca2e9..ed08584 100644
--- a/rustfst/src/fst_impls/vector_fst/parse_const.rs
+++ b/rustfst/src/fst_impls/vector_fst/parse_const.rs
@@ -4,6 +4,7 @@ use std::sync::Arc;
 
 use anyhow::{Context, Result};
 use nom::bytes::complete::take;
+use nom::combinator::verify;
 use nom::multi::count;
 use nom::number::complete::le_i32;
 use nom::IResult;
@@ -17,11 +18,11 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::SerializableFst;
 use crate::parsers::bin_fst::fst_header::FstHeader;
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    parse_bin_fst_tr, parse_final_weight, parse_start_state, verify_nextstates, verify_start_state,
 };
 use crate::parsers::nom_utils::NomCustomError;
 use crate::semirings::SerializableSemiring;
-use crate::{Tr, TrsVec};
+use crate::{Tr, TrsVec, EPS_LABEL};
 
 impl<W: SerializableSemiring> VectorFst<W> {
     /// Load a VectorFst directly from a ConstFst file.
@@ -86,7 +87,11 @@ fn parse_const_fst<W: SerializableSemiring>(
     if aligned && hdr.num_states > 0 && pos % CONST_ARCH_ALIGNMENT > 0 {
         i = take(CONST_ARCH_ALIGNMENT - (pos % CONST_ARCH_ALIGNMENT))(i)?.0;
     }
-    let (mut i, temp_states) = count(parse_const_state::<W>, hdr.num_states as usize)(i)?;
+    let num_states = hdr.num_states as usize;
+    let (mut i, temp_states) = verify(
+        count(parse_const_state::<W>, num_states),
+        |_: &Vec<TempState<W>>| verify_start_state(hdr.start, num_states),
+    )(i)?;
     let pos = stream_len - i.len();
 
     // Align input
@@ -96,7 +101,15 @@ fn parse_const_fst<W: SerializableSemiring>(
 
     let mut vector_states = Vec::with_capacity(temp_states.len());
     for temp_state in temp_states {
-        let (j, trs) = count(parse_bin_fst_tr, temp_state.ntrs)(i)?;
+        let (j, trs) = verify(
+            count(parse_bin_fst_tr, temp_state.ntrs),
+            |trs: &Vec<Tr<W>>| {
+                let count_trs = |f: fn(&&Tr<W>) -> bool| trs.iter().filter(f).count();
+                verify_nextstates(trs, num_states)
+                    && temp_state.niepsilons == count_trs(|tr| tr.ilabel == EPS_LABEL)
+                    && temp_state.noepsilons == count_trs(|tr| tr.olabel == EPS_LABEL)
+            },
+        )(i)?;
         i = j;
         vector_states.push(VectorFstState {
             final_weight: temp_state.final_weight,
-- 
2.43.0

