From f9b488f39d80a376c08ff91a0969ccd3fe655c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 01/21] dd_sim hooks: join fuel, chunk sizes (cfg-guarded)

---
 differential-dataflow/src/columnar/mod.rs            |  2 +-
 differential-dataflow/src/columnar/trace/chunk.rs    |  2 +-
 differential-dataflow/src/lib.rs                     | 12 ++++++++++++
 differential-dataflow/src/operators/join.rs          |  2 ++
 differential-dataflow/src/trace/chunk/vec.rs         |  2 +-
 .../src/trace/implementations/merge_batcher.rs       |  2 ++
 6 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/differential-dataflow/src/columnar/mod.rs b/differential-dataflow/src/columnar/mod.rs
index 49b439c..057616c 100644
--- a/differential-dataflow/src/columnar/mod.rs
+++ b/differential-dataflow/src/columnar/mod.rs
@@ -38,4 +38,4 @@ pub use updates::UpdatesTyped;
 
 /// Target size for update batches, in number of updates. The collection-side
 /// input builder and the trace-side `Chunker` aim to ship chunks within 1-2x this.
-pub const LINK_TARGET: usize = 64 * 1024;
+pub const LINK_TARGET: usize = if cfg!(dd_sim) { 32 } else { 64 * 1024 };
diff --git a/differential-dataflow/src/columnar/trace/chunk.rs b/differential-dataflow/src/columnar/trace/chunk.rs
index a8357ae..95a4e9f 100644
--- a/differential-dataflow/src/columnar/trace/chunk.rs
+++ b/differential-dataflow/src/columnar/trace/chunk.rs
@@ -56,7 +56,7 @@ use crate::trace::chunk::Chunk;
 ///
 /// Smaller than `crate::columnar::LINK_TARGET` so multi-chunk batches — and the
 /// straddle cursor — are exercised; the trie operations are happy at any size.
-const TARGET: usize = 8192;
+const TARGET: usize = if cfg!(dd_sim) { 16 } else { 8192 };
 
 /// Resident bounds for a paged chunk: the first and last `(key, val, time)` as
 /// single-element columnar containers (so [`Chunk::bounds`] returns refs without
diff --git a/differential-dataflow/src/lib.rs b/differential-dataflow/src/lib.rs
index 81db82a..6365f3c 100644
--- a/differential-dataflow/src/lib.rs
+++ b/differential-dataflow/src/lib.rs
@@ -72,6 +72,8 @@
 
 #![forbid(missing_docs)]
 #![allow(array_into_iter)]
+// `cfg(dd_sim)` guards hooks for deterministic simulation, off in every ordinary build.
+#![allow(unexpected_cfgs)]
 
 
 use std::fmt::Debug;
@@ -106,6 +108,16 @@ pub mod consolidation;
 pub mod capture;
 pub mod columnar;
 
+/// Tuning knobs for deterministic simulation.
+#[cfg(dd_sim)]
+pub mod dd_sim {
+    use std::sync::atomic::AtomicIsize;
+    /// Records a join may produce in one activation.
+    pub static JOIN_FUEL: AtomicIsize = AtomicIsize::new(2_000_000);
+    /// Target capacity of the chunks of a merge batcher; zero for the default.
+    pub static BATCHER_CHUNK: AtomicIsize = AtomicIsize::new(0);
+}
+
 /// Configuration options for differential dataflow.
 #[derive(Default)]
 pub struct Config {
diff --git a/differential-dataflow/src/operators/join.rs b/differential-dataflow/src/operators/join.rs
index 413e61d..ef9e3e2 100644
--- a/differential-dataflow/src/operators/join.rs
+++ b/differential-dataflow/src/operators/join.rs
@@ -332,6 +332,8 @@ where
                 }
             };
             let fuel = 2_000_000;
+            #[cfg(dd_sim)]
+            let fuel = std::cmp::min(fuel, crate::dd_sim::JOIN_FUEL.load(std::sync::atomic::Ordering::Relaxed));
             drain(&mut todo0, fuel / 2);
             drain(&mut todo1, fuel / 2);
             if !todo0.is_empty() || !todo1.is_empty() {
diff --git a/differential-dataflow/src/trace/chunk/vec.rs b/differential-dataflow/src/trace/chunk/vec.rs
index 1a6b9af..dc0e7ff 100644
--- a/differential-dataflow/src/trace/chunk/vec.rs
+++ b/differential-dataflow/src/trace/chunk/vec.rs
@@ -32,7 +32,7 @@ use crate::trace::implementations::{BatchContainer, Layout, Vector, WithLayout};
 use super::Chunk;
 
 /// The chunk size: the [`Chunk::TARGET`] value, also used for buffer sizing.
-const TARGET: usize = 8192;
+const TARGET: usize = if cfg!(dd_sim) { 16 } else { 8192 };
 
 /// A sorted, consolidated run of `((key, val), time, diff)`, shared via `Rc`.
 pub struct VecChunk<K, V, T, R>(Rc<Vec<((K, V), T, R)>>);
diff --git a/differential-dataflow/src/trace/implementations/merge_batcher.rs b/differential-dataflow/src/trace/implementations/merge_batcher.rs
index 83947ee..ccd021f 100644
--- a/differential-dataflow/src/trace/implementations/merge_batcher.rs
+++ b/differential-dataflow/src/trace/implementations/merge_batcher.rs
@@ -243,6 +243,8 @@ pub mod vec {
         /// This amount is used to size vectors, where vectors not exactly this capacity are dropped.
         /// If this is mis-set, there is the potential for more memory churn than anticipated.
         fn target_capacity() -> usize {
+            #[cfg(dd_sim)]
+            if let n @ 1.. = crate::dd_sim::BATCHER_CHUNK.load(std::sync::atomic::Ordering::Relaxed) { return n as usize; }
             timely::container::buffer::default_capacity::<(D, T, R)>().next_power_of_two()
         }
         /// Acquire a buffer with the target capacity.
-- 
2.43.0


From 741c441a8dab09992b0392b6fb61ace5e5181b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 02/21] fix: InputSession resends updates left in the buffer by
 send_batch

---
 differential-dataflow/src/input.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/differential-dataflow/src/input.rs b/differential-dataflow/src/input.rs
index 01292ec..6542d3f 100644
--- a/differential-dataflow/src/input.rs
+++ b/differential-dataflow/src/input.rs
@@ -217,7 +217,7 @@ impl<T: Timestamp+Clone, D: Data, R: Semigroup+'static> InputSession<T, D, R> {
     pub fn update(&mut self, element: D, change: R) {
         if self.buffer.len() == self.buffer.capacity() {
             if !self.buffer.is_empty() {
-                self.handle.send_batch(&mut self.buffer);
+                self.send_buffer();
             }
             // TODO : This is a fairly arbitrary choice; should probably use `Context::default_size()` or such.
             self.buffer.reserve(1024);
@@ -230,7 +230,7 @@ impl<T: Timestamp+Clone, D: Data, R: Semigroup+'static> InputSession<T, D, R> {
         assert!(self.time.less_equal(&time));
         if self.buffer.len() == self.buffer.capacity() {
             if !self.buffer.is_empty() {
-                self.handle.send_batch(&mut self.buffer);
+                self.send_buffer();
             }
             // TODO : This is a fairly arbitrary choice; should probably use `Context::default_size()` or such.
             self.buffer.reserve(1024);
@@ -238,13 +238,22 @@ impl<T: Timestamp+Clone, D: Data, R: Semigroup+'static> InputSession<T, D, R> {
         self.buffer.push((element, time, change));
     }
 
+    /// Sends all buffered updates, leaving the buffer empty.
+    ///
+    /// The `send_batch` method may hand back a buffer that is still populated (for example, when its contents
+    /// were serialized rather than moved), and we must not send those updates a second time.
+    fn send_buffer(&mut self) {
+        self.handle.send_batch(&mut self.buffer);
+        self.buffer.clear();
+    }
+
     /// Forces buffered data into the timely dataflow input, and advances its time to match that of the session.
     ///
     /// It is important to call `flush` before expecting timely dataflow to report progress. Until this method is
     /// called, all updates may still be in internal buffers and not exposed to timely dataflow. Once the method is
     /// called, all buffers are flushed and timely dataflow is advised that some logical times are no longer possible.
     pub fn flush(&mut self) {
-        self.handle.send_batch(&mut self.buffer);
+        self.send_buffer();
         if self.handle.time().less_than(&self.time) {
             self.handle.advance_to(self.time.clone());
         }
-- 
2.43.0


From 6d60a32623f383908354898e13e9eea8c3fb9f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 03/21] fix: threshold_total treats absent records as present,
 so distinct_total never retracts

---
 differential-dataflow/src/operators/threshold.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/differential-dataflow/src/operators/threshold.rs b/differential-dataflow/src/operators/threshold.rs
index 2909a0c..35c94a6 100644
--- a/differential-dataflow/src/operators/threshold.rs
+++ b/differential-dataflow/src/operators/threshold.rs
@@ -41,13 +41,17 @@ pub trait ThresholdTotal<'scope, T: Timestamp + TotalOrder + Lattice, K: Exchang
     /// ```
     fn threshold_total<R2: Abelian+'static, F: FnMut(&K,&R)->R2+'static>(self, mut thresh: F) -> VecCollection<'scope, T, K, R2> {
         self.threshold_semigroup(move |key, new, old| {
-            let mut new = thresh(key, new);
-            if let Some(old) = old {
-                let mut add = thresh(key, old);
-                add.negate();
-                new.plus_equals(&add);
+            // A weight of zero means the record is absent, and `thresh` should not be consulted about it.
+            let mut result = if new.is_zero() { None } else { Some(thresh(key, new)) };
+            if let Some(old) = old.filter(|old| !old.is_zero()) {
+                let mut sub = thresh(key, old);
+                sub.negate();
+                match result.as_mut() {
+                    Some(result) => result.plus_equals(&sub),
+                    None => result = Some(sub),
+                }
             }
-            if !new.is_zero() { Some(new) } else { None }
+            result.filter(|result| !result.is_zero())
         })
     }
     /// Reduces the collection to one occurrence of each distinct element.
-- 
2.43.0


From 843715d5c7c80b590ab860f3d821cfbb9450a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 04/21] fix: CursorList::seek_val must not move cursors at
 other keys

---
 differential-dataflow/src/trace/cursor/cursor_list.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differential-dataflow/src/trace/cursor/cursor_list.rs b/differential-dataflow/src/trace/cursor/cursor_list.rs
index 4f39fcf..69189cd 100644
--- a/differential-dataflow/src/trace/cursor/cursor_list.rs
+++ b/differential-dataflow/src/trace/cursor/cursor_list.rs
@@ -183,8 +183,9 @@ impl<C: Cursor> Cursor for CursorList<C> {
     }
     #[inline]
     fn seek_val(&mut self, storage: &Vec<C::Storage>, val: Self::Val<'_>) {
-        for (cursor, storage) in self.cursors.iter_mut().zip(storage) {
-            cursor.seek_val(storage, val);
+        // Only cursors at the current key may move: others may be at later keys, whose values we must still visit.
+        for &index in self.min_key.iter() {
+            self.cursors[index].seek_val(&storage[index], val);
         }
         self.minimize_vals(storage);
     }
-- 
2.43.0


From 0c41fff8f4802eec14c63eb824667802181a5b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 05/21] fix: capture sink retries refused progress statements
 without awaiting a further frontier change

---
 differential-dataflow/src/capture.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/differential-dataflow/src/capture.rs b/differential-dataflow/src/capture.rs
index ba1522a..1cfabe7 100644
--- a/differential-dataflow/src/capture.rs
+++ b/differential-dataflow/src/capture.rs
@@ -698,16 +698,17 @@ pub mod sink {
 
                             // Advance our frontier to track our progress utterance.
                             frontier = frontiers[0].frontier().to_owned();
+                        }
 
-                            while let Some(message) = send_queue.front() {
-                                if let Some(duration) = sink.poll(message) {
-                                    // Reschedule after `duration` and then bail.
-                                    reactivator.activate_after(duration);
-                                    // Signal that work remains to be done.
-                                    return true;
-                                } else {
-                                    send_queue.pop_front();
-                                }
+                        // Drain whatever we can, including statements that were refused earlier.
+                        while let Some(message) = send_queue.front() {
+                            if let Some(duration) = sink.poll(message) {
+                                // Reschedule after `duration` and then bail.
+                                reactivator.activate_after(duration);
+                                // Signal that work remains to be done.
+                                return true;
+                            } else {
+                                send_queue.pop_front();
                             }
                         }
                         // Signal incompleteness if messages remain to be sent.
-- 
2.43.0


From 45e3dc3a7d7764fd9dea1f7ec306ed2a0a2c60f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 06/21] fix: capture iterator deduplicates updates repeated
 within one message

---
 differential-dataflow/src/capture.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/differential-dataflow/src/capture.rs b/differential-dataflow/src/capture.rs
index 1cfabe7..7149c2f 100644
--- a/differential-dataflow/src/capture.rs
+++ b/differential-dataflow/src/capture.rs
@@ -129,14 +129,13 @@ pub mod iterator {
                 match message {
                     Message::Updates(mut updates) => {
                         // Discard updates at reported times, or duplicates at unreported times.
+                        // Others are recorded in our de-duplication collection, as they may also repeat within the message.
                         updates.retain(|dtr| {
-                            self.reported_frontier.less_equal(&dtr.1) && !self.updates.contains(dtr)
+                            self.reported_frontier.less_equal(&dtr.1) && self.updates.insert(dtr.clone())
                         });
                         // Decrement our counts of accounted-for messages.
                         self.messages_frontier
                             .update_iter(updates.iter().map(|(_, t, _)| (t.clone(), -1)));
-                        // Record the messages in our de-duplication collection.
-                        self.updates.extend(updates.into_iter());
                     }
                     Message::Progress(progress) => {
                         // A progress statement may not be immediately actionable.
-- 
2.43.0


From 018daecd6afeb91ebacd07b914c167b33b70a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 07/21] fix: half_join2 reactivates when stuck records become
 eligible while it drains ready ones

---
 dogsdogsdogs/src/operators/half_join2.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dogsdogsdogs/src/operators/half_join2.rs b/dogsdogsdogs/src/operators/half_join2.rs
index e9deb66..0789027 100644
--- a/dogsdogsdogs/src/operators/half_join2.rs
+++ b/dogsdogsdogs/src/operators/half_join2.rs
@@ -176,6 +176,8 @@ where
 
             // Local variables to track if and when we should exit early.
             let mut yielded = false;
+            // Set when stuck records became eligible while we drained the ready ones ahead of them.
+            let mut promotable = false;
             let timer = std::time::Instant::now();
             let mut work = 0;
 
@@ -326,10 +328,14 @@ where
 
                 // Remove fully-consumed blobs.
                 blobs.retain(|blob| !blob.data.is_empty());
+
+                // The frontier may have advanced while a blob still held ready elements, after we yielded.
+                // It may not advance again, and so will not itself prompt us to promote stuck elements.
+                promotable = blobs.iter().any(|b| b.stuck_count == b.data.len() && b.data.front().is_some_and(|(t, _, _)| eligible(t)));
             }
 
-            // Re-activate if we have blobs with ready elements to process.
-            if blobs.iter().any(|b| b.data.len() > b.stuck_count) {
+            // Re-activate if we have blobs with elements to process, or to promote.
+            if promotable || blobs.iter().any(|b| b.data.len() > b.stuck_count) {
                 activator.activate();
             }
 
-- 
2.43.0


From cf9f4da1c8f24915f239b413bbfa47b6d670e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 08/21] fix: columnar exchange forwards the record count of
 containers whose updates all cancelled

---
 differential-dataflow/src/columnar/collection/exchange.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/differential-dataflow/src/columnar/collection/exchange.rs b/differential-dataflow/src/columnar/collection/exchange.rs
index ff71b55..4ad6981 100644
--- a/differential-dataflow/src/columnar/collection/exchange.rs
+++ b/differential-dataflow/src/columnar/collection/exchange.rs
@@ -69,6 +69,11 @@ impl<U: Update, H: for<'a> FnMut(columnar::Ref<'a, U::Key>)->u64> Distributor<Re
         let total_records = container.records;
         let non_empty: usize = outputs.iter().filter(|o| !o.keys.values.is_empty()).count();
         let mut first_records = total_records.saturating_sub(non_empty.saturating_sub(1));
+        // Updates may all have cancelled, but the record count was announced and must still be received.
+        if non_empty == 0 && total_records > 0 {
+            let mut recorded = RecordedUpdates { updates: Default::default(), records: total_records, consolidated: true };
+            Message::push_at(&mut recorded, time.clone(), &mut pushers[0]);
+        }
         for (pusher, output) in pushers.iter_mut().zip(outputs) {
             if !output.keys.values.is_empty() {
                 let recorded = RecordedUpdates { updates: output.into(), records: first_records, consolidated: container.consolidated };
-- 
2.43.0


From 376cadaf93f7df49252bc2e55ea37dc543f8101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 09/21] fix: reduce pends joins of interesting times with
 history times compacted beyond the upper limit

---
 differential-dataflow/src/operators/common.rs |  5 +++++
 differential-dataflow/src/operators/reduce.rs | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/differential-dataflow/src/operators/common.rs b/differential-dataflow/src/operators/common.rs
index aea8e59..c604873 100644
--- a/differential-dataflow/src/operators/common.rs
+++ b/differential-dataflow/src/operators/common.rs
@@ -355,6 +355,11 @@ pub fn discover_times<T, RIn>(
             }
         } else if interesting {
             pended.push(next_time.clone());
+        } else {
+            // Compaction can advance history times beyond `upper`; they still join the interesting
+            // times, at times that are also beyond `upper`.
+            pended.extend(batch_replay.buffer().iter().map(|t| t.join(&next_time)));
+            pended.extend(times_current.iter().map(|t| t.join(&next_time)));
         }
 
         meet = None;
diff --git a/differential-dataflow/src/operators/reduce.rs b/differential-dataflow/src/operators/reduce.rs
index 8323810..ab8ff61 100644
--- a/differential-dataflow/src/operators/reduce.rs
+++ b/differential-dataflow/src/operators/reduce.rs
@@ -786,6 +786,12 @@ mod cursors {
                         new_interesting.push(next_time.clone());
                         debug_assert!(outputs.iter().any(|(t,_)| t.less_equal(&next_time)))
                     }
+                    else {
+                        // Compaction can advance historical times beyond `upper_limit`. Their joins with interesting
+                        // times are interesting, and as they are also beyond `upper_limit` they must be delayed.
+                        new_interesting.extend(batch_replay.buffer().iter().map(|((_,time),_)| time.join(&next_time)));
+                        new_interesting.extend(self.times_current.iter().map(|time| time.join(&next_time)));
+                    }
 
                     // Update `meet` to track the meet of each source of times.
                     meet = None;
@@ -1221,6 +1227,11 @@ pub(crate) mod reference {
                     else if interesting {
                         new_interesting.push(next_time.clone());
                     }
+                    else {
+                        // A base time beyond `upper` still joins the reached times; the joins are pended.
+                        new_interesting.extend(batch_replay.buffer().iter().map(|t| t.join(&next_time)));
+                        new_interesting.extend(self.times_current.iter().map(|t| t.join(&next_time)));
+                    }
 
                     // Running meet (a lower bound on every time still to visit); compact the reached
                     // partners `times_current` with it.
-- 
2.43.0


From cbb5fa5050deb046dde0eb27c0786c4348947f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 10/21] fix: DDIR enter_at and lift_iter fused in one linear
 chain compose their delays

A chain of linear operators is rendered as one pass. Each enter_at in it
overwrote the delay of an earlier one, and lift_iter read the iteration of
the row as it entered the chain, disregarding enter_at's earlier in it.
Unfused (unoptimised) programs do neither. Join the delays, and read the
iteration from the delayed time.
---
 interactive/src/backend/vec.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/interactive/src/backend/vec.rs b/interactive/src/backend/vec.rs
index 2a5001c..bdc2913 100644
--- a/interactive/src/backend/vec.rs
+++ b/interactive/src/backend/vec.rs
@@ -46,10 +46,6 @@ fn render_linear<'scope>(c: Col<'scope>, ops: Vec<LinearOp>, level: usize) -> Co
     use timely::dataflow::operators::core::Map;
     c.inner.flat_map(move |((key, val), t_in, d_in)| {
         use timely::progress::Timestamp;
-        let iter_at_level: i64 = level
-            .checked_sub(1)
-            .and_then(|idx| t_in.inner.get(idx).copied())
-            .unwrap_or(0) as i64;
         let mut results: smallvec::SmallVec<[((Row, Row), Time, Diff); 2]> = svec![((key, val), Time::minimum(), 1)];
         for op in &ops {
             let mut next = smallvec::SmallVec::new();
@@ -77,9 +73,16 @@ fn render_linear<'scope>(c: Col<'scope>, ops: Vec<LinearOp>, level: usize) -> Co
                         let mut coords = smallvec::SmallVec::<[u64; 1]>::new();
                         for _ in 0..level.saturating_sub(1) { coords.push(0); }
                         coords.push(delay);
-                        next.push(((k, v), Product::new(0u64, PointStamp::new(coords)), d));
+                        // Joined with the delay of any `EnterAt` earlier in the chain.
+                        next.push(((k, v), t.join(&Product::new(0u64, PointStamp::new(coords))), d));
                     },
                     LinearOp::LiftIter => {
+                        // The iteration the row has reached at this point of the chain,
+                        // including the delay of any `EnterAt` earlier in it.
+                        let iter_at_level: i64 = level
+                            .checked_sub(1)
+                            .and_then(|idx| t_in.join(&t).inner.get(idx).copied())
+                            .unwrap_or(0) as i64;
                         next.push(((k, append_iter(v, iter_at_level)), t, d));
                     },
                     LinearOp::FlatMap(list_term) => {
-- 
2.43.0


From 517199beaeeb3a7c560f1b0d3432afb77ea9116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:45 +0000
Subject: [PATCH 11/21] fix: DDIR explanation of flatmap whose list names the
 key or whose input leaves another scope

The backward rule evaluated the list term after re-keying the input by its
whole row, so a term reading $0 saw something else and no demand matched. It
also took the input to be at the depth of the output, which it is not when it
is a child scope's export or a parent's name.
---
 interactive/src/explain/mod.rs | 44 +++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/interactive/src/explain/mod.rs b/interactive/src/explain/mod.rs
index 1c1bba3..aa4be24 100644
--- a/interactive/src/explain/mod.rs
+++ b/interactive/src/explain/mod.rs
@@ -483,44 +483,44 @@ impl Sb {
     }
 
     /// FlatMap's (UNNEST's) backward rule — the universal backstop instantiated
-    /// for a cardinality-changing op. FlatMap is *same-depth* (it doesn't touch
-    /// iteration time) and its list rides as one opaque value, so this needs no
-    /// envelope change: build the `(output -> input)` pair table by running the
-    /// op forward on the input side, join the demand on the output, recover the
-    /// whole input (the `None` endpoint — `RESIDUAL` is the input value).
+    /// for a cardinality-changing op. The list rides as one opaque value, so
+    /// this needs no envelope change: build the `(output -> input)` pair table
+    /// by running the op forward on the input side, join the demand on the
+    /// output, recover the whole input (the `None` endpoint — `RESIDUAL` is the
+    /// input value). The input may live in another scope than the output (a
+    /// child's export, say), so the chains are compared and stripped as in the
+    /// other lookups.
     ///
     /// The one wrinkle is that a plain flatmap drops the source row and the key
     /// isn't unique, so we **re-key the input by itself** before exploding (the
     /// source then rides through in the join key) and re-project to the packed
-    /// output afterwards. `output_shape.1 == 2` (the `tuple(pos, elem)` value).
+    /// output afterwards. The list is evaluated as the row is re-keyed, while
+    /// its term still sees the input's own key and value.
+    /// `output_shape.1 == 2` (the `tuple(pos, elem)` value).
     fn emit_lookup_flatmap(&mut self, dep_y: Ref, side: &Side, output_shape: (usize, usize), out_user_len: usize, list_term: &Term) -> Ref {
-        let (_, v_in) = side.shape;
+        let (k_in, v_in) = side.shape;
         let v_out = output_shape.1;          // 2: pos, elem
-        let d = out_user_len;                // same depth for input and output
+        let (i, o) = (side.user_len, out_user_len);
         // Pair table: re-key the input by the whole input row, explode (the
         // source survives in the key), then re-key to (k, pos, elem) carrying
         // the source as the value.
         let src = self.concat(vec![side.witness.clone(), side.forward.clone()]);
-        let rekeyed = self.project(src, Projection { key: tup(vec![var(0), var(1)]), val: var(1) });
-        let exploded = self.linear(rekeyed, vec![LinearOp::FlatMap(list_term.clone())]);
+        let rekeyed = self.project(src, Projection { key: tup(vec![var(0), var(1)]), val: list_term.clone() });
+        let exploded = self.linear(rekeyed, vec![LinearOp::FlatMap(var(1))]);
         let pair = self.project(exploded, Projection { key: tup(vec![f(0, 0), f(1, 0), f(1, 1)]), val: var(0) });
         // Re-key the demand by the same packed output; keep its chain ++ q.
-        let dep_keyed = self.project(dep_y, Projection { key: tup(vec![var(0), f(1, 0), f(1, 1)]), val: tup(fidx(1, v_out, v_out + d + 1)) });
+        let dep_keyed = self.project(dep_y, Projection { key: tup(vec![var(0), f(1, 0), f(1, 1)]), val: tup(fidx(1, v_out, v_out + o + 1)) });
         // Join into a wide row [V_in | chain_in | chain_out | q]. Source is `$2`
         // = (k, host_val); host_val = [V_in | chain_in]. Dep' is `$1` = [chain_out | q].
         let mut wide = (0..v_in).map(|c| fld(f(2, 1), c)).collect::<Vec<_>>();   // V_in
-        wide.extend((0..d).map(|c| fld(f(2, 1), v_in + c)));                     // chain_in
-        wide.extend(fidx(1, 0, d));                                             // chain_out
-        wide.push(f(1, d));                                                     // q
+        wide.extend((0..i).map(|c| fld(f(2, 1), v_in + c)));                     // chain_in
+        wide.extend(fidx(1, 0, o));                                             // chain_out
+        wide.push(f(1, o));                                                     // q
         let joined = self.join(dep_keyed, pair, Projection { key: f(2, 0), val: tup(wide) });
-        // Soundness: chain_in ≤ chain_out (same depth, so coordinate-aligned).
-        let cond = and_all((0..d).map(|c| le(f(1, v_in + c), f(1, v_in + d + c))).collect());
-        let filtered = match cond { Some(c) => self.filter(joined, c), None => joined };
-        // Reform the demanded input (k ; V_in ++ chain_out ++ q).
-        let mut val = fidx(1, 0, v_in);
-        val.extend(fidx(1, v_in + d, v_in + 2 * d));
-        val.push(f(1, v_in + 2 * d));
-        self.project(filtered, Projection { key: var(0), val: tup(val) })
+        // Soundness: chain_in ≤ chain_out.
+        let filtered = match <Val as RowModel>::time_le(v_in, i, o) { Some(c) => self.filter(joined, c), None => joined };
+        // Reform the demanded input (k ; V_in ++ chain_in ++ q).
+        self.project(filtered, <Val as RowModel>::strip(k_in, v_in, i, o, i))
     }
 }
 
-- 
2.43.0


From b10adec45adb5891c469de0e61436cb19dda0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:04 +0000
Subject: [PATCH 12/21] fix: DDIR explanation of a reference into a sibling
 scope

A reference from one scope to an export of another names a site whose chain
of iterations has nothing to do with those of the referring scope, beyond the
scopes around both. The reverse rules compared the two chains all the same,
or passed demand on with the wrong one, and so lost demand: at iteration 0 of
the referring scope, a row a sibling's loop derived at iteration 1 found no
explanation. See such a target as it leaves its scope, with the shared chain,
and let the depth adapter restore the rest.
---
 interactive/src/explain/mod.rs | 66 +++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/interactive/src/explain/mod.rs b/interactive/src/explain/mod.rs
index aa4be24..9e137d0 100644
--- a/interactive/src/explain/mod.rs
+++ b/interactive/src/explain/mod.rs
@@ -903,6 +903,36 @@ impl<'a> Reverse<'a> {
         }
     }
 
+    /// What `input`, a reference in the scope at `path`, names, and how it looks
+    /// from there. A target in the scope itself, in one around it, or in one
+    /// within it is seen with its own chain. A target in any other scope (a
+    /// sibling's export, say) has iterations unrelated to those of `path`, other
+    /// than those of the scopes around both: it is seen with the chain of these,
+    /// as it leaves the last scope they do not share.
+    fn input(&self, ex: &mut Sb, path: &[usize], input: &Ref) -> (Target, Side) {
+        let target = resolve(self.orig, path, input);
+        let mut side = self.side(&target);
+        if let Target::Site(a) = &target {
+            let shared = path.iter().zip(&a.path).take_while(|(p, q)| p == q).count();
+            if shared < path.len() && shared < a.path.len() {
+                let (k, v) = side.shape;
+                let mut val = fidx(1, 0, v);
+                val.extend(fidx(1, v + side.user_len - shared, v + side.user_len));
+                let leave = Projection { key: tup(fidx(0, 0, k)), val: tup(val) };
+                side.witness = ex.project(side.witness, leave.clone());
+                side.forward = ex.project(side.forward, leave);
+                side.user_len = shared;
+            }
+        }
+        (target, side)
+    }
+
+    /// Contribute demand on `target` with a chain of length `from_len`.
+    fn contribute(&mut self, ex: &mut Sb, target: Target, contrib: Ref, from_len: usize) {
+        let routed = self.route(ex, contrib, from_len, &target);
+        self.contribs.entry(target).or_default().push(routed);
+    }
+
     /// Adapt `contrib` (chain length `from_len`) to `target`'s depth: equal
     /// lengths push through; otherwise the shape-preserving lookup against the
     /// target's host injects or strips the difference.
@@ -917,9 +947,9 @@ impl<'a> Reverse<'a> {
     }
 
     fn push(&mut self, ex: &mut Sb, path: &[usize], input: &Ref, contrib: Ref, from_len: usize) {
-        let target = resolve(self.orig, path, input);
-        let routed = self.route(ex, contrib, from_len, &target);
-        self.contribs.entry(target).or_default().push(routed);
+        let (target, side) = self.input(ex, path, input);
+        let seen = if side.user_len == from_len { contrib } else { ex.emit_lookup_shape_preserving(contrib, &side, from_len) };
+        self.contribute(ex, target, seen, side.user_len);
     }
 
     fn walk(&mut self, ex: &mut Sb, s: &Scope, path: &[usize]) {
@@ -988,10 +1018,9 @@ impl<'a> Reverse<'a> {
                 };
                 match op {
                     LinearOp::Project(proj) => {
-                        let target = resolve(self.orig, path, input);
-                        let side = self.side(&target);
+                        let (target, side) = self.input(ex, path, input);
                         let contrib = ex.emit_lookup_lossy(dep_this, &side, out_shape, out_user_len, proj);
-                        self.contribs.entry(target).or_default().push(contrib);
+                        self.contribute(ex, target, contrib, side.user_len);
                     }
                     LinearOp::Filter(cond) => {
                         let contrib = ex.filter(dep_this, cond.clone());
@@ -1005,38 +1034,33 @@ impl<'a> Reverse<'a> {
                     }
                     LinearOp::LiftIter => panic!("explain: LiftIter in user program"),
                     LinearOp::FlatMap(list_term) => {
-                        let target = resolve(self.orig, path, input);
-                        let side = self.side(&target);
+                        let (target, side) = self.input(ex, path, input);
                         let contrib = ex.emit_lookup_flatmap(dep_this, &side, out_shape, out_user_len, list_term);
-                        self.contribs.entry(target).or_default().push(contrib);
+                        self.contribute(ex, target, contrib, side.user_len);
                     }
                 }
             }
             Node::Concat(refs) => {
                 for r in refs {
-                    let target = resolve(self.orig, path, r);
-                    let side = self.side(&target);
+                    let (target, side) = self.input(ex, path, r);
                     let contrib = ex.emit_lookup_shape_preserving(dep_this.clone(), &side, out_user_len);
-                    self.contribs.entry(target).or_default().push(contrib);
+                    self.contribute(ex, target, contrib, side.user_len);
                 }
             }
             Node::Arrange(input) | Node::Inspect { input, .. } => {
                 self.push(ex, path, input, dep_this, out_user_len);
             }
             Node::Reduce { input, reducer } => {
-                let target = resolve(self.orig, path, input);
-                let side = self.side(&target);
+                let (target, side) = self.input(ex, path, input);
                 let contrib = ex.emit_lookup_keyed(dep_this, &side, out_shape, out_user_len, reducer);
-                self.contribs.entry(target).or_default().push(contrib);
+                self.contribute(ex, target, contrib, side.user_len);
             }
             Node::Join { left, right, projection } => {
-                let lt = resolve(self.orig, path, left);
-                let rt = resolve(self.orig, path, right);
-                let ls = self.side(&lt);
-                let rs = self.side(&rt);
+                let (lt, ls) = self.input(ex, path, left);
+                let (rt, rs) = self.input(ex, path, right);
                 let (lc, rc) = ex.emit_lookup_join(dep_this, &ls, &rs, out_shape, out_user_len, projection);
-                self.contribs.entry(lt).or_default().push(lc);
-                self.contribs.entry(rt).or_default().push(rc);
+                self.contribute(ex, lt, lc, ls.user_len);
+                self.contribute(ex, rt, rc, rs.user_len);
             }
         }
     }
-- 
2.43.0


From 567bca328386c9a774994f20e964546e7093d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 13/21] fix: interactive server refuses programs and exports
 named as on-demand sources

---
 interactive/src/server.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interactive/src/server.rs b/interactive/src/server.rs
index f4ee535..863c650 100644
--- a/interactive/src/server.rs
+++ b/interactive/src/server.rs
@@ -145,6 +145,9 @@ fn canonical_source_name(name: &str) -> String {
     Recipe::parse(name).map(|r| r.canonical()).unwrap_or_else(|| name.to_string())
 }
 
+/// Whether `name` addresses a source installed on demand when imported.
+fn is_source_name(name: &str) -> bool { name == "clock" || Recipe::parse(name).is_some() }
+
 /// A unit of server work, already parsed/lowered/validated on the intake side.
 ///
 /// Serializable so it can be circulated to every worker through a timely
@@ -233,6 +236,12 @@ impl Server {
         if self.programs.contains_key(name) {
             return Err(format!("a program named {:?} is already installed", name));
         }
+        // Programs share one namespace with on-demand sources, which are looked
+        // up by canonical name: a program so named would be replaced by (or be
+        // unreachable behind) the source, as would an export so named.
+        if let Some(taken) = std::iter::once(name).chain(prog.root.exports.iter().map(|e| e.name.as_str())).find(|n| is_source_name(n)) {
+            return Err(format!("program {:?} cannot use the name {:?}: it names an on-demand source", name, taken));
+        }
         // Resolve trace imports against canonical names, installing generated
         // sources (e.g. `random:...`) on demand. A name that is neither
         // registered nor a recipe is an error.
-- 
2.43.0


From d77b2809bacf182b4bf55949fc3c1e770c127579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 14/21] fix: interactive server installs sources only for a
 program it accepts

---
 interactive/src/server.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/interactive/src/server.rs b/interactive/src/server.rs
index 863c650..39d61aa 100644
--- a/interactive/src/server.rs
+++ b/interactive/src/server.rs
@@ -242,9 +242,23 @@ impl Server {
         if let Some(taken) = std::iter::once(name).chain(prog.root.exports.iter().map(|e| e.name.as_str())).find(|n| is_source_name(n)) {
             return Err(format!("program {:?} cannot use the name {:?}: it names an on-demand source", name, taken));
         }
+        // Validate everything before installing anything, so that a refused
+        // install changes nothing. An import that is neither registered nor
+        // installed on demand is an error.
+        for imp in &prog.root.imports {
+            if let st::Source::Trace(t) = &imp.from {
+                if !self.traces.contains_key(&canonical_source_name(t)) && !is_source_name(t) {
+                    return Err(format!("program {:?} imports unknown trace {:?}; install its producer first", name, t));
+                }
+            }
+        }
+        for e in &prog.root.exports {
+            if self.traces.contains_key(&e.name) {
+                return Err(format!("export name {:?} is already published; choose another name or drop its producer", e.name));
+            }
+        }
         // Resolve trace imports against canonical names, installing generated
-        // sources (e.g. `random:...`) on demand. A name that is neither
-        // registered nor a recipe is an error.
+        // sources (e.g. `random:...`) on demand.
         for imp in &prog.root.imports {
             if let st::Source::Trace(t) = &imp.from {
                 let key = canonical_source_name(t);
@@ -253,17 +267,10 @@ impl Server {
                         self.install_clock(worker);
                     } else if let Some(recipe) = Recipe::parse(&key) {
                         self.install_generated(worker, &key, recipe);
-                    } else {
-                        return Err(format!("program {:?} imports unknown trace {:?}; install its producer first", name, t));
                     }
                 }
             }
         }
-        for e in &prog.root.exports {
-            if self.traces.contains_key(&e.name) {
-                return Err(format!("export name {:?} is already published; choose another name or drop its producer", e.name));
-            }
-        }
 
         let import_names: Vec<String> = prog.root.imports.iter()
             .filter_map(|imp| match &imp.from { st::Source::Trace(t) => Some(canonical_source_name(t)), _ => None })
-- 
2.43.0


From c46c9961bcf21e3a080c63f980a917e88acde960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 15/21] fix: interactive server refuses a program that
 publishes one name twice

---
 interactive/src/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interactive/src/server.rs b/interactive/src/server.rs
index 39d61aa..be198cb 100644
--- a/interactive/src/server.rs
+++ b/interactive/src/server.rs
@@ -252,8 +252,8 @@ impl Server {
                 }
             }
         }
-        for e in &prog.root.exports {
-            if self.traces.contains_key(&e.name) {
+        for (i, e) in prog.root.exports.iter().enumerate() {
+            if self.traces.contains_key(&e.name) || prog.root.exports[..i].iter().any(|o| o.name == e.name) {
                 return Err(format!("export name {:?} is already published; choose another name or drop its producer", e.name));
             }
         }
-- 
2.43.0


From a8357794ceaaa5732a6abc2ca01536538b53785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 16/21] fix: interactive server refuses random sources over no
 nodes

---
 interactive/src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interactive/src/server.rs b/interactive/src/server.rs
index be198cb..ff7300a 100644
--- a/interactive/src/server.rs
+++ b/interactive/src/server.rs
@@ -91,7 +91,8 @@ impl Recipe {
             for kv in params.split(',') {
                 let (k, v) = kv.split_once('=')?;
                 match k.trim() {
-                    "nodes" => nodes = Some(v.trim().parse().ok()?),
+                    // Fields are drawn from `0..nodes`, which must not be empty.
+                    "nodes" => nodes = Some(v.trim().parse().ok().filter(|n| *n > 0)?),
                     "edges" => edges = Some(v.trim().parse().ok()?),
                     "arity" => arity = v.trim().parse().ok()?,
                     "seed" => seed = v.trim().parse().ok()?,
-- 
2.43.0


From 976e1cb5a158eb7e7bdea7dfdef26d2cacd9174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 17/21] dd_sim: knob for the capacity of chunkers and
 consolidating builders

---
 differential-dataflow/src/consolidation.rs                 | 4 ++++
 differential-dataflow/src/lib.rs                           | 6 ++++++
 differential-dataflow/src/trace/implementations/chunker.rs | 5 ++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/differential-dataflow/src/consolidation.rs b/differential-dataflow/src/consolidation.rs
index a56a425..6fb8591 100644
--- a/differential-dataflow/src/consolidation.rs
+++ b/differential-dataflow/src/consolidation.rs
@@ -165,6 +165,8 @@ where
     #[cold]
     fn consolidate_and_flush_through(&mut self, multiple: usize) {
         let preferred_capacity = timely::container::buffer::default_capacity::<(D, T, R)>();
+        #[cfg(dd_sim)]
+        let preferred_capacity = crate::dd_sim::container(preferred_capacity);
         consolidate_updates(&mut self.current);
         let mut drain = self.current.drain(..(self.current.len()/multiple)*multiple).peekable();
         while drain.peek().is_some() {
@@ -189,6 +191,8 @@ where
     #[inline]
     fn push_into(&mut self, item: P) {
         let preferred_capacity = timely::container::buffer::default_capacity::<(D, T, R)>();
+        #[cfg(dd_sim)]
+        let preferred_capacity = crate::dd_sim::container(preferred_capacity);
         if self.current.capacity() < preferred_capacity * 2 {
             self.current.reserve(preferred_capacity * 2 - self.current.capacity());
         }
diff --git a/differential-dataflow/src/lib.rs b/differential-dataflow/src/lib.rs
index 6365f3c..a7d7c08 100644
--- a/differential-dataflow/src/lib.rs
+++ b/differential-dataflow/src/lib.rs
@@ -116,6 +116,12 @@ pub mod dd_sim {
     pub static JOIN_FUEL: AtomicIsize = AtomicIsize::new(2_000_000);
     /// Target capacity of the chunks of a merge batcher; zero for the default.
     pub static BATCHER_CHUNK: AtomicIsize = AtomicIsize::new(0);
+    /// Capacity of the containers of chunkers and consolidating builders; zero for the default.
+    pub static CONTAINER: AtomicIsize = AtomicIsize::new(0);
+    /// The capacity of containers, which would otherwise be `default`.
+    pub fn container(default: usize) -> usize {
+        match CONTAINER.load(std::sync::atomic::Ordering::Relaxed) { n @ 1.. => n as usize, _ => default }
+    }
 }
 
 /// Configuration options for differential dataflow.
diff --git a/differential-dataflow/src/trace/implementations/chunker.rs b/differential-dataflow/src/trace/implementations/chunker.rs
index 4737838..79023cd 100644
--- a/differential-dataflow/src/trace/implementations/chunker.rs
+++ b/differential-dataflow/src/trace/implementations/chunker.rs
@@ -37,7 +37,10 @@ where
 
         for item in container.drain() {
             self.pending.push_into(item);
-            if self.pending.at_capacity() {
+            let full = self.pending.at_capacity();
+            #[cfg(dd_sim)]
+            let full = full || self.pending.len() >= crate::dd_sim::container(usize::MAX);
+            if full {
                 let starting_len = self.pending.len();
                 self.pending.consolidate_into(&mut self.empty);
                 std::mem::swap(&mut self.pending, &mut self.empty);
-- 
2.43.0


From 51f7e8f46661233345f832ae6a5a097f8032c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:43 +0000
Subject: [PATCH 18/21] fix: reduce takes source batches by their own
 frontiers, not the input's

The input frontier could move the operator's upper limit inside the interval of a
batch that had yet to arrive, and the next retirement then asked the source trace
for the batches through a frontier within that batch: a panic, when the arrangement
is scheduled after the scope that reduces it.
---
 differential-dataflow/src/operators/reduce.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/differential-dataflow/src/operators/reduce.rs b/differential-dataflow/src/operators/reduce.rs
index ab8ff61..9887975 100644
--- a/differential-dataflow/src/operators/reduce.rs
+++ b/differential-dataflow/src/operators/reduce.rs
@@ -154,6 +154,12 @@ where
             let mut upper_limit = Antichain::from_elem(<Tr1::Time as Timestamp>::minimum());
             let mut lower_limit = Antichain::from_elem(<Tr1::Time as Timestamp>::minimum());
 
+            // Upper and lower frontiers of the source batches themselves. The input frontier can move `upper_limit`
+            // into the interval of a batch that has yet to arrive, but that batch (whose updates are all beyond the
+            // frontier) may only be told from the batches before it by frontiers that lie between batches.
+            let mut source_upper = upper_limit.clone();
+            let mut source_lower = upper_limit.clone();
+
             move |(input, frontier), output| {
 
                 // The operator receives input batches, which it treats as contiguous and will collect and
@@ -169,21 +175,22 @@ where
                 // Downgrade previous upper limit to be current lower limit.
                 lower_limit.clear();
                 lower_limit.extend(upper_limit.borrow().iter().cloned());
+                source_lower.clone_from(&source_upper);
 
                 // Drain input batches in order, capturing capabilities and the last upper.
                 input.for_each(|capability, batches| {
                     capabilities.insert(capability.retain(0));
                     for batch in batches.drain(..) {
-                        upper_limit.clone_from(batch.upper());
+                        source_upper.clone_from(batch.upper());
                         batch_storage.push(batch);
                     }
                 });
 
                 // Pull in any subsequent empty batches we believe to exist.
-                source_trace.advance_upper(&mut upper_limit);
+                source_trace.advance_upper(&mut source_upper);
                 // Incorporate the input frontier guarantees as well.
                 let mut joined = Antichain::new();
-                crate::lattice::antichain_join_into(&upper_limit.borrow()[..], &frontier.frontier()[..], &mut joined);
+                crate::lattice::antichain_join_into(&source_upper.borrow()[..], &frontier.frontier()[..], &mut joined);
                 upper_limit = joined;
 
                 // We plan to retire the interval [lower_limit, upper_limit), which should be non-empty to proceed.
@@ -191,7 +198,7 @@ where
 
                     // Acquire the pre-existing input and output batches preceding the interval. Batch handles
                     // are cheap to clone, so we fetch them whether or not the tactic finds work to do.
-                    let source_batches = source_trace.batches_through(lower_limit.borrow()).expect("failed to acquire source batches");
+                    let source_batches = source_trace.batches_through(source_lower.borrow()).expect("failed to acquire source batches");
                     let output_batches = output_reader.batches_through(lower_limit.borrow()).expect("failed to acquire output batches");
 
                     // The times the operator currently holds capabilities for, as an antichain.
@@ -240,7 +247,7 @@ where
                     output_reader.set_logical_compaction(upper_limit.borrow());
 
                     // We will only slice the data between future batches.
-                    source_trace.set_physical_compaction(upper_limit.borrow());
+                    source_trace.set_physical_compaction(if upper_limit.is_empty() { upper_limit.borrow() } else { source_upper.borrow() });
                     output_reader.set_physical_compaction(upper_limit.borrow());
                 }
 
-- 
2.43.0


From 83f96136bb8cc859f5851f86933c9594c8db1534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:43 +0000
Subject: [PATCH 19/21] fix: arrangements entering a scope keep the order of
 their batches

Timely's map groups its input by time, and with partially ordered times the batches
of one round need not be sent at times in that order, so operators in the scope saw
them out of order, took the wrong upper, and lost updates.
---
 .../src/operators/arrange/arrangement.rs      | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/differential-dataflow/src/operators/arrange/arrangement.rs b/differential-dataflow/src/operators/arrange/arrangement.rs
index 6bbce64..0fc37af 100644
--- a/differential-dataflow/src/operators/arrange/arrangement.rs
+++ b/differential-dataflow/src/operators/arrange/arrangement.rs
@@ -17,7 +17,7 @@
 //! see ill-defined data at times for which the trace is not complete. (All current implementations
 //! commit only completed data to the trace).
 
-use timely::dataflow::operators::{Enter, vec::Map};
+use timely::dataflow::operators::Enter;
 use timely::order::PartialOrder;
 use timely::dataflow::{Scope, Stream};
 use timely::dataflow::operators::generic::Operator;
@@ -65,6 +65,24 @@ impl<'scope, Tr: TraceReader+Clone> Clone for Arranged<'scope, Tr> {
 use ::timely::progress::timestamp::Refines;
 use timely::Container;
 
+/// Applies `logic` to each batch of a stream, in the order the batches arrive.
+///
+/// Operators that receive batches rely on each starting where the one before it ends. Timely's `map` groups
+/// its input by time, and the times batches are sent at need not be in the order of the batches.
+fn map_batches<'scope, T, B1, B2, L>(stream: Stream<'scope, T, Vec<B1>>, name: &str, mut logic: L) -> Stream<'scope, T, Vec<B2>>
+where
+    T: Timestamp,
+    B1: Clone + 'static,
+    B2: Clone + 'static,
+    L: FnMut(B1) -> B2 + 'static,
+{
+    stream.unary::<timely::container::CapacityContainerBuilder<Vec<B2>>, _, _, _>(Pipeline, name, move |_,_| move |input, output| {
+        input.for_each(|time, data| {
+            output.session(&time).give_iterator(data.drain(..).map(&mut logic));
+        });
+    })
+}
+
 impl<'scope, Tr: TraceReader> Arranged<'scope, Tr> {
     /// Brings an arranged collection into a nested scope.
     ///
@@ -76,7 +94,7 @@ impl<'scope, Tr: TraceReader> Arranged<'scope, Tr> {
         TInner: Refines<Tr::Time>+Lattice,
     {
         Arranged {
-            stream: self.stream.enter(child).map(|bw| BatchEnter::make_from(bw)),
+            stream: map_batches(self.stream.enter(child), "EnterBatches", |bw| BatchEnter::make_from(bw)),
             trace: TraceEnter::make_from(self.trace),
         }
     }
@@ -108,7 +126,7 @@ impl<'scope, Tr: TraceReader> Arranged<'scope, Tr> {
         let logic2 = logic.clone();
         Arranged {
             trace: TraceEnterAt::make_from(self.trace, logic1, prior),
-            stream: self.stream.enter(child).map(move |bw| BatchEnterAt::make_from(bw, logic2.clone())),
+            stream: map_batches(self.stream.enter(child), "EnterAtBatches", move |bw| BatchEnterAt::make_from(bw, logic2.clone())),
         }
     }
 
-- 
2.43.0


From 108d8ff716e5a818df9d5280f231f97f5411f96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:34 +0000
Subject: [PATCH 20/21] fix: capture sink asks again a writer that had not
 committed when the last message was sent

A writer's `done()` was consulted only when something else scheduled the
operator. If it said `false` after the last message was accepted, the operator
declared itself incomplete and was never scheduled again, and the dataflow
never shut down even once the writer had committed.
---
 differential-dataflow/src/capture.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/differential-dataflow/src/capture.rs b/differential-dataflow/src/capture.rs
index 7149c2f..650e373 100644
--- a/differential-dataflow/src/capture.rs
+++ b/differential-dataflow/src/capture.rs
@@ -553,6 +553,7 @@ pub mod sink {
     use std::hash::Hash;
     use std::cell::RefCell;
     use std::rc::Weak;
+    use std::time::Duration;
 
     use serde::{Deserialize, Serialize};
 
@@ -565,6 +566,9 @@ pub mod sink {
     use crate::{lattice::Lattice, ExchangeData};
     use super::{Writer, Message, Progress};
 
+    /// How long to wait before asking a sink again whether it has committed all sent data.
+    const RECHECK: Duration = Duration::from_millis(1);
+
     /// Constructs a sink, for recording the updates in `stream`.
     ///
     /// It is crucial that `stream` has been consolidated before this method, which
@@ -627,8 +631,13 @@ pub mod sink {
                                 send_queue.pop_front();
                             }
                         }
+                        // The sink cannot tell us when it has committed, and we must ask again.
+                        let done = sink.done();
+                        if !done {
+                            reactivator.activate_after(RECHECK);
+                        }
                         // Signal incompleteness if messages remain to be sent.
-                        !sink.done() || !send_queue.is_empty()
+                        !done || !send_queue.is_empty()
                     } else {
                         // We have been terminated, but may still receive indefinite data.
                         send_queue.clear();
@@ -710,8 +719,13 @@ pub mod sink {
                                 send_queue.pop_front();
                             }
                         }
+                        // The sink cannot tell us when it has committed, and we must ask again.
+                        let done = sink.done();
+                        if !done {
+                            reactivator.activate_after(RECHECK);
+                        }
                         // Signal incompleteness if messages remain to be sent.
-                        !sink.done() || !send_queue.is_empty()
+                        !done || !send_queue.is_empty()
                     } else {
                         timestamps.clear();
                         send_queue.clear();
-- 
2.43.0


From 2bef5cc7bb23e0ee73e0e9a16e11f4ad674adf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:52 +0000
Subject: [PATCH 21/21] fix: lookup_map holds back only the times of the
 requests that wait

A request whose time the arrangement had not completed stayed in the stash with
the capability it arrived with. A single update dated in the future kept the
operator's output frontier at an earlier time, although everything before that
update was complete.
---
 dogsdogsdogs/src/operators/lookup_map.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/dogsdogsdogs/src/operators/lookup_map.rs b/dogsdogsdogs/src/operators/lookup_map.rs
index 25cda23..a19f703 100644
--- a/dogsdogsdogs/src/operators/lookup_map.rs
+++ b/dogsdogsdogs/src/operators/lookup_map.rs
@@ -71,6 +71,9 @@ where
         // to observe the frontier and to drive scheduling.
         input2.for_each(|_, _| { });
 
+        // Requests at incomplete times, to return to the stash with later capabilities.
+        let mut stash_additions = HashMap::new();
+
         if let Some(ref mut trace) = propose_trace {
 
             for (capability, prefixes) in stash.iter_mut() {
@@ -117,6 +120,21 @@ where
                     }
 
                     prefixes.retain(|ptd| !ptd.2.is_zero());
+
+                    // Requests that must wait should only hold back their own times.
+                    let mut lower = Antichain::new();
+                    for (_, time, _) in prefixes.iter() {
+                        lower.insert(time.clone());
+                    }
+                    if !lower.less_equal(capability.time()) {
+                        for (prefix, time, diff) in prefixes.drain(..) {
+                            let bound = lower.iter().find(|t| t.less_equal(&time)).unwrap();
+                            stash_additions
+                                .entry(capability.delayed(bound))
+                                .or_insert(Vec::new())
+                                .push((prefix, time, diff));
+                        }
+                    }
                 }
             }
 
@@ -125,6 +143,10 @@ where
         // drop fully processed capabilities.
         stash.retain(|_,prefixes| !prefixes.is_empty());
 
+        for (capability, prefixes) in stash_additions {
+            stash.entry(capability).or_insert(Vec::new()).extend(prefixes);
+        }
+
         // The logical merging frontier depends on both input1 and stash.
         let mut frontier = timely::progress::frontier::Antichain::new();
         for time in frontier1.frontier().to_vec() {
-- 
2.43.0

