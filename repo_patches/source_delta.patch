From 94dde9c45540709411e7b272327f56f0334430ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 01/39] fix: partial_reduce must not re-expand grouping sets

The PartialReduce aggregation inserted below a network shuffle reused the grouping sets of the
Partial aggregation, so rows already expanded by the Partial step were expanded a second time,
which yields wrong aggregates (or an assertion failure on empty inputs). Group by the Partial
output columns (grouping id included) instead.
---
 .../partial_reduce_below_network_shuffles.rs  | 41 +++----------------
 1 file changed, 5 insertions(+), 36 deletions(-)

diff --git a/src/distributed_planner/partial_reduce_below_network_shuffles.rs b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
index b8c16f3..16f5bea 100644
--- a/src/distributed_planner/partial_reduce_below_network_shuffles.rs
+++ b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
@@ -5,8 +5,7 @@ use datafusion::common::DataFusionError;
 use datafusion::common::tree_node::{Transformed, TreeNode};
 use datafusion::config::ConfigOptions;
 use datafusion::physical_expr::Partitioning;
-use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode, PhysicalGroupBy};
-use datafusion::physical_plan::expressions::Column;
+use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode};
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
 use std::sync::Arc;
@@ -47,40 +46,10 @@ pub(crate) fn partial_reduce_below_network_shuffles(
             return Ok(Transformed::no(plan));
         }
 
-        // Group-by columns in the Partial output schema appear at indices 0..N-1.
-        let partial_reduce_group_by = {
-            let orig = agg.group_expr();
-            let exprs = orig
-                .expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            let null_exprs = orig
-                .null_expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            PhysicalGroupBy::new(
-                exprs,
-                null_exprs,
-                orig.groups().to_vec(),
-                orig.has_grouping_set(),
-            )
-        };
+        // PartialReduce consumes rows that were already grouped by the Partial aggregation, so it
+        // must group by the Partial's output columns, including the grouping id if there is one.
+        // Grouping sets are already expanded at this point, and must not be expanded again.
+        let partial_reduce_group_by = agg.group_expr().as_final();
 
         // PartialReduce wraps the existing RepartitionExec, running on
         // hash-partitioned data where same keys are already in the same partition.
-- 
2.43.0


From 2cfbcab71b98102727a81db620d2ba5d0b437295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 02/39] fix: file scan task variants always expose the same
 partition count

FileGroupPartitioner might return a number of file groups that is not a multiple of the task
count (tiny files, or sorted groups that cannot be split), and planning then failed with
'Different partition count where provided in two different variants of DistributedLeafExec'.
Pad with empty file groups.
---
 src/events/defaults/file_scan_config.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index f81bd1e..115573f 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -40,7 +40,7 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let file_scan = dse.data_source().downcast_ref::<FileScanConfig>()?;
     let partition_count = ev.plan.output_partitioning().partition_count();
 
-    let rebalanced = if file_scan.output_partitioning.is_some() {
+    let mut rebalanced = if file_scan.output_partitioning.is_some() {
         let all_partitioned_files = file_scan
             .file_groups
             .iter()
@@ -58,9 +58,15 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
             .repartition_file_groups(&file_scan.file_groups)
             .unwrap_or_else(|| file_scan.file_groups.clone())
             .into_iter()
-            .collect()
+            .collect::<Vec<_>>()
     };
 
+    // The number of file groups might not be evenly divisible across tasks (e.g. very small files,
+    // or sorted groups that cannot be split further). All the task variants must expose the same
+    // partition count, so fill the gaps with empty file groups.
+    let padded_len = rebalanced.len().max(1).next_multiple_of(ev.task_count);
+    rebalanced.resize(padded_len, FileGroup::new(vec![]));
+
     let mut file_scan_template = file_scan.clone();
     file_scan_template.file_groups.clear();
     let mut file_scans = vec![file_scan_template; ev.task_count];
-- 
2.43.0


From 43a59bd81ccde4e0fae5597680fc0bcd80c5c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 03/39] fix: drop partition streams whose consumer goes away
 before polling them

A consumer that drops its partition stream without polling it (e.g. a hash join partition with an
empty build side, which never reads its probe side) left the underlying stream alive in the
WorkerConnectionPool. Messages for it piled up until the connection byte budget was exhausted,
and sibling partitions multiplexed over the same connection never received their data.
---
 src/worker/worker_connection_pool.rs | 83 ++++++++++++++++++++++------
 1 file changed, 66 insertions(+), 17 deletions(-)

diff --git a/src/worker/worker_connection_pool.rs b/src/worker/worker_connection_pool.rs
index 6f54065..268e299 100644
--- a/src/worker/worker_connection_pool.rs
+++ b/src/worker/worker_connection_pool.rs
@@ -23,13 +23,42 @@ use std::sync::{Arc, Mutex, OnceLock};
 ///   happens to be the same one issuing the request.
 /// - Lazy inits connections to a remote worker on first call to [WorkerConnectionPool::execute].
 pub(crate) struct WorkerConnectionPool {
-    lazy_stream_groups: Vec<OnceLock<SharedBoxFuture<StreamGroup>>>,
+    lazy_stream_groups: Vec<OnceLock<StreamGroup>>,
     pub(crate) metrics: ExecutionPlanMetricsSet,
 }
 
-/// A list of consumable RecordBatch streams, each one wrapped by `Mutex<Option<_>>` for
-/// exactly-once consumption semantics.
-type StreamGroup = Arc<Vec<Mutex<Option<BoxStream<'static, Result<RecordBatch>>>>>>;
+/// A list of consumable RecordBatch streams, along with the future that needs to be awaited before
+/// consuming any of them.
+struct StreamGroup {
+    slots: Arc<Vec<Mutex<StreamSlot>>>,
+    init: SharedBoxFuture<()>,
+}
+
+/// One RecordBatch stream with exactly-once consumption semantics.
+enum StreamSlot {
+    /// The connection was not yet established.
+    Uninit,
+    /// Ready to be consumed.
+    Ready(BoxStream<'static, Result<RecordBatch>>),
+    /// Either already consumed, or dropped by its consumer without ever being polled.
+    Consumed,
+}
+
+/// Drops the stream of a partition if its consumer goes away without ever polling it. Otherwise, it
+/// would be kept here alive and unpolled, holding data that nobody is going to consume.
+struct DropUnpolledStream {
+    slots: Arc<Vec<Mutex<StreamSlot>>>,
+    slot_i: usize,
+}
+
+impl Drop for DropUnpolledStream {
+    fn drop(&mut self) {
+        if let Some(slot) = self.slots.get(self.slot_i) {
+            let _unpolled = std::mem::replace(&mut *slot.lock().unwrap(), StreamSlot::Consumed);
+        }
+    }
+}
+
 /// Just some boilerplate for a shared future.
 type SharedBoxFuture<T> = Shared<BoxFuture<'static, Result<T, Arc<DataFusionError>>>>;
 
@@ -75,7 +104,8 @@ impl WorkerConnectionPool {
             );
         };
 
-        let streams_shared_future = worker_connection.get_or_init(|| {
+        let n_slots = target_partitions.len();
+        let stream_group = worker_connection.get_or_init(|| {
             let metrics = self.metrics.clone();
             let ctx = Arc::clone(ctx);
 
@@ -107,11 +137,20 @@ impl WorkerConnectionPool {
                 Ok(streams)
             });
 
-            async move {
+            let slots = (0..n_slots).map(|_| Mutex::new(StreamSlot::Uninit));
+            let slots = Arc::new(slots.collect::<Vec<_>>());
+            let slots_clone = Arc::clone(&slots);
+            let init = async move {
                 match streams_task.await {
-                    Ok(Ok(v)) => Ok(Arc::new(
-                        v.into_iter().map(|v| Mutex::new(Some(v))).collect(),
-                    )),
+                    Ok(Ok(streams)) => {
+                        for (slot, stream) in slots_clone.iter().zip(streams) {
+                            let mut slot = slot.lock().unwrap();
+                            if matches!(*slot, StreamSlot::Uninit) {
+                                *slot = StreamSlot::Ready(stream);
+                            }
+                        }
+                        Ok(())
+                    }
                     Ok(Err(e)) => Err(Arc::new(e)),
                     Err(e) => Err(Arc::new(internal_datafusion_err!(
                         "JoinError instantiating streams {e}"
@@ -119,22 +158,32 @@ impl WorkerConnectionPool {
                 }
             }
             .boxed()
-            .shared()
+            .shared();
+            StreamGroup { slots, init }
         });
 
-        let streams_future = streams_shared_future.clone();
+        let init = stream_group.init.clone();
+        let unpolled = DropUnpolledStream {
+            slots: Arc::clone(&stream_group.slots),
+            slot_i: target_partition - target_partitions.start,
+        };
         Ok(async move {
-            let streams = streams_future.await.map_err(DataFusionError::Shared)?;
-            let Some(slot) = streams.get(target_partition - target_partitions.start) else {
+            init.await.map_err(DataFusionError::Shared)?;
+            let Some(slot) = unpolled.slots.get(unpolled.slot_i) else {
                 return internal_err!(
                     "WorkerConnections has no stream for partition {target_partition}. Was it already consumed?"
                 );
             };
-            slot.lock().unwrap().take().ok_or_else(|| {
-                internal_datafusion_err!(
+            let slot = std::mem::replace(&mut *slot.lock().unwrap(), StreamSlot::Consumed);
+            match slot {
+                StreamSlot::Ready(stream) => Ok(stream),
+                StreamSlot::Uninit => internal_err!(
+                    "WorkerConnections has no stream for partition {target_partition}"
+                ),
+                StreamSlot::Consumed => internal_err!(
                     "WorkerConnections stream for partition {target_partition} was already consumed"
-                )
-            })
+                ),
+            }
         }
         .try_flatten_stream()
         .inspect_ok(move |batch| {
-- 
2.43.0


From c0445feeb505b212e9560807cf59c940a8a13e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 04/39] fix: release the connection byte budget of messages
 discarded with their queue

Messages already queued for a partition whose stream is dropped were discarded without shrinking
the memory reservation, so the connection byte budget stayed exhausted and the demux task never
resumed pulling data for the sibling partitions.
---
 src/protocol/grpc/worker_client.rs | 65 +++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index 060d8e8..45a5a4c 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -22,7 +22,7 @@ use datafusion::common::instant::Instant;
 use datafusion::common::runtime::SpawnedTask;
 use datafusion::common::{DataFusionError, Result};
 use datafusion::execution::TaskContext;
-use datafusion::execution::memory_pool::MemoryConsumer;
+use datafusion::execution::memory_pool::{MemoryConsumer, MemoryReservation};
 use datafusion::physical_expr_common::metrics::{Count, Label, MetricBuilder, MetricValue, Time};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use futures::stream::BoxStream;
@@ -100,7 +100,6 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         // for them in the memory pool.
         let memory_reservation =
             Arc::new(MemoryConsumer::new("WorkerConnection").register(ctx.memory_pool()));
-        let memory_reservation_clone = Arc::clone(&memory_reservation);
 
         // Track the maximum memory used to buffer recieved messages.
         let mut curr_max_mem = 0;
@@ -138,8 +137,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
             per_partition_rx.push(rx);
         }
 
-        let mem_available_notify = Arc::new(Notify::new());
-        let mem_available_notify_for_task = Arc::clone(&mem_available_notify);
+        let mem_available_notify_for_task = Arc::new(Notify::new());
 
         let first_poll_notify = Arc::new(Notify::new());
         let first_poll_notify_for_task = Arc::clone(&first_poll_notify);
@@ -252,7 +250,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // memory reservation means releasing the memory from the pool for that specific
                 // message
                 let size = flight_data.encoded_len();
-                memory_reservation.grow(size);
+                let queued_mem = QueuedMemory::grow(&memory_reservation, &mem_available_notify_for_task, size);
 
                 // Update memory related metrics.
                 msg_count.add(1);
@@ -263,14 +261,11 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     max_mem_used.set(curr_max_mem);
                 }
 
-                if o_tx.send(Ok((flight_data, flight_metadata))).is_err() {
-                    // The receiver for this partition was dropped (e.g. a hash join partition
-                    // completed early without consuming its probe side). Don't exit: other
-                    // partitions multiplexed over the same gRPC stream still need their data.
-                    // Undo the memory reservation that was grown for this dropped batch.
-                    memory_reservation.shrink(size);
-                    continue;
-                };
+                // If the receiver for this partition was dropped (e.g. a hash join partition
+                // completed early without consuming its probe side), the message is discarded
+                // along with its memory reservation. Don't exit: other partitions multiplexed
+                // over the same gRPC stream still need their data.
+                let _ = o_tx.send(Ok((flight_data, queued_mem)));
             }
         }.with_elapsed_compute(elapsed_compute));
 
@@ -290,12 +285,10 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
             .flatten_stream();
 
             let stream = stream.map_err(|err| FlightError::Tonic(Box::new(err)));
-            let reservation = Arc::clone(&memory_reservation_clone);
-            let mem_available_notify = Arc::clone(&mem_available_notify);
-            let stream = stream.map_ok(move |(data, _meta)| {
-                reservation.shrink(data.encoded_len());
-                // Wake the demux task in case it is blocked on the byte budget.
-                mem_available_notify.notify_one();
+            let stream = stream.map_ok(move |(data, queued_mem)| {
+                // The message left the queue: release its memory and wake the demux task in case
+                // it is blocked on the byte budget.
+                drop(queued_mem);
                 let _ = &task; // <- keep the task that polls data from the network alive.
                 data
             });
@@ -334,7 +327,39 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
     }
 }
 
-type WorkerMsg = Result<(FlightData, FlightAppMetadata), Status>;
+type WorkerMsg = Result<(FlightData, QueuedMemory), Status>;
+
+/// Memory accounted for a message sitting in a per-partition queue. It is released as soon as the
+/// message leaves the queue, either because it was consumed, or because it was discarded along
+/// with the queue (e.g. the stream of that partition was dropped before consuming everything).
+struct QueuedMemory {
+    reservation: Arc<MemoryReservation>,
+    mem_available_notify: Arc<Notify>,
+    size: usize,
+}
+
+impl QueuedMemory {
+    fn grow(
+        reservation: &Arc<MemoryReservation>,
+        mem_available_notify: &Arc<Notify>,
+        size: usize,
+    ) -> Self {
+        reservation.grow(size);
+        Self {
+            reservation: Arc::clone(reservation),
+            mem_available_notify: Arc::clone(mem_available_notify),
+            size,
+        }
+    }
+}
+
+impl Drop for QueuedMemory {
+    fn drop(&mut self) {
+        self.reservation.shrink(self.size);
+        // Wake the demux task in case it is blocked on the byte budget.
+        self.mem_available_notify.notify_one();
+    }
+}
 
 struct NetworkLatencyMetrics {
     metrics: ExecutionPlanMetricsSet,
-- 
2.43.0


From dbe83c30bff85434b761b612af92110c781c080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 05/39] fix: run in a single task the stages relying on
 single-partition inputs

Nodes requiring a single input partition have no partition-merging node below
them when the input already exposes one partition, so no network boundary gets
injected there. Scaling up the leaf of such a stage made every task compute a
partial answer.
---
 .../inject_network_boundaries.rs              | 58 +++++++++++++++++--
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 3414350..93f7bf6 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,7 +14,7 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::Partitioning;
+use datafusion::physical_expr::{Distribution, Partitioning};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
 use datafusion::physical_plan::joins::{
@@ -23,7 +23,8 @@ use datafusion::physical_plan::joins::{
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{
-    ChildrenPropertiesMode, ExecutionPlan, PlanProperties, ReplaceChildrenOptions,
+    ChildrenPropertiesMode, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
+    ReplaceChildrenOptions,
 };
 use datafusion::prelude::SessionConfig;
 use std::any::TypeId;
@@ -310,6 +311,12 @@ async fn _inject_network_boundaries(
         for processed_child in processed_children.iter() {
             task_count = task_count.merge(nb_ctx.task_count(processed_child)?)
         }
+        if relies_on_single_partition(&plan, &processed_children) {
+            // In single-node execution there is nothing merging partitions below this node, because
+            // its input already had a single one. Running it in more than one task would make each
+            // task see just a part of the rows the node expects to see together.
+            task_count = task_count.merge(Maximum(1))
+        }
         task_count
     };
 
@@ -393,8 +400,8 @@ async fn _inject_network_boundaries(
     } else if parent.is_none() {
         // We've just finished walking the head stage's subplan. Run a final propagation so
         // every node in the head stage (which never crossed a stage boundary on the way up)
-        // gets its task count recorded.
-        nb_ctx.propagate_task_count_until_network_boundaries(&plan, task_count)
+        // gets its task count recorded. The head stage always runs in a single task.
+        nb_ctx.propagate_task_count_until_network_boundaries(&plan, Maximum(1))
     } else {
         // If this is not the root node, and it's also not a network boundary, then we don't need
         // to do anything else.
@@ -402,6 +409,49 @@ async fn _inject_network_boundaries(
     }
 }
 
+/// Whether `plan` is only correct because its input is exposed as one single partition, with no
+/// network boundary in the stage putting together the rows that different tasks would be producing.
+///
+/// That's the case of nodes requiring all their input rows, or all the rows with the same key, in
+/// the same partition (e.g. a `AggregateExec(Single)` on top of a single-partition leaf), and also
+/// for nodes that stop after a certain number of rows.
+fn relies_on_single_partition(
+    plan: &Arc<dyn ExecutionPlan>,
+    processed_children: &[Arc<dyn ExecutionPlan>],
+) -> bool {
+    /// Whether the rows in the single partition of this plan are spread across tasks.
+    fn is_split_across_tasks(plan: &Arc<dyn ExecutionPlan>, by_key: bool) -> bool {
+        if plan.is::<NetworkBroadcastExec>() || plan.is::<NetworkCoalesceExec>() {
+            return false;
+        }
+        if plan.is::<NetworkShuffleExec>() {
+            return !by_key;
+        }
+        let children = plan.children();
+        children.is_empty() || children.iter().any(|v| is_split_across_tasks(v, by_key))
+    }
+
+    let single_partition =
+        |v: &Arc<dyn ExecutionPlan>| v.output_partitioning().partition_count() == 1;
+
+    if plan.fetch().is_some() && single_partition(plan) {
+        return processed_children.is_empty()
+            || processed_children
+                .iter()
+                .any(|child| is_split_across_tasks(child, false));
+    }
+
+    plan.input_distribution_requirements()
+        .per_child_distributions()
+        .zip(processed_children)
+        .any(|(distribution, child)| match distribution {
+            Distribution::UnspecifiedDistribution => false,
+            Distribution::SinglePartition => is_split_across_tasks(child, false),
+            // Rows with the same key must be together.
+            _ => single_partition(child) && is_split_across_tasks(child, true),
+        })
+}
+
 /// Walks `plan` top-down and records the given `task_count` for every node up until the next
 /// network boundary, scaling leaves and rebuilding intermediate nodes as needed.
 ///
-- 
2.43.0


From a0b182fb9b6ce425c07941ed7dd6fc2861bceb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 06/39] fix: admit messages with a zero connection byte budget

---
 src/protocol/grpc/worker_client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index 45a5a4c..01d0cc1 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -189,7 +189,9 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // the way back to the worker without coupling sibling partitions.
                 // We always allow a message through when reservation == 0 to avoid
                 // livelock if a single message is larger than the budget.
-                while memory_reservation.size() >= buffer_budget_bytes {
+                while memory_reservation.size() > 0
+                    && memory_reservation.size() >= buffer_budget_bytes
+                {
                     tokio::select! {
                         biased;
                         _ = cancel.cancelled() => return,
-- 
2.43.0


From ab593208418379f43bab8ed10595aa4e706334f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 07/39] fix: do not extrapolate stage statistics when no leaf
 row was pulled yet

Dividing by a zero completion estimate gave an infinite factor, whose cast to usize
overflowed when multiplying the sampled bytes.
---
 src/coordinator/prepare_dynamic_plan.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index dff4e28..d9b5a6d 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -274,7 +274,9 @@ async fn gather_runtime_statistics(
         // legitimately-empty stages (which would otherwise report `rows_pulled_from_leafs == 0` and
         // make the completion fraction 0, blowing up the `ready / fraction` extrapolation below).
         1.0
-    } else if let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan) {
+    } else if rows_pulled_from_leafs > 0
+        && let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan)
+    {
         // The stage is still producing. Estimate how far along it is from the fraction of the
         // driver-path leaf rows consumed so far.
         (rows_pulled_from_leafs as f32 / estimated_driver_path_leaf_rows as f32).min(1.0)
@@ -295,8 +297,13 @@ async fn gather_runtime_statistics(
         return Ok((zero_stats(n_cols), new_metrics));
     }
 
-    let per_col_byte_size = vec_mul(per_col_bytes_ready, 1. / estimated_pct_sampled);
-    let total_byte_size: usize = per_col_byte_size.iter().sum();
+    let per_col_byte_size = per_col_bytes_ready
+        .into_iter()
+        .map(|bytes| (bytes as f32 / estimated_pct_sampled) as usize)
+        .collect::<Vec<_>>();
+    let total_byte_size = per_col_byte_size
+        .iter()
+        .fold(0usize, |acc, bytes| acc.saturating_add(*bytes));
 
     new_metrics.push(BytesCounterMetric::new_metric(
         "estimated_output_bytes",
-- 
2.43.0


From 7d9ce511028164ca19e268f0e98e7cb27c9d716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 08/39] fix: saturate cost arithmetic on very large statistics

---
 src/coordinator/prepare_dynamic_plan.rs               | 2 +-
 src/distributed_planner/statistics/complexity.rs      | 2 +-
 src/distributed_planner/statistics/cost.rs            | 2 +-
 src/distributed_planner/statistics/plan_statistics.rs | 5 ++---
 4 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index d9b5a6d..5d6c84f 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -347,7 +347,7 @@ fn estimated_driver_path_leaf_rows(plan: &Arc<dyn ExecutionPlan>) -> Option<usiz
             let stats = StatisticsContext::new().compute(plan.as_ref(), &StatisticsArgs::new())?;
             if let Some(num_rows) = stats.num_rows.get_value() {
                 if let Some(total_rows) = &mut total_rows {
-                    *total_rows += *num_rows;
+                    *total_rows = usize::saturating_add(*total_rows, *num_rows);
                 } else {
                     total_rows = Some(*num_rows);
                 };
diff --git a/src/distributed_planner/statistics/complexity.rs b/src/distributed_planner/statistics/complexity.rs
index b03c6c7..c0d8f36 100644
--- a/src/distributed_planner/statistics/complexity.rs
+++ b/src/distributed_planner/statistics/complexity.rs
@@ -100,7 +100,7 @@ impl Complexity {
                 // `ilog2` panics on 0, which happens whenever the logged input has zero estimated
                 // bytes/rows (e.g. an empty or fully-pruned relation). Flooring at 1 makes log2
                 // contribute 0 there, i.e. sorting/merging nothing costs nothing.
-                n * m.checked_ilog2().unwrap_or(0) as usize
+                n.saturating_mul(m.checked_ilog2().unwrap_or(0) as usize)
             }
             Self::Plus(n, m) => n
                 .cost(output_stat, input_stats)?
diff --git a/src/distributed_planner/statistics/cost.rs b/src/distributed_planner/statistics/cost.rs
index dbb76e5..fa63690 100644
--- a/src/distributed_planner/statistics/cost.rs
+++ b/src/distributed_planner/statistics/cost.rs
@@ -25,7 +25,7 @@ impl AddAssign for Cost {
 
 fn sum_precision(one: Precision<usize>, other: Precision<usize>) -> Precision<usize> {
     match (one.get_value(), other.get_value()) {
-        (Some(one), Some(other)) => Precision::Inexact(one + other),
+        (Some(one), Some(other)) => Precision::Inexact(one.saturating_add(*other)),
         (Some(one), None) => Precision::Inexact(*one),
         (None, Some(other)) => Precision::Inexact(*other),
         (None, None) => Precision::Absent,
diff --git a/src/distributed_planner/statistics/plan_statistics.rs b/src/distributed_planner/statistics/plan_statistics.rs
index 636d4b8..43d175e 100644
--- a/src/distributed_planner/statistics/plan_statistics.rs
+++ b/src/distributed_planner/statistics/plan_statistics.rs
@@ -3,7 +3,6 @@ use datafusion::common::stats::Precision;
 use datafusion::common::{Statistics, plan_err};
 use datafusion::error::Result;
 use datafusion::physical_plan::{ExecutionPlan, StatisticsArgs};
-use itertools::Itertools;
 use std::sync::Arc;
 
 /// Ratio applied to the total number of rows for calculating the fallback value for NDVs.
@@ -27,8 +26,8 @@ pub(super) fn plan_statistics(
     if matches!(stats.num_rows, Precision::Absent)
         && let Some(child_rows) = children_stats
             .iter()
-            .flat_map(|v| v.num_rows.get_value())
-            .sum1::<usize>()
+            .flat_map(|v| v.num_rows.get_value().copied())
+            .reduce(usize::saturating_add)
     {
         stats.num_rows = Precision::Inexact(child_rows)
     }
-- 
2.43.0


From 276a6edc59e2874f85a8a6f351173ae0cba038b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 09/39] fix: release the input stream of a sampled partition as
 soon as it ends

An exhausted input can still hold remote streams it did not read (e.g. the probe
side of a join with an empty build side). Their buffered data counted against the
connection byte budget while the partition was waiting to be executed, starving
other partitions of the same connection for ever.
---
 src/execution_plans/sampler.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/execution_plans/sampler.rs b/src/execution_plans/sampler.rs
index 71b7243..cfb1c67 100644
--- a/src/execution_plans/sampler.rs
+++ b/src/execution_plans/sampler.rs
@@ -257,7 +257,10 @@ impl PartitionSampler {
                 // reached EOS with zero rows.
                 reporter.load_info.reached_eos = true;
                 reporter.report(&peek);
-                return Ok(peek.chain(input_stream).boxed());
+                // Drop the exhausted stream already, as it might be still holding resources, like
+                // remote streams it did not need to read until the end.
+                drop(input_stream);
+                return Ok(peek.boxed());
             };
             let _guard = elapsed_compute.timer();
 
@@ -272,6 +275,10 @@ impl PartitionSampler {
             reporter.load_info.reached_eos = input_stream.is_terminated();
             reporter.report(&peek);
 
+            if input_stream.is_terminated() {
+                drop(input_stream);
+                return Ok(peek.boxed());
+            }
             Ok(peek.chain(input_stream).boxed())
         });
 
-- 
2.43.0


From d77bc90a99851aad749472b5545c687be4835fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 10/39] fix: sort again the shuffled rows where their order is
 needed

NetworkShuffleExec interleaves the rows of its producer tasks, but it was
advertising the ordering of its RepartitionExec input.
---
 .../inject_network_boundaries.rs              | 58 ++++++++++++++++++-
 src/execution_plans/network_shuffle.rs        | 10 +++-
 2 files changed, 65 insertions(+), 3 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 93f7bf6..c57ae3e 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,13 +14,15 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::{Distribution, Partitioning};
+use datafusion::physical_expr::{Distribution, LexRequirement, Partitioning};
+use datafusion::physical_plan::aggregates::{AggregateExec, AggregateInputMode};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
 use datafusion::physical_plan::joins::{
     CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode,
 };
 use datafusion::physical_plan::repartition::RepartitionExec;
+use datafusion::physical_plan::sorts::sort::SortExec;
 use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{
     ChildrenPropertiesMode, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
@@ -320,6 +322,7 @@ async fn _inject_network_boundaries(
         task_count
     };
 
+    let processed_children = restore_required_orderings(&plan, processed_children, nb_ctx)?;
     let plan = plan.replace_children(
         processed_children,
         ReplaceChildrenOptions::new(ChildrenPropertiesMode::Recompute),
@@ -409,6 +412,59 @@ async fn _inject_network_boundaries(
     }
 }
 
+/// Sorts the children of `plan` that were sorted as `plan` needs before being processed, and that
+/// are no longer so afterward.
+///
+/// A [RepartitionExec] is able to maintain the order of its input, but the [NetworkShuffleExec] on
+/// top of it interleaves the rows coming from different tasks.
+///
+/// Final aggregations are left alone: they just use the order of their input opportunistically.
+fn restore_required_orderings(
+    plan: &Arc<dyn ExecutionPlan>,
+    processed_children: Vec<Arc<dyn ExecutionPlan>>,
+    nb_ctx: &InjectNetworkBoundaryContext<'_>,
+) -> Result<Vec<Arc<dyn ExecutionPlan>>> {
+    if let Some(aggregate) = plan.downcast_ref::<AggregateExec>()
+        && aggregate.mode().input_mode() == AggregateInputMode::Partial
+    {
+        return Ok(processed_children);
+    }
+
+    fn is_sorted(plan: &Arc<dyn ExecutionPlan>, requirement: &LexRequirement) -> Result<bool> {
+        plan.equivalence_properties()
+            .ordering_satisfy_requirement(requirement.clone())
+    }
+
+    let mut children = Vec::with_capacity(processed_children.len());
+    for ((child, processed_child), requirements) in plan
+        .children()
+        .into_iter()
+        .zip(processed_children)
+        .zip(plan.required_input_ordering())
+    {
+        let mut lost = None;
+        let alternatives = requirements.map(|v| v.into_alternatives().0);
+        for requirement in alternatives.unwrap_or_default() {
+            if is_sorted(&processed_child, &requirement)? {
+                lost = None;
+                break;
+            }
+            if lost.is_none() && is_sorted(child, &requirement)? {
+                lost = Some(requirement);
+            }
+        }
+        let Some(requirement) = lost else {
+            children.push(processed_child);
+            continue;
+        };
+        let task_count = nb_ctx.task_count(&processed_child)?;
+        let sort = SortExec::new(requirement.into(), processed_child)
+            .with_preserve_partitioning(child.output_partitioning().partition_count() > 1);
+        children.push(nb_ctx.plan_with_task_count(Arc::new(sort), task_count));
+    }
+    Ok(children)
+}
+
 /// Whether `plan` is only correct because its input is exposed as one single partition, with no
 /// network boundary in the stage putting together the rows that different tasks would be producing.
 ///
diff --git a/src/execution_plans/network_shuffle.rs b/src/execution_plans/network_shuffle.rs
index fbb4200..d64a503 100644
--- a/src/execution_plans/network_shuffle.rs
+++ b/src/execution_plans/network_shuffle.rs
@@ -8,7 +8,7 @@ use datafusion::common::tree_node::TreeNodeRecursion;
 use datafusion::common::{Result, not_impl_err, plan_err};
 use datafusion::error::DataFusionError;
 use datafusion::execution::{SendableRecordBatchStream, TaskContext};
-use datafusion::physical_expr::{Partitioning, PhysicalExpr};
+use datafusion::physical_expr::{EquivalenceProperties, Partitioning, PhysicalExpr};
 use datafusion::physical_expr_common::metrics::MetricsSet;
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
@@ -109,8 +109,14 @@ pub struct NetworkShuffleExec {
 
 impl NetworkShuffleExec {
     pub(crate) fn from_stage(input_stage: Stage, input_properties: Arc<PlanProperties>) -> Self {
+        // The streams of all the producer tasks are interleaved, so regardless of what each one of
+        // them guarantees about its own rows, nothing holds for all of them together.
+        let mut properties = input_properties.as_ref().clone();
+        properties.set_eq_properties(EquivalenceProperties::new(Arc::clone(
+            input_properties.eq_properties.schema(),
+        )));
         Self {
-            properties: input_properties,
+            properties: Arc::new(properties),
             worker_connections: WorkerConnectionPool::new(input_stage.task_count()),
             input_stage,
         }
-- 
2.43.0


From fff16b2a0e8659ee5a988daf138b2f4615ae248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 11/39] fix: sort the input of nodes that lost its order
 because of a broadcast

The CoalescePartitionsExec inserted in the build side of a broadcast join hides
that some columns are constant, and nodes above might have elided sort keys.
---
 .../inject_network_boundaries.rs              | 33 ++++++++++---------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index c57ae3e..f5e8bc2 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,7 +14,7 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::{Distribution, LexRequirement, Partitioning};
+use datafusion::physical_expr::{Distribution, LexRequirement, OrderingRequirements, Partitioning};
 use datafusion::physical_plan::aggregates::{AggregateExec, AggregateInputMode};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
@@ -412,8 +412,7 @@ async fn _inject_network_boundaries(
     }
 }
 
-/// Sorts the children of `plan` that were sorted as `plan` needs before being processed, and that
-/// are no longer so afterward.
+/// Sorts the children of `plan` that, after being processed, are no longer sorted as `plan` needs.
 ///
 /// A [RepartitionExec] is able to maintain the order of its input, but the [NetworkShuffleExec] on
 /// top of it interleaves the rows coming from different tasks.
@@ -442,20 +441,22 @@ fn restore_required_orderings(
         .zip(processed_children)
         .zip(plan.required_input_ordering())
     {
-        let mut lost = None;
-        let alternatives = requirements.map(|v| v.into_alternatives().0);
-        for requirement in alternatives.unwrap_or_default() {
-            if is_sorted(&processed_child, &requirement)? {
-                lost = None;
-                break;
-            }
-            if lost.is_none() && is_sorted(child, &requirement)? {
-                lost = Some(requirement);
+        // The first alternative is the one matching how `plan` is going to behave.
+        let requirement = match requirements {
+            Some(OrderingRequirements::Hard(alternatives)) => alternatives.into_iter().next(),
+            Some(OrderingRequirements::Soft(alternatives)) => match alternatives.into_iter().next()
+            {
+                Some(requirement) if is_sorted(child, &requirement)? => Some(requirement),
+                _ => None,
+            },
+            None => None,
+        };
+        let requirement = match requirement {
+            Some(requirement) if !is_sorted(&processed_child, &requirement)? => requirement,
+            _ => {
+                children.push(processed_child);
+                continue;
             }
-        }
-        let Some(requirement) = lost else {
-            children.push(processed_child);
-            continue;
         };
         let task_count = nb_ctx.task_count(&processed_child)?;
         let sort = SortExec::new(requirement.into(), processed_child)
-- 
2.43.0


From 68cc79c13c2707e72743f64fd7dd69ae20ac76d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 12/39] fix: send the actual schema of the record batches over
 the wire

---
 src/protocol/grpc/worker_service.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/protocol/grpc/worker_service.rs b/src/protocol/grpc/worker_service.rs
index 1f0fdf0..1990285 100644
--- a/src/protocol/grpc/worker_service.rs
+++ b/src/protocol/grpc/worker_service.rs
@@ -11,9 +11,9 @@ use crate::{
     WorkUnitMsg, Worker, WorkerResolver, WorkerToCoordinatorMsg,
 };
 
-use arrow_flight::FlightData;
-use arrow_flight::encode::{DictionaryHandling, FlightDataEncoder, FlightDataEncoderBuilder};
+use arrow_flight::encode::{DictionaryHandling, FlightDataEncoderBuilder};
 use arrow_flight::error::FlightError;
+use arrow_flight::{FlightData, SchemaAsIpc};
 use arrow_select::dictionary::garbage_collect_any_dictionary;
 use async_trait::async_trait;
 use datafusion::arrow::array::{Array, AsArray, RecordBatch, RecordBatchOptions};
@@ -22,7 +22,7 @@ use datafusion::arrow::ipc::writer::IpcWriteOptions;
 use datafusion::common::DataFusionError;
 use datafusion::execution::SendableRecordBatchStream;
 use futures::stream::BoxStream;
-use futures::{StreamExt, TryStreamExt};
+use futures::{Stream, StreamExt, TryStreamExt};
 use prost::Message;
 use std::sync::Arc;
 use tonic::{Request, Response, Status, Streaming};
@@ -363,13 +363,16 @@ fn missing(field: &'static str) -> impl FnOnce() -> Status {
 fn build_flight_data_stream(
     stream: SendableRecordBatchStream,
     compression_type: Option<CompressionType>,
-) -> datafusion::common::Result<FlightDataEncoder, Status> {
+) -> datafusion::common::Result<
+    impl Stream<Item = datafusion::common::Result<FlightData, FlightError>>,
+    Status,
+> {
+    let options = IpcWriteOptions::default()
+        .try_with_compression(compression_type)
+        .map_err(|err| Status::internal(err.to_string()))?;
+    let schema_msg = FlightData::from(SchemaAsIpc::new(&stream.schema(), &options));
     let stream = FlightDataEncoderBuilder::new()
-        .with_options(
-            IpcWriteOptions::default()
-                .try_with_compression(compression_type)
-                .map_err(|err| Status::internal(err.to_string()))?,
-        )
+        .with_options(options)
         .with_schema(stream.schema())
         // This tells the encoder to send dictionaries across the wire as-is.
         // The alternative (`DictionaryHandling::Hydrate`) would expand the dictionaries
@@ -395,7 +398,10 @@ fn build_flight_data_stream(
                 .and_then(|rb| std::future::ready(garbage_collect_arrays(rb)))
                 .map_err(|err| FlightError::Tonic(Box::new(datafusion_error_to_tonic_status(err)))),
         );
-    Ok(stream)
+    // The schema message built by the encoder does not describe some types as they are (e.g. it
+    // declares LargeList columns as List, and loses the nullability and metadata of Union
+    // columns), so it gets replaced by one with the actual schema.
+    Ok(futures::stream::iter([Ok(schema_msg)]).chain(stream.skip(1)))
 }
 
 /// Garbage collects values sub-arrays.
-- 
2.43.0


From a3a489c57a609e6a4e18d5d7ad481e3e80fc6fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 13/39] fix: keep the category and text of errors sent by
 workers

Avro errors, DataFusion errors wrapped in external errors, object store
'not implemented' errors, custom store names and unlisted variants arrived
as internal errors or without their text.
---
 src/protocol/grpc/errors/arrow_error.rs       | 17 +++++--
 src/protocol/grpc/errors/datafusion_error.rs  | 22 +++++++-
 src/protocol/grpc/errors/objectstore_error.rs | 51 +++++++++++++++----
 src/protocol/grpc/errors/parquet_error.rs     |  6 +--
 4 files changed, 76 insertions(+), 20 deletions(-)

diff --git a/src/protocol/grpc/errors/arrow_error.rs b/src/protocol/grpc/errors/arrow_error.rs
index b78a950..890863e 100644
--- a/src/protocol/grpc/errors/arrow_error.rs
+++ b/src/protocol/grpc/errors/arrow_error.rs
@@ -1,5 +1,6 @@
 use datafusion::arrow::error::ArrowError;
 
+use super::datafusion_error::{DataFusionErrorProto, nested_datafusion_error};
 use super::io_error::IoErrorProto;
 
 #[derive(Clone, PartialEq, ::prost::Message)]
@@ -8,7 +9,7 @@ pub struct ArrowErrorProto {
     pub ctx: Option<String>,
     #[prost(
         oneof = "ArrowErrorInnerProto",
-        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"
+        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22"
     )]
     pub inner: Option<ArrowErrorInnerProto>,
 }
@@ -55,6 +56,8 @@ pub enum ArrowErrorInnerProto {
     OffsetOverflowError(u64),
     #[prost(string, tag = "21")]
     AvroError(String),
+    #[prost(message, boxed, tag = "22")]
+    ExternalDataFusion(Box<DataFusionErrorProto>),
 }
 
 impl ArrowErrorProto {
@@ -64,8 +67,13 @@ impl ArrowErrorProto {
                 inner: Some(ArrowErrorInnerProto::NotYetImplemented(msg.to_string())),
                 ctx: ctx.cloned(),
             },
-            ArrowError::ExternalError(msg) => ArrowErrorProto {
-                inner: Some(ArrowErrorInnerProto::ExternalError(msg.to_string())),
+            ArrowError::ExternalError(err) => ArrowErrorProto {
+                inner: Some(match nested_datafusion_error(err.as_ref()) {
+                    Some(err) => ArrowErrorInnerProto::ExternalDataFusion(Box::new(
+                        DataFusionErrorProto::from_datafusion_error(err),
+                    )),
+                    None => ArrowErrorInnerProto::ExternalError(err.to_string()),
+                }),
                 ctx: ctx.cloned(),
             },
             ArrowError::CastError(msg) => ArrowErrorProto {
@@ -159,6 +167,9 @@ impl ArrowErrorProto {
             ArrowErrorInnerProto::ExternalError(msg) => {
                 ArrowError::ExternalError(Box::from(msg.to_string()))
             }
+            ArrowErrorInnerProto::ExternalDataFusion(err) => {
+                ArrowError::ExternalError(Box::new(err.to_datafusion_err()))
+            }
             ArrowErrorInnerProto::CastError(msg) => ArrowError::CastError(msg.to_string()),
             ArrowErrorInnerProto::MemoryError(msg) => ArrowError::MemoryError(msg.to_string()),
             ArrowErrorInnerProto::ParseError(msg) => ArrowError::ParseError(msg.to_string()),
diff --git a/src/protocol/grpc/errors/datafusion_error.rs b/src/protocol/grpc/errors/datafusion_error.rs
index 23646d4..a98d7dd 100644
--- a/src/protocol/grpc/errors/datafusion_error.rs
+++ b/src/protocol/grpc/errors/datafusion_error.rs
@@ -14,7 +14,7 @@ use std::sync::Arc;
 pub struct DataFusionErrorProto {
     #[prost(
         oneof = "DataFusionErrorInnerProto",
-        tags = "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19"
+        tags = "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"
     )]
     pub inner: Option<DataFusionErrorInnerProto>,
 }
@@ -59,6 +59,8 @@ pub enum DataFusionErrorInnerProto {
     Collection(DataFusionCollectionErrorProto),
     #[prost(message, boxed, tag = "19")]
     Shared(Box<DataFusionErrorProto>),
+    #[prost(message, boxed, tag = "20")]
+    ExternalDataFusion(Box<DataFusionErrorProto>),
 }
 
 #[derive(Clone, PartialEq, ::prost::Message)]
@@ -141,7 +143,12 @@ impl DataFusionErrorProto {
                 inner: Some(DataFusionErrorInnerProto::ResourceExhausted(msg.clone())),
             },
             DataFusionError::External(err) => DataFusionErrorProto {
-                inner: Some(DataFusionErrorInnerProto::External(err.to_string())),
+                inner: Some(match nested_datafusion_error(err.as_ref()) {
+                    Some(err) => DataFusionErrorInnerProto::ExternalDataFusion(Box::new(
+                        DataFusionErrorProto::from_datafusion_error(err),
+                    )),
+                    None => DataFusionErrorInnerProto::External(err.to_string()),
+                }),
             },
             DataFusionError::Context(ctx, err) => DataFusionErrorProto {
                 inner: Some(DataFusionErrorInnerProto::Context(
@@ -256,6 +263,9 @@ impl DataFusionErrorProto {
                     message: generic.clone(),
                 }))
             }
+            DataFusionErrorInnerProto::ExternalDataFusion(err) => {
+                DataFusionError::External(Box::new(err.to_datafusion_err()))
+            }
             DataFusionErrorInnerProto::Context(err) => DataFusionError::Context(
                 err.ctx.clone(),
                 Box::new(err.err.as_ref().map(|v| v.to_datafusion_err()).unwrap_or(
@@ -285,6 +295,14 @@ impl DataFusionErrorProto {
     }
 }
 
+/// Returns the [DataFusionError] carried by a type-erased error, if that is what it is.
+pub(super) fn nested_datafusion_error<'a>(
+    err: &'a (dyn Error + 'static),
+) -> Option<&'a DataFusionError> {
+    err.downcast_ref::<DataFusionError>()
+        .or_else(|| err.downcast_ref::<Arc<DataFusionError>>().map(Arc::as_ref))
+}
+
 #[derive(Clone, Debug)]
 pub struct DistributedDataFusionGenericError {
     pub message: String,
diff --git a/src/protocol/grpc/errors/objectstore_error.rs b/src/protocol/grpc/errors/objectstore_error.rs
index 933cf16..98e045c 100644
--- a/src/protocol/grpc/errors/objectstore_error.rs
+++ b/src/protocol/grpc/errors/objectstore_error.rs
@@ -1,3 +1,6 @@
+use std::collections::HashSet;
+use std::sync::{LazyLock, Mutex};
+
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct ObjectStoreErrorProto {
     #[prost(
@@ -26,7 +29,7 @@ pub enum ObjectStoreErrorInnerProto {
     #[prost(message, tag = "8")]
     NotModified(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "9")]
-    NotImplemented(bool),
+    NotImplemented(ObjectStoreNotImplementedErrorProto),
     #[prost(message, tag = "10")]
     PermissionDenied(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "11")]
@@ -57,6 +60,14 @@ pub struct ObjectStoreSourcePathErrorProto {
     source: String,
 }
 
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct ObjectStoreNotImplementedErrorProto {
+    #[prost(string, tag = "1")]
+    operation: String,
+    #[prost(string, tag = "2")]
+    implementer: String,
+}
+
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct ObjectStoreConfigurationKeyErrorProto {
     #[prost(string, tag = "1")]
@@ -130,10 +141,15 @@ impl ObjectStoreErrorProto {
                 )),
             },
             object_store::Error::NotImplemented {
-                operation: _,
-                implementer: _,
+                operation,
+                implementer,
             } => ObjectStoreErrorProto {
-                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(true)),
+                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(
+                    ObjectStoreNotImplementedErrorProto {
+                        operation: operation.to_string(),
+                        implementer: implementer.to_string(),
+                    },
+                )),
             },
             object_store::Error::PermissionDenied { path, source } => ObjectStoreErrorProto {
                 inner: Some(ObjectStoreErrorInnerProto::PermissionDenied(
@@ -159,11 +175,11 @@ impl ObjectStoreErrorProto {
                     },
                 )),
             },
-            _ => ObjectStoreErrorProto {
+            err => ObjectStoreErrorProto {
                 inner: Some(ObjectStoreErrorInnerProto::Generic(
                     ObjectStoreGenericErrorProto {
-                        store: "Could not serialize ObjectStore error to proto".to_string(),
-                        source: "Could not serialize ObjectStore error to proto".to_string(),
+                        store: "Unknown".to_string(),
+                        source: err.to_string(),
                     },
                 )),
             },
@@ -213,10 +229,10 @@ impl ObjectStoreErrorProto {
                 path: msg.path.clone(),
                 source: msg.source.clone().into(),
             },
-            ObjectStoreErrorInnerProto::NotImplemented(_msg) => {
+            ObjectStoreErrorInnerProto::NotImplemented(msg) => {
                 object_store::Error::NotImplemented {
-                    operation: "unknown_operation".to_string(),
-                    implementer: "unknown_implementer".to_string(),
+                    operation: msg.operation.clone(),
+                    implementer: msg.implementer.clone(),
                 }
             }
             ObjectStoreErrorInnerProto::PermissionDenied(msg) => {
@@ -241,6 +257,19 @@ impl ObjectStoreErrorProto {
     }
 }
 
+/// Returns a static copy of the name of a store that is not one of the well known ones. Stores are
+/// named with static strings, so only a bounded number of distinct names can ever be received.
+fn intern_store(store: &str) -> &'static str {
+    static STORES: LazyLock<Mutex<HashSet<&'static str>>> = LazyLock::new(Default::default);
+    let mut stores = STORES.lock().unwrap_or_else(|err| err.into_inner());
+    if let Some(store) = stores.get(store) {
+        return store;
+    }
+    let store: &'static str = Box::leak(store.to_string().into_boxed_str());
+    stores.insert(store);
+    store
+}
+
 fn parse_store(store: &str) -> &'static str {
     // some appearances while looking at
     // https://github.com/search?q=repo%3Aapache%2Farrow-rs-object-store%20store%3A%20%22&type=code
@@ -258,7 +287,7 @@ fn parse_store(store: &str) -> &'static str {
         "ObjectStoreRegistry" => "ObjectStoreRegistry",
         "Parts" => "Parts",
         "LocalFileSystem" => "LocalFileSystem",
-        _ => "Unknown",
+        store => intern_store(store),
     }
 }
 
diff --git a/src/protocol/grpc/errors/parquet_error.rs b/src/protocol/grpc/errors/parquet_error.rs
index 5c2e954..e9850d3 100644
--- a/src/protocol/grpc/errors/parquet_error.rs
+++ b/src/protocol/grpc/errors/parquet_error.rs
@@ -87,10 +87,8 @@ impl ParquetErrorProto {
             ParquetError::NeedMoreData(a) => ParquetErrorProto {
                 inner: Some(ParquetErrorInnerProto::NeedMoreData(*a as u64)),
             },
-            _ => ParquetErrorProto {
-                inner: Some(ParquetErrorInnerProto::General(
-                    "ParquetError could not be serialized into protobuf".to_string(),
-                )),
+            err => ParquetErrorProto {
+                inner: Some(ParquetErrorInnerProto::General(err.to_string())),
             },
         }
     }
-- 
2.43.0


From 32067cfd6ef7335ce02dbb501c5165cf8cab73e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 14/39] fix: large errors no longer lose their message or close
 the connection

Errors travel in HTTP/2 trailers. Above 16KB their details were dropped and
they arrived as an internal error about an empty message; above 100KB the
whole connection, with all the other requests in it, was closed.
---
 src/protocol/grpc/errors/mod.rs | 46 ++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/protocol/grpc/errors/mod.rs b/src/protocol/grpc/errors/mod.rs
index b940d7c..76473d4 100644
--- a/src/protocol/grpc/errors/mod.rs
+++ b/src/protocol/grpc/errors/mod.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::upper_case_acronyms, clippy::vec_box)]
 
 use arrow_flight::error::FlightError;
+use datafusion::arrow::error::ArrowError;
 use datafusion::common::internal_datafusion_err;
 use datafusion::error::DataFusionError;
 use prost::Message;
@@ -20,10 +21,49 @@ mod schema_error;
 /// to be sent over the wire and decoded by the receiving end, recovering the original
 /// [DataFusionError] across a network boundary with [tonic_status_to_datafusion_error].
 pub fn datafusion_error_to_tonic_status(err: impl Borrow<DataFusionError>) -> tonic::Status {
-    let err = DataFusionErrorProto::from_datafusion_error(err.borrow());
-    let err = err.encode_to_vec();
+    let err = err.borrow();
+    let mut details = DataFusionErrorProto::from_datafusion_error(err).encode_to_vec();
+    if details.len() > MAX_DETAILS_SIZE {
+        details = DataFusionErrorProto::from_datafusion_error(&abridge(err)).encode_to_vec();
+    }
+
+    tonic::Status::with_details(tonic::Code::Internal, "DataFusionError", details.into())
+}
+
+/// Errors travel in HTTP/2 trailers: above the size that the other end tolerates (16KB by default)
+/// they are discarded, and well above that, the whole connection is closed, along with any other
+/// request that was using it.
+const MAX_DETAILS_SIZE: usize = 8 * 1024;
 
-    tonic::Status::with_details(tonic::Code::Internal, "DataFusionError", err.into())
+/// Reduces an error to the category of its root cause, and to as much of its text as possible.
+fn abridge(err: &DataFusionError) -> DataFusionError {
+    const ELLIPSIS: &str = "... (truncated)";
+    let mut text = err.strip_backtrace();
+    // Leaves some space for the encoding of the error itself.
+    let mut end = text.len().min(MAX_DETAILS_SIZE - 64 - ELLIPSIS.len());
+    while !text.is_char_boundary(end) {
+        end -= 1;
+    }
+    if end < text.len() {
+        text.truncate(end);
+        text.push_str(ELLIPSIS);
+    }
+    match err.find_root() {
+        DataFusionError::ArrowError(_, _) => {
+            DataFusionError::ArrowError(Box::new(ArrowError::ExternalError(text.into())), None)
+        }
+        DataFusionError::IoError(err) => {
+            DataFusionError::IoError(std::io::Error::new(err.kind(), text))
+        }
+        DataFusionError::NotImplemented(_) => DataFusionError::NotImplemented(text),
+        DataFusionError::Internal(_) => DataFusionError::Internal(text),
+        DataFusionError::Plan(_) => DataFusionError::Plan(text),
+        DataFusionError::Configuration(_) => DataFusionError::Configuration(text),
+        DataFusionError::Execution(_) => DataFusionError::Execution(text),
+        DataFusionError::ResourcesExhausted(_) => DataFusionError::ResourcesExhausted(text),
+        DataFusionError::Substrait(_) => DataFusionError::Substrait(text),
+        _ => DataFusionError::External(text.into()),
+    }
 }
 
 /// Decodes a [DataFusionError] from a [tonic::Status] error. If the provided [tonic::Status]
-- 
2.43.0


From e362145f74c0013a00ff4c3c29da63cf17d9f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 15/39] fix: a panic while producing rows on a worker fails the
 query instead of losing rows

---
 src/common/catch_panics.rs       | 29 +++++++++++++++++++++++++++++
 src/common/mod.rs                |  2 ++
 src/execution_plans/broadcast.rs |  5 +++--
 src/worker/impl_execute_task.rs  |  4 +++-
 4 files changed, 37 insertions(+), 3 deletions(-)
 create mode 100644 src/common/catch_panics.rs

diff --git a/src/common/catch_panics.rs b/src/common/catch_panics.rs
new file mode 100644
index 0000000..b0b1c5f
--- /dev/null
+++ b/src/common/catch_panics.rs
@@ -0,0 +1,29 @@
+use datafusion::common::exec_datafusion_err;
+use datafusion::execution::SendableRecordBatchStream;
+use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
+use futures::{FutureExt, StreamExt};
+use std::panic::AssertUnwindSafe;
+
+/// Turns a panic of the provided stream into an error.
+///
+/// Streams are usually polled in the background while feeding some queue. If nobody looks at what
+/// happened with the background task, a panic there just closes the queue, and a consumer of that
+/// queue would take it as the normal end of the stream, silently losing rows.
+pub(crate) fn catch_panics(stream: SendableRecordBatchStream) -> SendableRecordBatchStream {
+    let schema = stream.schema();
+    let stream = futures::stream::unfold(Some(stream), |stream| async move {
+        let mut stream = stream?;
+        match AssertUnwindSafe(stream.next()).catch_unwind().await {
+            Ok(msg) => Some((msg?, Some(stream))),
+            Err(panic) => {
+                let msg = match (panic.downcast_ref::<&str>(), panic.downcast_ref::<String>()) {
+                    (Some(msg), _) => msg,
+                    (_, Some(msg)) => msg.as_str(),
+                    _ => "unknown cause",
+                };
+                Some((Err(exec_datafusion_err!("Panicked: {msg}")), None))
+            }
+        }
+    });
+    Box::pin(RecordBatchStreamAdapter::new(schema, stream))
+}
diff --git a/src/common/mod.rs b/src/common/mod.rs
index 7dfd3a9..2e37d55 100644
--- a/src/common/mod.rs
+++ b/src/common/mod.rs
@@ -1,3 +1,4 @@
+mod catch_panics;
 mod children_helpers;
 mod maybe_encoded;
 mod once_lock;
@@ -7,6 +8,7 @@ mod time;
 mod uuid;
 mod vec;
 
+pub(crate) use catch_panics::catch_panics;
 pub(crate) use children_helpers::require_one_child;
 pub use maybe_encoded::MaybeEncoded;
 pub(crate) use once_lock::OnceLockResult;
diff --git a/src/execution_plans/broadcast.rs b/src/execution_plans/broadcast.rs
index 4d06d4d..208bbcd 100644
--- a/src/execution_plans/broadcast.rs
+++ b/src/execution_plans/broadcast.rs
@@ -1,4 +1,4 @@
-use crate::common::{OnceLockResult, require_one_child};
+use crate::common::{OnceLockResult, catch_panics, require_one_child};
 use crossbeam_queue::SegQueue;
 use datafusion::arrow::datatypes::SchemaRef;
 use datafusion::common::runtime::SpawnedTask;
@@ -178,7 +178,8 @@ impl ExecutionPlan for BroadcastExec {
             }
 
             let pool = Arc::clone(context.memory_pool());
-            let mut stream = input.execute(real_partition, context).map_err(Arc::new)?;
+            let stream = input.execute(real_partition, context).map_err(Arc::new)?;
+            let mut stream = catch_panics(stream);
             let task = SpawnedTask::spawn(async move {
                 let mem_consumer = MemoryConsumer::new(format!("BroadcastExec[{real_partition}]"));
 
diff --git a/src/worker/impl_execute_task.rs b/src/worker/impl_execute_task.rs
index 1c62fc1..b749d3a 100644
--- a/src/worker/impl_execute_task.rs
+++ b/src/worker/impl_execute_task.rs
@@ -1,4 +1,5 @@
 use crate::ExecuteTaskRequest;
+use crate::common::catch_panics;
 use crate::worker::worker_service::Worker;
 use datafusion::common::exec_datafusion_err;
 use datafusion::common::{Result, exec_err};
@@ -53,7 +54,8 @@ impl Worker {
             let stream = plan.execute(partition, Arc::clone(&task_ctx))?;
             let stream_schema = plan.schema();
 
-            streams.push(Box::pin(RecordBatchStreamAdapter::new(stream_schema, stream)) as _);
+            let stream = Box::pin(RecordBatchStreamAdapter::new(stream_schema, stream));
+            streams.push(catch_panics(stream));
         }
         Ok((streams, task_ctx))
     }
-- 
2.43.0


From cd165e03045cc2a34ab94a35c069bbfd1e390b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 16/39] fix: do not keep the entries of tasks that failed to be
 set or were cancelled

---
 src/worker/impl_coordinator_channel.rs | 26 +++++++---
 src/worker/impl_execute_task.rs        | 11 ++--
 src/worker/mod.rs                      |  1 +
 src/worker/single_write_multi_read.rs  | 28 +++++++++-
 src/worker/unset_entry_guard.rs        | 72 ++++++++++++++++++++++++++
 5 files changed, 125 insertions(+), 13 deletions(-)
 create mode 100644 src/worker/unset_entry_guard.rs

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index efba61c..1483322 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -3,7 +3,9 @@ use crate::events::{WorkerPlanRewriteEvent, WorkerPlanRewriteHandlers};
 use crate::execution_plans::SamplerExec;
 use crate::protocol::LocalWorkerContext;
 use crate::work_unit_feed::{RemoteWorkUnitFeedRegistry, set_work_unit_received_time};
+use crate::worker::impl_execute_task::WAIT_PLAN_TIMEOUT_SECS;
 use crate::worker::task_data::TaskDataMetrics;
+use crate::worker::unset_entry_guard::UnsetEntryGuard;
 use crate::{
     CoordinatorToWorkerMsg, DistributedConfig, DistributedExt, DistributedTaskContext,
     SetPlanRequest, TaskData, TaskMetrics, Worker, WorkerQueryContext, WorkerToCoordinatorMsg,
@@ -17,6 +19,7 @@ use futures::stream::{BoxStream, FuturesUnordered};
 use futures::{FutureExt, StreamExt, TryStreamExt};
 use http::HeaderMap;
 use std::sync::{Arc, OnceLock};
+use std::time::Duration;
 use tokio::sync::oneshot;
 use tokio::sync::oneshot::Sender;
 
@@ -29,10 +32,7 @@ impl Worker {
     ) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
         let key = request.task_key;
 
-        let entry = self
-            .task_data_entries
-            .get_with(key, async { Default::default() })
-            .await;
+        let guard = UnsetEntryGuard::new(&self.task_data_entries, key).await;
 
         let mut remote_work_unit_feed_registry = RemoteWorkUnitFeedRegistry::default();
         for decl in request.work_unit_feed_declarations {
@@ -99,11 +99,25 @@ impl Worker {
 
         let task_data_result = task_data().await.map_err(Arc::new);
 
-        entry
+        guard
+            .entry()
             .write(task_data_result.clone())
             .map_err(|e| exec_datafusion_err!("{e}"))?;
 
-        let task_data = task_data_result.map_err(DataFusionError::Shared)?;
+        let task_data = match task_data_result {
+            Ok(task_data) => task_data,
+            Err(err) => {
+                // The task will never run, but its consumers might still be about to ask for it,
+                // and they should find out why it failed. Nobody else will clean this up later.
+                let task_data_entries = Arc::clone(&self.task_data_entries);
+                #[allow(clippy::disallowed_methods)]
+                tokio::spawn(async move {
+                    tokio::time::sleep(Duration::from_secs(WAIT_PLAN_TIMEOUT_SECS)).await;
+                    task_data_entries.invalidate(&key).await
+                });
+                return Err(DataFusionError::Shared(err));
+            }
+        };
 
         // Continue reading remaining messages (work unit feed data) in the background.
         let mut work_unit_senders = Some(remote_work_unit_feed_registry.senders);
diff --git a/src/worker/impl_execute_task.rs b/src/worker/impl_execute_task.rs
index b749d3a..8450ac1 100644
--- a/src/worker/impl_execute_task.rs
+++ b/src/worker/impl_execute_task.rs
@@ -1,5 +1,6 @@
 use crate::ExecuteTaskRequest;
 use crate::common::catch_panics;
+use crate::worker::unset_entry_guard::UnsetEntryGuard;
 use crate::worker::worker_service::Worker;
 use datafusion::common::exec_datafusion_err;
 use datafusion::common::{Result, exec_err};
@@ -9,7 +10,7 @@ use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
 use std::sync::Arc;
 use std::time::Duration;
 
-const WAIT_PLAN_TIMEOUT_SECS: u64 = 10;
+pub(super) const WAIT_PLAN_TIMEOUT_SECS: u64 = 10;
 
 /// Builds several per-partition streams by retrieving the appropriate entry from [TaskDataEntries]
 /// based on the task key extracted from [ExecuteTaskRequest].
@@ -21,14 +22,12 @@ impl Worker {
         &self,
         request: ExecuteTaskRequest,
     ) -> Result<(Vec<SendableRecordBatchStream>, Arc<TaskContext>)> {
-        let entry = self
-            .task_data_entries
-            .get_with(request.task_key, async { Default::default() })
-            .await;
+        let guard = UnsetEntryGuard::new(&self.task_data_entries, request.task_key).await;
 
         // Other request is responsible for writing the plan that belongs to this TaskKey, so
         // we'll resolve immediately if it was already there, or wait until it's ready.
-        let task_data = entry
+        let task_data = guard
+            .entry()
             .read(Duration::from_secs(WAIT_PLAN_TIMEOUT_SECS))
             .await
             .map_err(|e| exec_datafusion_err!("Worker::execute_task timed-out while waiting for the plan to be set by the coordinator. ({e})"))?
diff --git a/src/worker/mod.rs b/src/worker/mod.rs
index 9a160b8..62419f9 100644
--- a/src/worker/mod.rs
+++ b/src/worker/mod.rs
@@ -5,6 +5,7 @@ mod single_write_multi_read;
 mod task_data;
 #[cfg(any(test, feature = "integration"))]
 pub(crate) mod test_utils;
+mod unset_entry_guard;
 mod worker_connection_pool;
 mod worker_service;
 
diff --git a/src/worker/single_write_multi_read.rs b/src/worker/single_write_multi_read.rs
index 30c4ce0..95268f4 100644
--- a/src/worker/single_write_multi_read.rs
+++ b/src/worker/single_write_multi_read.rs
@@ -1,4 +1,5 @@
 use std::fmt;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::time::Duration;
 use tokio::sync::watch;
 
@@ -12,6 +13,7 @@ use tokio::sync::watch;
 pub struct SingleWriteMultiRead<T: Clone> {
     tx: watch::Sender<Option<T>>,
     rx: watch::Receiver<Option<T>>,
+    handles: AtomicUsize,
 }
 
 impl<T: Clone> Default for SingleWriteMultiRead<T> {
@@ -42,7 +44,11 @@ impl std::error::Error for SingleWriteMultiReadError {}
 impl<T: Clone> SingleWriteMultiRead<T> {
     pub(crate) fn new() -> Self {
         let (tx, rx) = watch::channel(None);
-        Self { tx, rx }
+        Self {
+            tx,
+            rx,
+            handles: AtomicUsize::new(0),
+        }
     }
 
     /// Write the value. Only the first call is meaningful;
@@ -62,6 +68,26 @@ impl<T: Clone> SingleWriteMultiRead<T> {
         Ok(())
     }
 
+    /// Whether a value was already written.
+    pub(crate) fn is_set(&self) -> bool {
+        self.rx.borrow().is_some()
+    }
+
+    /// Counts one more user of this entry.
+    pub(crate) fn add_handle(&self) {
+        self.handles.fetch_add(1, Ordering::SeqCst);
+    }
+
+    /// Counts one user less of this entry, returning how many of them are left.
+    pub(crate) fn remove_handle(&self) -> usize {
+        self.handles.fetch_sub(1, Ordering::SeqCst) - 1
+    }
+
+    /// Whether this entry has any user left.
+    pub(crate) fn has_handles(&self) -> bool {
+        self.handles.load(Ordering::SeqCst) > 0
+    }
+
     /// Reads the current value, if any, not waiting for it to be set by a writer.
     #[cfg(feature = "grpc")]
     pub(crate) fn read_now(&self) -> Option<T> {
diff --git a/src/worker/unset_entry_guard.rs b/src/worker/unset_entry_guard.rs
new file mode 100644
index 0000000..f050dcf
--- /dev/null
+++ b/src/worker/unset_entry_guard.rs
@@ -0,0 +1,72 @@
+use crate::TaskKey;
+use crate::worker::SingleWriteMultiRead;
+use crate::worker::worker_service::{ResultTaskData, TaskDataEntries};
+use moka::ops::compute::Op;
+use std::sync::Arc;
+
+/// Handle to an entry in [TaskDataEntries] that, when dropped, removes the entry if nothing was
+/// ever written to it and it has no other handles.
+///
+/// The entry of a task is created by whoever mentions the task first: the coordinator sending its
+/// plan, or a consumer asking for its output. If the coordinator gave up before writing the plan,
+/// or the consumer asked for a task that is already gone, no one else will clean up that entry.
+pub(super) struct UnsetEntryGuard {
+    entries: Arc<TaskDataEntries>,
+    key: TaskKey,
+    entry: Arc<SingleWriteMultiRead<ResultTaskData>>,
+}
+
+impl UnsetEntryGuard {
+    pub(super) async fn new(entries: &Arc<TaskDataEntries>, key: TaskKey) -> Self {
+        let result = entries
+            .entry(key)
+            .and_compute_with(async |entry| match entry {
+                Some(entry) => {
+                    entry.value().add_handle();
+                    Op::Nop
+                }
+                None => {
+                    let entry = SingleWriteMultiRead::default();
+                    entry.add_handle();
+                    Op::Put(Arc::new(entry))
+                }
+            })
+            .await;
+        // Either the entry was there, or it was just inserted.
+        let entry = result.unwrap().into_value();
+        Self {
+            entries: Arc::clone(entries),
+            key,
+            entry,
+        }
+    }
+
+    pub(super) fn entry(&self) -> &SingleWriteMultiRead<ResultTaskData> {
+        &self.entry
+    }
+}
+
+impl Drop for UnsetEntryGuard {
+    fn drop(&mut self) {
+        if self.entry.remove_handle() > 0 || self.entry.is_set() {
+            return;
+        }
+        let Ok(runtime) = tokio::runtime::Handle::try_current() else {
+            return;
+        };
+        let entries = Arc::clone(&self.entries);
+        let key = self.key;
+        #[allow(clippy::disallowed_methods)]
+        runtime.spawn(async move {
+            entries
+                .entry(key)
+                .and_compute_with(async |entry| match entry {
+                    Some(entry) if !entry.value().is_set() && !entry.value().has_handles() => {
+                        Op::Remove
+                    }
+                    _ => Op::Nop,
+                })
+                .await;
+        });
+    }
+}
-- 
2.43.0


From 38736f8ff0f1adb3054cddce300f34b072a28b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 17/39] fix: drop streams established after their consumers are
 gone

---
 src/worker/worker_connection_pool.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/worker/worker_connection_pool.rs b/src/worker/worker_connection_pool.rs
index 268e299..0543196 100644
--- a/src/worker/worker_connection_pool.rs
+++ b/src/worker/worker_connection_pool.rs
@@ -108,6 +108,9 @@ impl WorkerConnectionPool {
         let stream_group = worker_connection.get_or_init(|| {
             let metrics = self.metrics.clone();
             let ctx = Arc::clone(ctx);
+            let slots = (0..n_slots).map(|_| Mutex::new(StreamSlot::Uninit));
+            let slots = Arc::new(slots.collect::<Vec<_>>());
+            let slots_clone = Arc::clone(&slots);
 
             // The relevant entry from `task_data_entries` needs to be eagerly retrieved, it cannot be
             // left for until someone decides to start polling the returned `BoxStream`, otherwise,
@@ -134,23 +137,20 @@ impl WorkerConnectionPool {
                 }?;
                 let headers = get_passthrough_headers(ctx.session_config());
                 let streams = client.execute_task(headers, request, metrics, &ctx).await?;
-                Ok(streams)
+                // Streams whose consumers are already gone are dropped here, there might be no
+                // one left awaiting for the result of this task.
+                for (slot, stream) in slots_clone.iter().zip(streams) {
+                    let mut slot = slot.lock().unwrap();
+                    if matches!(*slot, StreamSlot::Uninit) {
+                        *slot = StreamSlot::Ready(stream);
+                    }
+                }
+                Ok(())
             });
 
-            let slots = (0..n_slots).map(|_| Mutex::new(StreamSlot::Uninit));
-            let slots = Arc::new(slots.collect::<Vec<_>>());
-            let slots_clone = Arc::clone(&slots);
             let init = async move {
                 match streams_task.await {
-                    Ok(Ok(streams)) => {
-                        for (slot, stream) in slots_clone.iter().zip(streams) {
-                            let mut slot = slot.lock().unwrap();
-                            if matches!(*slot, StreamSlot::Uninit) {
-                                *slot = StreamSlot::Ready(stream);
-                            }
-                        }
-                        Ok(())
-                    }
+                    Ok(Ok(())) => Ok(()),
                     Ok(Err(e)) => Err(Arc::new(e)),
                     Err(e) => Err(Arc::new(internal_datafusion_err!(
                         "JoinError instantiating streams {e}"
-- 
2.43.0


From a1d7addf9f7d4da429a92856385c1481176c6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 18/39] fix: stop what a finished task still runs right away

The worker's task cache drops invalidated entries lazily, possibly only upon
further usage, so operators of finished or cancelled tasks running in the
background (like RepartitionExec inputs) kept running until then.
---
 src/worker/impl_coordinator_channel.rs | 4 ++++
 src/worker/single_write_multi_read.rs  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index 1483322..879ddb0 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -182,6 +182,10 @@ impl Worker {
                     send_metrics_via_channel(metrics_tx, plan, d_ctx, task_data_metrics);
                 }
             }
+            // The cache drops invalidated entries lazily, maybe only upon further usage, but dropping
+            // the plan is what stops any of its operators still running in the background.
+            let finished = Arc::new(exec_datafusion_err!("The task already finished"));
+            guard.entry().replace(Err(finished));
             task_data_entries.invalidate(&key).await
         });
 
diff --git a/src/worker/single_write_multi_read.rs b/src/worker/single_write_multi_read.rs
index 95268f4..29b5420 100644
--- a/src/worker/single_write_multi_read.rs
+++ b/src/worker/single_write_multi_read.rs
@@ -68,6 +68,11 @@ impl<T: Clone> SingleWriteMultiRead<T> {
         Ok(())
     }
 
+    /// Replaces whatever was written, dropping it right away.
+    pub(crate) fn replace(&self, item: T) {
+        drop(self.tx.send_replace(Some(item)));
+    }
+
     /// Whether a value was already written.
     pub(crate) fn is_set(&self) -> bool {
         self.rx.borrow().is_some()
-- 
2.43.0


From 416a2c14a5dbc4a47d1a7f09269048481a9a5538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 19/39] fix: consumers of a limited broadcast build side must
 all see the same rows

The limit was applied by each consumer task on top of the broadcast, and each
could let different rows through.
---
 src/distributed_planner/insert_broadcast.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/distributed_planner/insert_broadcast.rs b/src/distributed_planner/insert_broadcast.rs
index 7fb72cf..a606fc8 100644
--- a/src/distributed_planner/insert_broadcast.rs
+++ b/src/distributed_planner/insert_broadcast.rs
@@ -133,17 +133,17 @@ pub(super) fn insert_broadcast_execs(
             return Ok(Transformed::no(node));
         };
 
-        let (broadcast_input, coalesce_fetch) = build_child
-            .downcast_ref::<CoalescePartitionsExec>()
-            .map_or_else(
-                || (Arc::clone(build_child), None),
-                |coalesce| (Arc::clone(coalesce.input()), coalesce.fetch()),
-            );
+        // A CoalescePartitionsExec with a fetch needs to stay below the BroadcastExec: which rows it
+        // lets through is arbitrary, and all the consumer tasks need to see the same ones.
+        let broadcast_input = match build_child.downcast_ref::<CoalescePartitionsExec>() {
+            Some(coalesce) if coalesce.fetch().is_none() => Arc::clone(coalesce.input()),
+            _ => Arc::clone(build_child),
+        };
 
         // consumer_task_count=1 is a placeholder and will be corrected during optimizer rule.
         let broadcast: Arc<dyn ExecutionPlan> = Arc::new(BroadcastExec::new(broadcast_input, 1));
         let new_build_child: Arc<dyn ExecutionPlan> =
-            Arc::new(CoalescePartitionsExec::new(broadcast).with_fetch(coalesce_fetch));
+            Arc::new(CoalescePartitionsExec::new(broadcast));
 
         let mut new_children: Vec<Arc<dyn ExecutionPlan>> = children.into_iter().cloned().collect();
         new_children[0] = new_build_child;
-- 
2.43.0


From 71f9a3dd213707115ff06c792bf66ee82864f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 20/39] fix: leaves that stop at a limit run in one task

With a single partition, DataFusion pushes the limit into the leaf leaving no
other above it, so each task was applying it on its own.
---
 src/distributed_planner/inject_network_boundaries.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index f5e8bc2..a9dabd3 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -261,7 +261,12 @@ async fn _inject_network_boundaries(
         // This is a leaf node, maybe a DataSourceExec, or maybe something else custom from the user.
         // If we could not determine how many tasks this leaf node should run on, we need to assume
         // it cannot be distributed and use just 1 task.
-        desired_task_count.unwrap_or(Maximum(1))
+        let mut task_count = desired_task_count.unwrap_or(Maximum(1));
+        if relies_on_single_partition(&plan, &processed_children) {
+            // The limit was pushed into the leaf, so there might be no other one above it.
+            task_count = task_count.merge(Maximum(1));
+        }
+        task_count
     } else if plan.is::<ChildrenIsolatorUnionExec>() {
         // Isolating unions have the chance to decide how many tasks they should run on. If there
         // is a union with a bunch of children, the user might want to increase parallelism and the
-- 
2.43.0


From 6d4a1f0f60becba689f6e8fc257777264b04dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 21/39] fix: task variants of a file scan do not declare an
 ordering the original scan lacks

---
 src/events/defaults/file_scan_config.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index 115573f..97ce311 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -69,6 +69,11 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
 
     let mut file_scan_template = file_scan.clone();
     file_scan_template.file_groups.clear();
+    // With fewer files per group, a declared ordering the original scan could not rely on might
+    // become valid. The plan above was built without it: do not introduce it at this point.
+    if ev.plan.output_ordering().is_none() {
+        file_scan_template.output_ordering.clear();
+    }
     let mut file_scans = vec![file_scan_template; ev.task_count];
     for (i, file_group) in rebalanced.into_iter().enumerate() {
         file_scans[i % ev.task_count].file_groups.push(file_group);
-- 
2.43.0


From 4c94178f17d8d1be8e2240f975091a233d98c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 22/39] fix: keep the files of a declared partition together
 when splitting a file scan over tasks

---
 src/events/defaults/file_scan_config.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index 97ce311..cfe5ed8 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -41,15 +41,15 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let partition_count = ev.plan.output_partitioning().partition_count();
 
     let mut rebalanced = if file_scan.output_partitioning.is_some() {
-        let all_partitioned_files = file_scan
-            .file_groups
-            .iter()
-            .flat_map(|file_group| file_group.iter().cloned())
-            .collect::<Vec<_>>();
-        rebalance_round_robin(all_partitioned_files, partition_count * ev.task_count)
-            .into_iter()
-            .map(FileGroup::new)
-            .collect::<Vec<_>>()
+        // The declared partitioning holds only if the files of a partition stay together: each
+        // partition goes as a whole to a single task.
+        rebalance_round_robin(
+            file_scan.file_groups.clone(),
+            partition_count * ev.task_count,
+        )
+        .into_iter()
+        .map(|groups| FileGroup::new(groups.into_iter().flat_map(|v| v.into_inner()).collect()))
+        .collect::<Vec<_>>()
     } else {
         FileGroupPartitioner::new()
             .with_target_partitions(partition_count * ev.task_count)
-- 
2.43.0


From d2452e1e33b1cdc4b37a79870a8122caed179fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 23/39] fix: network boundaries follow the partition count of a
 replaced input

---
 src/execution_plans/network_broadcast.rs | 17 ++++++++++++++---
 src/execution_plans/network_coalesce.rs  | 15 +++++++++++++--
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/execution_plans/network_broadcast.rs b/src/execution_plans/network_broadcast.rs
index 94bca6d..bfcedec 100644
--- a/src/execution_plans/network_broadcast.rs
+++ b/src/execution_plans/network_broadcast.rs
@@ -1,5 +1,6 @@
 use crate::common::require_one_child;
 use crate::distributed_planner::{NetworkBoundary, ProducerHead};
+use crate::execution_plans::common::scale_partitioning_props;
 use crate::stage::{LocalStage, Stage};
 use crate::worker::WorkerConnectionPool;
 use crate::{BroadcastExec, DistributedTaskContext};
@@ -11,8 +12,8 @@ use datafusion::physical_expr::PhysicalExpr;
 use datafusion::physical_expr_common::metrics::MetricsSet;
 use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
 use datafusion::physical_plan::{
-    DisplayAs, DisplayFormatType, ExecutionPlan, Partitioning, PlanProperties, Statistics,
-    StatisticsArgs,
+    DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, Partitioning,
+    PlanProperties, Statistics, StatisticsArgs,
 };
 use std::fmt::Formatter;
 use std::sync::Arc;
@@ -231,7 +232,17 @@ impl ExecutionPlan for NetworkBroadcastExec {
         let mut self_clone = self.as_ref().clone();
         match &mut self_clone.input_stage {
             Stage::Local(local) => {
-                local.plan = require_one_child(children)?;
+                let child = require_one_child(children)?;
+                // The partitions of this node are a multiple of the ones in its input.
+                let prev_partitions = local.plan.output_partitioning().partition_count();
+                let partitions = child.output_partitioning().partition_count();
+                if partitions != prev_partitions && prev_partitions > 0 {
+                    self_clone.properties =
+                        scale_partitioning_props(&self_clone.properties, |p| {
+                            p * partitions / prev_partitions
+                        })?;
+                }
+                local.plan = child;
             }
             Stage::Remote(_) => {
                 if !children.is_empty() {
diff --git a/src/execution_plans/network_coalesce.rs b/src/execution_plans/network_coalesce.rs
index 4cbaec0..0c791fb 100644
--- a/src/execution_plans/network_coalesce.rs
+++ b/src/execution_plans/network_coalesce.rs
@@ -15,7 +15,8 @@ use datafusion::physical_plan::projection::ProjectionExec;
 use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
 use datafusion::physical_plan::{
     ChildrenPropertiesMode, DisplayAs, DisplayFormatType, EmptyRecordBatchStream, ExecutionPlan,
-    PlanProperties, ReplaceChildrenOptions, Statistics, StatisticsArgs, internal_err,
+    ExecutionPlanProperties, PlanProperties, ReplaceChildrenOptions, Statistics, StatisticsArgs,
+    internal_err,
 };
 use std::fmt::{Debug, Formatter};
 use std::sync::Arc;
@@ -253,7 +254,17 @@ impl ExecutionPlan for NetworkCoalesceExec {
         let mut self_clone = self.as_ref().clone();
         match &mut self_clone.input_stage {
             Stage::Local(local) => {
-                local.plan = require_one_child(children)?;
+                let child = require_one_child(children)?;
+                // The partitions of this node are a multiple of the ones in its input.
+                let prev_partitions = local.plan.output_partitioning().partition_count();
+                let partitions = child.output_partitioning().partition_count();
+                if partitions != prev_partitions && prev_partitions > 0 {
+                    self_clone.properties =
+                        scale_partitioning_props(&self_clone.properties, |p| {
+                            p * partitions / prev_partitions
+                        })?;
+                }
+                local.plan = child;
             }
             Stage::Remote(_) => {
                 if !children.is_empty() {
-- 
2.43.0


From 25661fde1dd06b023f165f993359efe466fdb3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 24/39] fix: option extensions whose keys repeat their prefix
 or have capitals reach the workers

---
 src/config_extension_ext.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 6776d46..5979bd7 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -1,4 +1,4 @@
-use datafusion::common::{DataFusionError, HashSet, internal_datafusion_err};
+use datafusion::common::{DataFusionError, HashMap, internal_datafusion_err};
 use datafusion::config::ConfigExtension;
 use datafusion::prelude::SessionConfig;
 use http::{HeaderMap, HeaderName};
@@ -57,17 +57,16 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         .as_mut()
         .entries()
         .into_iter()
-        .map(|entry| entry.key)
-        .collect::<HashSet<_>>();
+        // Header names are lower case.
+        .map(|entry| (entry.key.to_ascii_lowercase(), entry.key))
+        .collect::<HashMap<_, _>>();
 
+    let prefix = format!("{FLIGHT_METADATA_CONFIG_PREFIX}{}.", T::PREFIX).to_ascii_lowercase();
     for (k, v) in headers.iter() {
-        let key = k.as_str().trim_start_matches(FLIGHT_METADATA_CONFIG_PREFIX);
-        let prefix = format!("{}.", T::PREFIX);
-        if key.starts_with(&prefix) {
-            let key = key.trim_start_matches(&prefix);
-            if !known_keys.contains(key) {
+        if let Some(key) = k.as_str().strip_prefix(&prefix) {
+            let Some(key) = known_keys.get(key) else {
                 continue;
-            }
+            };
 
             result.as_mut().set(
                 key,
-- 
2.43.0


From cf23d12bb6bc468b6f79389ee1058672ec692435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 25/39] fix: tasks co-located with the coordinator shared plan
 nodes and their execution state

---
 src/coordinator/query_coordinator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 2f9c99f..d55718b 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -151,7 +151,7 @@ impl<'a> StageCoordinator<'a> {
             task_number: task_i,
         };
 
-        let set_plan_request = SetPlanRequest {
+        let mut set_plan_request = SetPlanRequest {
             task_key,
             task_count: self.task_count,
             plan: MaybeEncoded::Decoded(specialized),
@@ -193,6 +193,11 @@ impl<'a> StageCoordinator<'a> {
             let mut client = match LocalWorkerContext::from_ctx(&task_ctx) {
                 Some(lw) if lw.self_url == url => {
                     metrics.local_coordinator_channels.add(1);
+                    // Nodes keep execution state (e.g., network connections, join build sides,
+                    // dynamic filters or metrics), so tasks that happen to run in this same process
+                    // cannot share them: as any other task, each one gets its own copy of the plan.
+                    let encoded = set_plan_request.plan.encode(&task_ctx)?;
+                    set_plan_request.plan = MaybeEncoded::Encoded(encoded);
                     Ok(lw.to_worker_channel())
                 }
                 _ => {
-- 
2.43.0


From 9244ce0ea59789a3f6cf4817af33793be04575b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 26/39] fix: work unit latencies underflowed when the
 coordinator's clock is ahead of the worker's

---
 src/work_unit_feed/remote_work_unit_feed.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/work_unit_feed/remote_work_unit_feed.rs b/src/work_unit_feed/remote_work_unit_feed.rs
index 5b73ef7..6ee483b 100644
--- a/src/work_unit_feed/remote_work_unit_feed.rs
+++ b/src/work_unit_feed/remote_work_unit_feed.rs
@@ -193,14 +193,17 @@ impl RemoteFeedProvider {
 
                 msg_count.add(1);
 
-                send_latency_max.add_nanos(sent_timestamp_unix_nanos - base);
-                send_latency_p50.add_nanos(sent_timestamp_unix_nanos - base);
+                // These timestamps come from different machines, whose clocks might disagree.
+                send_latency_max.add_nanos(sent_timestamp_unix_nanos.saturating_sub(base));
+                send_latency_p50.add_nanos(sent_timestamp_unix_nanos.saturating_sub(base));
 
-                received_latency_max.add_nanos(received_timestamp_unix_nanos - base);
-                received_latency_p50.add_nanos(received_timestamp_unix_nanos - base);
+                received_latency_max.add_nanos(received_timestamp_unix_nanos.saturating_sub(base));
+                received_latency_p50.add_nanos(received_timestamp_unix_nanos.saturating_sub(base));
 
-                processed_latency_max.add_nanos(processed_timestamp_unix_nanos - base);
-                processed_latency_p50.add_nanos(processed_timestamp_unix_nanos - base);
+                processed_latency_max
+                    .add_nanos(processed_timestamp_unix_nanos.saturating_sub(base));
+                processed_latency_p50
+                    .add_nanos(processed_timestamp_unix_nanos.saturating_sub(base));
 
                 Ok(work_unit)
             })
-- 
2.43.0


From 90164929cc5c9fa29e1b5e93222da91d9e983cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 27/39] fix: queries that end before their work unit feeds
 waited for the feeds

---
 src/coordinator/query_coordinator.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index d55718b..6b9fc8b 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -334,10 +334,17 @@ impl<'a> StageCoordinator<'a> {
             }
         }
 
+        let query_ended = Arc::clone(self.end_stream_notifier).notified_owned();
+
         self.join_set.lock().unwrap().spawn(async move {
             let _guard = WorkUnitEosOnDrop(tx);
-            futures::future::try_join_all(futures).await?;
-            Ok(())
+            // A query can end without consuming all its feeds (e.g., because of a LIMIT), and at
+            // that point nobody is interested in any further work unit.
+            tokio::select! {
+                biased;
+                res = futures::future::try_join_all(futures) => res.map(|_| ()),
+                _ = query_ended => Ok(()),
+            }
         });
         Ok(())
     }
-- 
2.43.0


From af84a74a6f6899e0210cdeb3d147cee396175424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 28/39] fix: metrics reported by workers lose fully matched
 pruning counts, ratio merge strategies and display settings, and 0ns times
 become 1ns

---
 src/protocol/grpc/generated/worker.rs | 36 +++++++++++++++++++++
 src/protocol/grpc/metrics_proto.rs    | 45 +++++++++++++++++++++++----
 src/protocol/grpc/worker.proto        | 10 ++++++
 3 files changed, 85 insertions(+), 6 deletions(-)

diff --git a/src/protocol/grpc/generated/worker.rs b/src/protocol/grpc/generated/worker.rs
index 6bf8beb..4f92e2b 100644
--- a/src/protocol/grpc/generated/worker.rs
+++ b/src/protocol/grpc/generated/worker.rs
@@ -414,6 +414,8 @@ pub struct NamedPruningMetrics {
     pub pruned: u64,
     #[prost(uint64, tag = "3")]
     pub matched: u64,
+    #[prost(uint64, tag = "4")]
+    pub fully_matched: u64,
 }
 #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
 pub struct NamedRatio {
@@ -423,6 +425,11 @@ pub struct NamedRatio {
     pub part: u64,
     #[prost(uint64, tag = "3")]
     pub total: u64,
+    #[prost(enumeration = "RatioMergeStrategy", tag = "4")]
+    pub merge_strategy: i32,
+    /// Displays `1%` instead of `1% (1/100)`.
+    #[prost(bool, tag = "5")]
+    pub hide_raw_values: bool,
 }
 #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
 pub struct BytesCount {
@@ -475,6 +482,35 @@ pub struct MaxGauge {
     #[prost(uint64, tag = "2")]
     pub value: u64,
 }
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ::prost::Enumeration)]
+#[repr(i32)]
+pub enum RatioMergeStrategy {
+    AddPartAddTotal = 0,
+    AddPartSetTotal = 1,
+    SetPartAddTotal = 2,
+}
+impl RatioMergeStrategy {
+    /// String value of the enum field names used in the ProtoBuf definition.
+    ///
+    /// The values are not transformed in any way and thus are considered stable
+    /// (if the ProtoBuf definition does not change) and safe for programmatic use.
+    pub fn as_str_name(&self) -> &'static str {
+        match self {
+            Self::AddPartAddTotal => "ADD_PART_ADD_TOTAL",
+            Self::AddPartSetTotal => "ADD_PART_SET_TOTAL",
+            Self::SetPartAddTotal => "SET_PART_ADD_TOTAL",
+        }
+    }
+    /// Creates an enum from field names used in the ProtoBuf definition.
+    pub fn from_str_name(value: &str) -> ::core::option::Option<Self> {
+        match value {
+            "ADD_PART_ADD_TOTAL" => Some(Self::AddPartAddTotal),
+            "ADD_PART_SET_TOTAL" => Some(Self::AddPartSetTotal),
+            "SET_PART_ADD_TOTAL" => Some(Self::SetPartAddTotal),
+            _ => None,
+        }
+    }
+}
 /// Generated client implementations.
 pub mod worker_service_client {
     #![allow(
diff --git a/src/protocol/grpc/metrics_proto.rs b/src/protocol/grpc/metrics_proto.rs
index b71ec3e..d3cc9ca 100644
--- a/src/protocol/grpc/metrics_proto.rs
+++ b/src/protocol/grpc/metrics_proto.rs
@@ -4,7 +4,9 @@ use datafusion::common::internal_err;
 use datafusion::error::DataFusionError;
 use datafusion::physical_plan::metrics::{Count, Gauge, Label, Time, Timestamp};
 use datafusion::physical_plan::metrics::{Metric, MetricValue, MetricsSet};
-use datafusion::physical_plan::metrics::{PruningMetrics as DfPruningMetrics, RatioMetrics};
+use datafusion::physical_plan::metrics::{
+    PruningMetrics as DfPruningMetrics, RatioMergeStrategy, RatioMetrics,
+};
 use sketches_ddsketch::DDSketch;
 use std::borrow::Cow;
 use std::sync::Arc;
@@ -274,6 +276,7 @@ pub fn df_metric_to_proto(metric: Arc<Metric>) -> Result<pb::Metric, DataFusionE
                 name: name.to_string(),
                 pruned: pruning_metrics.pruned() as u64,
                 matched: pruning_metrics.matched() as u64,
+                fully_matched: pruning_metrics.fully_matched() as u64,
             })),
             partition,
             labels,
@@ -283,6 +286,8 @@ pub fn df_metric_to_proto(metric: Arc<Metric>) -> Result<pb::Metric, DataFusionE
                 name: name.to_string(),
                 part: ratio_metrics.part() as u64,
                 total: ratio_metrics.total() as u64,
+                merge_strategy: ratio_merge_strategy_to_proto(ratio_metrics.merge_strategy()).into(),
+                hide_raw_values: !ratio_metrics.display_raw_values(),
             })),
             partition,
             labels,
@@ -310,8 +315,7 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             )))
         }
         Some(pb::metric::Value::ElapsedCompute(elapsed)) => {
-            let time = Time::new();
-            time.add_duration(std::time::Duration::from_nanos(elapsed.value));
+            let time = time_from_nanos(elapsed.value);
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::ElapsedCompute(time),
                 partition,
@@ -391,8 +395,7 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             )))
         }
         Some(pb::metric::Value::Time(named_time)) => {
-            let time = Time::new();
-            time.add_duration(std::time::Duration::from_nanos(named_time.value));
+            let time = time_from_nanos(named_time.value);
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::Time {
                     name: Cow::Owned(named_time.name),
@@ -446,6 +449,7 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             let pruning_metrics = DfPruningMetrics::new();
             pruning_metrics.add_pruned(named_pruning.pruned as usize);
             pruning_metrics.add_matched(named_pruning.matched as usize);
+            pruning_metrics.add_fully_matched(named_pruning.fully_matched as usize);
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::PruningMetrics {
                     name: Cow::Owned(named_pruning.name),
@@ -456,7 +460,11 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             )))
         }
         Some(pb::metric::Value::Ratio(named_ratio)) => {
-            let ratio_metrics = RatioMetrics::new();
+            let ratio_metrics = RatioMetrics::new()
+                .with_merge_strategy(ratio_merge_strategy_from_proto(
+                    named_ratio.merge_strategy(),
+                ))
+                .with_display_raw_values(!named_ratio.hide_raw_values);
             ratio_metrics.set_part(named_ratio.part as usize);
             ratio_metrics.set_total(named_ratio.total as usize);
             Ok(Arc::new(Metric::new_with_labels(
@@ -597,6 +605,31 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
     }
 }
 
+/// [Time::add_duration] rounds 0ns up to 1ns, so a [Time] that was never recorded must be left as is.
+fn time_from_nanos(nanos: u64) -> Time {
+    let time = Time::new();
+    if nanos > 0 {
+        time.add_duration(std::time::Duration::from_nanos(nanos));
+    }
+    time
+}
+
+fn ratio_merge_strategy_to_proto(strategy: &RatioMergeStrategy) -> pb::RatioMergeStrategy {
+    match strategy {
+        RatioMergeStrategy::AddPartAddTotal => pb::RatioMergeStrategy::AddPartAddTotal,
+        RatioMergeStrategy::AddPartSetTotal => pb::RatioMergeStrategy::AddPartSetTotal,
+        RatioMergeStrategy::SetPartAddTotal => pb::RatioMergeStrategy::SetPartAddTotal,
+    }
+}
+
+fn ratio_merge_strategy_from_proto(strategy: pb::RatioMergeStrategy) -> RatioMergeStrategy {
+    match strategy {
+        pb::RatioMergeStrategy::AddPartAddTotal => RatioMergeStrategy::AddPartAddTotal,
+        pb::RatioMergeStrategy::AddPartSetTotal => RatioMergeStrategy::AddPartSetTotal,
+        pb::RatioMergeStrategy::SetPartAddTotal => RatioMergeStrategy::SetPartAddTotal,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/protocol/grpc/worker.proto b/src/protocol/grpc/worker.proto
index 2affe11..8df86ec 100644
--- a/src/protocol/grpc/worker.proto
+++ b/src/protocol/grpc/worker.proto
@@ -327,12 +327,22 @@ message NamedPruningMetrics {
   string name = 1;
   uint64 pruned = 2;
   uint64 matched = 3;
+  uint64 fully_matched = 4;
 }
 
 message NamedRatio {
   string name = 1;
   uint64 part = 2;
   uint64 total = 3;
+  RatioMergeStrategy merge_strategy = 4;
+  // Displays `1%` instead of `1% (1/100)`.
+  bool hide_raw_values = 5;
+}
+
+enum RatioMergeStrategy {
+  ADD_PART_ADD_TOTAL = 0;
+  ADD_PART_SET_TOTAL = 1;
+  SET_PART_ADD_TOTAL = 2;
 }
 
 message BytesCount {
-- 
2.43.0


From a72043efa4bcf06a09f4f9b4f5fc1a82b66ec172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 29/39] fix: metrics are attributed to the wrong nodes when a
 producer head is added to or removed from the plan of a task

---
 src/worker/impl_coordinator_channel.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index 879ddb0..17bc66d 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -179,7 +179,8 @@ impl Worker {
                 let task_data_metrics = &task_data.task_data_metrics;
                 task_data_metrics.mark_execution_finished();
                 if let Some(metrics_tx) = metrics_tx {
-                    send_metrics_via_channel(metrics_tx, plan, d_ctx, task_data_metrics);
+                    let base_plan = &task_data.base_plan;
+                    send_metrics_via_channel(metrics_tx, base_plan, plan, d_ctx, task_data_metrics);
                 }
             }
             // The cache drops invalidated entries lazily, maybe only upon further usage, but dropping
@@ -216,14 +217,30 @@ impl Worker {
 
 /// Collects metrics from the plan in pre-order traversal order and sends them via the
 /// coordinator channel oneshot.
+///
+/// The coordinator matches these metrics with the nodes of the plan it sent, so the traversed plan
+/// is `base_plan`. The executed `final_plan` shares all its nodes, except for the producer head at
+/// the top, which might have been replaced, added or removed (see [ProducerHead::insert]).
+///
+/// [ProducerHead::insert]: crate::ProducerHead::insert
 fn send_metrics_via_channel(
     metrics_tx: Sender<TaskMetrics>,
-    plan: &Arc<dyn ExecutionPlan>,
+    base_plan: &Arc<dyn ExecutionPlan>,
+    final_plan: &Arc<dyn ExecutionPlan>,
     dt_ctx: DistributedTaskContext,
     task_data_metrics: &Arc<TaskDataMetrics>,
 ) {
+    let head_replaced = match (&base_plan.children()[..], &final_plan.children()[..]) {
+        ([base_input], [final_input]) => Arc::ptr_eq(base_input, final_input),
+        _ => false,
+    };
+
     let mut pre_order_plan_metrics = vec![];
-    let _ = plan.apply_with_dt_ctx(dt_ctx, |node, _| {
+    let _ = base_plan.apply_with_dt_ctx(dt_ctx, |node, _| {
+        let node = match pre_order_plan_metrics.is_empty() && head_replaced {
+            true => final_plan,
+            false => node,
+        };
         pre_order_plan_metrics.push(node.metrics().unwrap_or_default());
         Ok(TreeNodeRecursion::Continue)
     });
-- 
2.43.0


From 3ea67bc4ea8a8211c3adf48e4c4d9bde77dc91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 30/39] fix: waiting for metrics hangs forever if a task was
 never executed, failed or was cancelled

---
 src/coordinator/query_coordinator.rs | 21 +++++++++++++++++++--
 src/metrics/task_metrics_rewriter.rs |  5 +++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 6b9fc8b..e2089f3 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -12,7 +12,8 @@ use crate::work_unit_feed::{build_work_unit_batch_msg, set_work_unit_send_time};
 use crate::{
     CoordinatorToWorkerMsg, DISTRIBUTED_DATAFUSION_TASK_ID_LABEL, DistributedTaskContext,
     DistributedWorkUnitFeedContext, LoadInfo, LocalWorkerContext, MaybeEncoded, SetPlanRequest,
-    TaskKey, WorkUnitFeedDeclaration, WorkerToCoordinatorMsg, get_distributed_channel_resolver,
+    TaskKey, TaskMetrics, WorkUnitFeedDeclaration, WorkerToCoordinatorMsg,
+    get_distributed_channel_resolver,
 };
 use datafusion::common::DataFusionError;
 use datafusion::common::instant::Instant;
@@ -22,7 +23,7 @@ use datafusion::common::{Result, exec_err};
 use datafusion::execution::TaskContext;
 use datafusion::physical_expr_common::metrics::{ExecutionPlanMetricsSet, Label, MetricBuilder};
 use datafusion::physical_plan::ExecutionPlan;
-use datafusion::physical_plan::metrics::Count;
+use datafusion::physical_plan::metrics::{Count, MetricsSet};
 use datafusion::prelude::SessionConfig;
 use futures::{Stream, StreamExt, TryStreamExt};
 use std::ops::DerefMut;
@@ -248,10 +249,12 @@ impl<'a> StageCoordinator<'a> {
         // metrics collection process might outlive the query's lifetime.
         #[allow(clippy::disallowed_methods)]
         tokio::spawn(async move {
+            let mut metrics_received = false;
             while let Some(msg) = worker_to_coordinator_rx.recv().await {
                 match msg {
                     WorkerToCoordinatorMsg::TaskMetrics(v) => {
                         if let Some(task_metrics) = &task_metrics {
+                            metrics_received = true;
                             task_metrics.insert(task_key, v);
                         }
                     }
@@ -265,6 +268,20 @@ impl<'a> StageCoordinator<'a> {
                     }
                 }
             }
+            // Tasks that were never asked for data (e.g., the probe side of a join with an empty
+            // build side), that failed, or that were cancelled, do not report any metrics. The ones
+            // waiting for all the metrics must not wait for these.
+            if let Some(task_metrics) = &task_metrics
+                && !metrics_received
+            {
+                task_metrics.insert(
+                    task_key,
+                    TaskMetrics {
+                        pre_order_plan_metrics: vec![],
+                        task_metrics: MetricsSet::new(),
+                    },
+                );
+            }
         });
         load_info_rx
     }
diff --git a/src/metrics/task_metrics_rewriter.rs b/src/metrics/task_metrics_rewriter.rs
index a363320..cce4a29 100644
--- a/src/metrics/task_metrics_rewriter.rs
+++ b/src/metrics/task_metrics_rewriter.rs
@@ -241,6 +241,11 @@ pub fn stage_metrics_rewriter(
             );
         };
 
+        // This task was never executed, or it did not get to report its metrics.
+        if task_metrics.pre_order_plan_metrics.is_empty() {
+            continue;
+        }
+
         let mut per_task_counter = 0usize;
         stage.plan.apply_with_dt_ctx(d_ctx, |node, _ctx| {
             if per_task_counter >= task_metrics.pre_order_plan_metrics.len() {
-- 
2.43.0


From d9febcc3e7b7d22a4045c6e157ad8361e7a176a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 31/39] fix: leaf scaling handlers were asked about network
 boundaries of adaptive plans

---
 .../inject_network_boundaries.rs                    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index a9dabd3..f7de3c6 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -553,8 +553,14 @@ impl InjectNetworkBoundaryContext<'_> {
         plan: &Arc<dyn ExecutionPlan>,
         task_count: TaskCountAnnotation,
     ) -> Result<Arc<dyn ExecutionPlan>> {
+        // Handle network boundaries. They are not leaves, even if they look like ones once their
+        // input stage is running remotely.
+        if plan.is_network_boundary() {
+            // Just annotate the network boundary and stop recursion here.
+            Ok(self.plan_with_task_count(Arc::clone(plan), task_count))
+
         // Handle leaf nodes.
-        if plan.children().is_empty() {
+        } else if plan.children().is_empty() {
             let ev = ScaleUpLeafNodeEvent {
                 plan,
                 task_count: task_count.as_usize(),
@@ -573,11 +579,6 @@ impl InjectNetworkBoundaryContext<'_> {
                 }
             }
 
-        // Handle network boundaries.
-        } else if plan.is_network_boundary() {
-            // Just annotate the network boundary and stop recursion here.
-            Ok(self.plan_with_task_count(Arc::clone(plan), task_count))
-
         // Finalize a pre-inserted ChildrenIsolatorUnionExec.
         } else if plan.is::<ChildrenIsolatorUnionExec>() {
             // Propagating through ChildrenIsolatorUnionExec is not that easy, each child will
-- 
2.43.0


From 025100b1811b50dadce4bfe00481fc0c9fe6758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:15 +0000
Subject: [PATCH 32/39] fix: stages were sent with dynamic filters populated by
 another stage

---
 src/codec/physical_plan.rs | 79 +++++++++++++++++++++++++++++++++++---
 1 file changed, 74 insertions(+), 5 deletions(-)

diff --git a/src/codec/physical_plan.rs b/src/codec/physical_plan.rs
index 6ff9836..83b3b9e 100644
--- a/src/codec/physical_plan.rs
+++ b/src/codec/physical_plan.rs
@@ -1,16 +1,23 @@
 use super::DistributedCodec;
-use datafusion::arrow::datatypes::SchemaRef;
+use datafusion::arrow::datatypes::{Schema, SchemaRef};
 use datafusion::common::Result;
 use datafusion::execution::TaskContext;
-use datafusion::physical_expr::Partitioning;
+use datafusion::physical_expr::expressions::lit;
+use datafusion::physical_expr::{Partitioning, PhysicalExpr};
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion_proto::bytes::{
     physical_plan_from_bytes_with_proto_converter, physical_plan_to_bytes_with_proto_converter,
 };
 use datafusion_proto::physical_plan::from_proto::parse_protobuf_partitioning;
-use datafusion_proto::physical_plan::to_proto::serialize_partitioning;
-use datafusion_proto::physical_plan::{DeduplicatingProtoConverter, PhysicalPlanDecodeContext};
+use datafusion_proto::physical_plan::to_proto::{
+    serialize_partitioning, serialize_physical_expr_with_converter,
+};
+use datafusion_proto::physical_plan::{
+    DeduplicatingProtoConverter, PhysicalExtensionCodec, PhysicalPlanDecodeContext,
+    PhysicalPlanNodeExt, PhysicalProtoConverterExtension,
+};
 use datafusion_proto::protobuf;
+use datafusion_proto::protobuf::physical_expr_node::ExprType;
 use datafusion_proto::protobuf::proto_error;
 use prost::Message;
 use std::sync::Arc;
@@ -23,12 +30,74 @@ pub(super) fn new_proto_converter() -> DeduplicatingProtoConverter {
     DeduplicatingProtoConverter::default()
 }
 
+/// Encodes plans with their dynamic filters as if they were never updated.
+///
+/// A stage can hold a dynamic filter whose producer belongs to another stage. If the producer is
+/// already running in this process (e.g., a join in the head stage), the filter might be populated
+/// by the time the plan is encoded, and a populated filter refers to the columns of the producer's
+/// schema, so it cannot be decoded against the schema of the node it was pushed down to.
+struct UnpopulatedFiltersConverter;
+
+impl PhysicalProtoConverterExtension for UnpopulatedFiltersConverter {
+    fn proto_to_execution_plan(
+        &self,
+        proto: &protobuf::PhysicalPlanNode,
+        ctx: &PhysicalPlanDecodeContext<'_>,
+    ) -> Result<Arc<dyn ExecutionPlan>> {
+        new_proto_converter().proto_to_execution_plan(proto, ctx)
+    }
+
+    fn execution_plan_to_proto(
+        &self,
+        plan: &Arc<dyn ExecutionPlan>,
+        codec: &dyn PhysicalExtensionCodec,
+    ) -> Result<protobuf::PhysicalPlanNode> {
+        protobuf::PhysicalPlanNode::try_from_physical_plan_with_converter(
+            Arc::clone(plan),
+            codec,
+            self,
+        )
+    }
+
+    fn proto_to_physical_expr(
+        &self,
+        proto: &protobuf::PhysicalExprNode,
+        input_schema: &Schema,
+        ctx: &PhysicalPlanDecodeContext<'_>,
+    ) -> Result<Arc<dyn PhysicalExpr>> {
+        new_proto_converter().proto_to_physical_expr(proto, input_schema, ctx)
+    }
+
+    fn physical_expr_to_proto(
+        &self,
+        expr: &Arc<dyn PhysicalExpr>,
+        codec: &dyn PhysicalExtensionCodec,
+    ) -> Result<protobuf::PhysicalExprNode> {
+        /// Generation of the dynamic filters that nobody updated.
+        const INITIAL_GENERATION: u64 = 1;
+
+        let mut node = serialize_physical_expr_with_converter(expr, codec, self)?;
+        if let Some(ExprType::DynamicFilter(filter)) = &mut node.expr_type
+            && filter.generation > INITIAL_GENERATION
+        {
+            filter.generation = INITIAL_GENERATION;
+            filter.is_complete = false;
+            filter.inner_expr = Some(Box::new(serialize_physical_expr_with_converter(
+                &lit(true),
+                codec,
+                self,
+            )?));
+        }
+        Ok(node)
+    }
+}
+
 pub(crate) fn encode_execution_plan(
     plan: Arc<dyn ExecutionPlan>,
     task_ctx: &TaskContext,
 ) -> Result<Vec<u8>> {
     let codec = DistributedCodec::new_combined_with_user(task_ctx.session_config());
-    let converter = new_proto_converter();
+    let converter = UnpopulatedFiltersConverter;
     physical_plan_to_bytes_with_proto_converter(plan, &codec, &converter)
         .map(|bytes| bytes.to_vec())
 }
-- 
2.43.0


From 97d3cf1ac11794b2c7488c8e7348bdd9134daadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:26 +0000
Subject: [PATCH 33/39] fix: executions of the same plan shared their tasks

---
 src/coordinator/distributed.rs         | 14 ++++++++++++--
 src/coordinator/prepare_static_plan.rs | 25 ++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/distributed.rs b/src/coordinator/distributed.rs
index 1e5fc79..93daaca 100644
--- a/src/coordinator/distributed.rs
+++ b/src/coordinator/distributed.rs
@@ -1,7 +1,7 @@
 use crate::common::require_one_child;
 use crate::coordinator::metrics_store::MetricsStore;
 use crate::coordinator::prepare_dynamic_plan::prepare_dynamic_plan;
-use crate::coordinator::prepare_static_plan::prepare_static_plan;
+use crate::coordinator::prepare_static_plan::{prepare_static_plan, with_new_query_id};
 use crate::coordinator::query_coordinator::QueryCoordinator;
 use crate::distributed_planner::NetworkBoundaryExt;
 use crate::{DistributedConfig, TaskKey};
@@ -16,6 +16,7 @@ use datafusion::physical_plan::stream::RecordBatchReceiverStreamBuilder;
 use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
 use futures::StreamExt;
 use std::fmt::Formatter;
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::{Arc, Mutex};
 
 /// [ExecutionPlan] that executes the inner plan in distributed mode.
@@ -40,6 +41,8 @@ pub struct DistributedExec {
     plan_for_viz: Arc<Mutex<Option<Arc<dyn ExecutionPlan>>>>,
     /// The head stage meant to be executed locally on [DistributedExec::execute].
     head_stage: Arc<Mutex<Option<Arc<dyn ExecutionPlan>>>>,
+    /// Whether this plan, or a copy of it, was already executed.
+    executed: Arc<AtomicBool>,
     /// DataFusion metrics.
     metrics: ExecutionPlanMetricsSet,
     /// Storage where metrics collected from workers at runtime will place their results as they
@@ -60,6 +63,7 @@ impl DistributedExec {
             base_plan,
             plan_for_viz: Arc::new(Mutex::new(None)),
             head_stage: Arc::new(Mutex::new(None)),
+            executed: Arc::new(AtomicBool::new(false)),
             metrics: ExecutionPlanMetricsSet::new(),
             metrics_store: None,
         }
@@ -171,6 +175,7 @@ impl ExecutionPlan for DistributedExec {
             base_plan: require_one_child(&children)?,
             plan_for_viz: Arc::new(Mutex::new(None)),
             head_stage: Arc::new(Mutex::new(None)),
+            executed: Arc::clone(&self.executed),
             metrics: self.metrics.clone(),
             metrics_store: self.metrics_store.clone(),
         }))
@@ -191,7 +196,12 @@ impl ExecutionPlan for DistributedExec {
             );
         }
 
-        let base_plan = Arc::clone(&self.base_plan);
+        // Workers identify tasks by their query id, so if the same plan is executed several times,
+        // even at the same time, each execution needs its own.
+        let base_plan = match self.executed.swap(true, Ordering::Relaxed) {
+            false => Arc::clone(&self.base_plan),
+            true => with_new_query_id(Arc::clone(&self.base_plan))?,
+        };
         let plan_for_viz = Arc::clone(&self.plan_for_viz);
         let head_stage = Arc::clone(&self.head_stage);
 
diff --git a/src/coordinator/prepare_static_plan.rs b/src/coordinator/prepare_static_plan.rs
index 0c51e3a..b99bc21 100644
--- a/src/coordinator/prepare_static_plan.rs
+++ b/src/coordinator/prepare_static_plan.rs
@@ -1,11 +1,12 @@
 use crate::coordinator::distributed::PreparedPlan;
 use crate::coordinator::query_coordinator::QueryCoordinator;
-use crate::stage::RemoteStage;
+use crate::stage::{LocalStage, RemoteStage};
 use crate::{NetworkBoundaryExt, Stage};
 use datafusion::common::tree_node::{Transformed, TreeNode};
 use datafusion::common::{Result, exec_err};
 use datafusion::physical_plan::ExecutionPlan;
 use std::sync::Arc;
+use uuid::Uuid;
 
 /// Prepares the distributed plan for execution, which implies:
 /// 1. Perform some worker URL assignation, choosing either:
@@ -61,3 +62,25 @@ pub(super) fn prepare_static_plan(
         plan_for_viz: Arc::clone(base_plan),
     })
 }
+
+/// Assigns a new query id to all the stages in the plan.
+pub(super) fn with_new_query_id(
+    base_plan: Arc<dyn ExecutionPlan>,
+) -> Result<Arc<dyn ExecutionPlan>> {
+    let query_id = Uuid::new_v4();
+    let transformed = base_plan.transform_up(|plan| {
+        let Some(nb) = plan.as_network_boundary() else {
+            return Ok(Transformed::no(plan));
+        };
+        let Stage::Local(stage) = nb.input_stage() else {
+            return Ok(Transformed::no(plan));
+        };
+        Ok(Transformed::yes(nb.with_input_stage(Stage::Local(
+            LocalStage {
+                query_id,
+                ..stage.clone()
+            },
+        ))?))
+    })?;
+    Ok(transformed.data)
+}
-- 
2.43.0


From 766b88383bafca812ba10477a14111d848da98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:28 +0000
Subject: [PATCH 34/39] fix: cached connections of a runtime that is gone were
 used forever

The default channel resolvers cache connections per RuntimeEnv, and tonic drives a connection on the
Tokio runtime that established it. Once that runtime was shut down, all further queries over the same
RuntimeEnv failed. Check that a cached channel is still driven before handing it out.
---
 src/protocol/grpc/channel_resolver.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/protocol/grpc/channel_resolver.rs b/src/protocol/grpc/channel_resolver.rs
index b545e21..9d186ad 100644
--- a/src/protocol/grpc/channel_resolver.rs
+++ b/src/protocol/grpc/channel_resolver.rs
@@ -63,6 +63,17 @@ impl Default for DefaultChannelResolver {
 impl DefaultChannelResolver {
     /// Gets the cached [BoxCloneSyncChannel] for the given URL, or builds a new one.
     pub async fn get_channel(&self, url: &Url) -> Result<BoxCloneSyncChannel, DataFusionError> {
+        let mut channel = self.get_cached_channel(url).await?;
+        // The connection behind a channel is driven by the Tokio runtime that established it. If that
+        // runtime is gone, the channel is closed forever, and a new one is needed.
+        if channel.clone().ready().await.is_err() {
+            self.cache.invalidate(url);
+            channel = self.get_cached_channel(url).await?;
+        }
+        Ok(channel)
+    }
+
+    async fn get_cached_channel(&self, url: &Url) -> Result<BoxCloneSyncChannel, DataFusionError> {
         let channel = self.cache.get_with_by_ref(url, move || {
             let url = url.to_string();
             async move {
-- 
2.43.0


From 57d0c5a9129854a1e848f93fb2a46b34a1a2e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:28 +0000
Subject: [PATCH 35/39] fix: failures to reach a worker were reported 10s later
 as missing plans

While a head stage waited for a worker that waited for the plan of another task, a failure to send that
plan was only looked at after the wait timed out, and the timeout was reported instead of it.
---
 src/coordinator/distributed.rs       | 26 +++++++++++++++++++++-----
 src/coordinator/query_coordinator.rs | 12 ++++--------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/coordinator/distributed.rs b/src/coordinator/distributed.rs
index 93daaca..c623c61 100644
--- a/src/coordinator/distributed.rs
+++ b/src/coordinator/distributed.rs
@@ -7,7 +7,7 @@ use crate::distributed_planner::NetworkBoundaryExt;
 use crate::{DistributedConfig, TaskKey};
 use datafusion::common::internal_datafusion_err;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
-use datafusion::common::{Result, exec_err};
+use datafusion::common::{DataFusionError, Result, exec_err};
 use datafusion::execution::{SendableRecordBatchStream, TaskContext};
 use datafusion::physical_expr::PhysicalExpr;
 use datafusion::physical_expr_common::metrics::MetricsSet;
@@ -242,14 +242,30 @@ impl ExecutionPlan for DistributedExec {
                 .expect("poisoned lock")
                 .replace(Arc::clone(&result.head_stage));
             let mut stream = result.head_stage.execute(partition, context)?;
-            while let Some(msg) = stream.next().await {
-                if tx.send(msg).await.is_err() {
-                    break; // channel closed
+            let mut pending_tasks = query_coordinator.take_pending_tasks();
+            loop {
+                tokio::select! {
+                    biased;
+                    msg = stream.next() => {
+                        let Some(msg) = msg else {
+                            break; // no more data
+                        };
+                        if tx.send(msg).await.is_err() {
+                            break; // channel closed
+                        }
+                    }
+                    // If something failed while communicating with the workers, the head stage might
+                    // wait for something that will never come, or fail later for not having it.
+                    Some(res) = pending_tasks.join_next() => {
+                        res.map_err(|err| DataFusionError::ExecutionJoin(Box::new(err)))??;
+                    }
                 }
             }
             drop(tx);
             drop(guard);
-            query_coordinator.drain_pending_tasks().await?;
+            while let Some(res) = pending_tasks.join_next().await {
+                res.map_err(|err| DataFusionError::ExecutionJoin(Box::new(err)))??;
+            }
             Ok(())
         });
 
diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index e2089f3..efd4e68 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -98,14 +98,10 @@ impl QueryCoordinator {
         NotifyGuard(Arc::clone(&self.end_stream_notifier))
     }
 
-    /// Blocks until all background tasks have finished (e.g., sending WorkUnit feeds, or collecting
-    /// metrics)
-    pub(super) async fn drain_pending_tasks(self) -> Result<()> {
-        let join_set = std::mem::take(self.join_set.lock().unwrap().deref_mut());
-        for res in join_set.join_all().await {
-            res?;
-        }
-        Ok(())
+    /// Takes all the background tasks (e.g., sending WorkUnit feeds, or collecting metrics) spawned
+    /// so far.
+    pub(super) fn take_pending_tasks(&self) -> JoinSet<Result<()>> {
+        std::mem::take(self.join_set.lock().unwrap().deref_mut())
     }
 }
 
-- 
2.43.0


From 380a1a2020fc8f3567bd73416448e6aced344b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:47 +0000
Subject: [PATCH 36/39] fix: limits were pushed below network boundaries from
 nodes that filter or sort

---
 .../push_fetch_into_network_coalesce.rs         | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/push_fetch_into_network_coalesce.rs b/src/distributed_planner/push_fetch_into_network_coalesce.rs
index a9130b3..f5095eb 100644
--- a/src/distributed_planner/push_fetch_into_network_coalesce.rs
+++ b/src/distributed_planner/push_fetch_into_network_coalesce.rs
@@ -2,7 +2,9 @@ use std::sync::Arc;
 
 use datafusion::common::Result;
 use datafusion::common::tree_node::{Transformed, TreeNode};
-use datafusion::physical_plan::limit::GlobalLimitExec;
+use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
+use datafusion::physical_plan::limit::{GlobalLimitExec, LocalLimitExec};
+use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
 
 use crate::NetworkCoalesceExec;
@@ -94,6 +96,10 @@ pub(crate) fn push_fetch_into_network_coalesce(
     .map(|t| t.data)
 }
 
+/// Returns how many rows of each child partition are enough for `plan`, whichever those rows are.
+///
+/// This only holds for nodes that pass their input rows through in order: a node that filters or sorts
+/// its input (e.g. a `FilterExec` or `SortExec` carrying a fetch) has to see all of it.
 fn fetch_required_from_child(plan: &Arc<dyn ExecutionPlan>) -> Option<usize> {
     if let Some(global_limit) = plan.downcast_ref::<GlobalLimitExec>() {
         return global_limit
@@ -101,7 +107,14 @@ fn fetch_required_from_child(plan: &Arc<dyn ExecutionPlan>) -> Option<usize> {
             .and_then(|fetch| fetch.checked_add(global_limit.skip()));
     }
 
-    plan.fetch()
+    if plan.is::<LocalLimitExec>()
+        || plan.is::<CoalescePartitionsExec>()
+        || plan.is::<SortPreservingMergeExec>()
+    {
+        return plan.fetch();
+    }
+
+    None
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7b40b926a46ad73061d5383007b2917635f65995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:47 +0000
Subject: [PATCH 37/39] fix: the progress of a task was read from a plan that
 is never executed

---
 src/protocol/grpc/observability/service.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/protocol/grpc/observability/service.rs b/src/protocol/grpc/observability/service.rs
index 27edee2..33079cb 100644
--- a/src/protocol/grpc/observability/service.rs
+++ b/src/protocol/grpc/observability/service.rs
@@ -95,7 +95,13 @@ impl ObservabilityService for ObservabilityServiceImpl {
 
             // Only include initialized tasks
             if let Some(Ok(task_data)) = task_data_cell.read_now() {
-                let output_rows = output_rows_from_plan(&task_data.base_plan);
+                // The head of the plan might be replaced upon execution, and the original one would
+                // never show any progress.
+                let plan = match task_data.final_plan.get() {
+                    Some(Ok(final_plan)) => final_plan,
+                    _ => &task_data.base_plan,
+                };
+                let output_rows = output_rows_from_plan(plan);
 
                 tasks.push(TaskProgress {
                     task_key: Some(task_key_to_proto(&internal_key)),
-- 
2.43.0


From 13b9e13836db2ea3783e094a91d5b1bc9d94907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:47 +0000
Subject: [PATCH 38/39] fix: the maximum message size set on a worker was
 ignored

---
 src/protocol/grpc/worker_service.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/protocol/grpc/worker_service.rs b/src/protocol/grpc/worker_service.rs
index 1990285..ef88f66 100644
--- a/src/protocol/grpc/worker_service.rs
+++ b/src/protocol/grpc/worker_service.rs
@@ -157,17 +157,19 @@ impl pb::worker_service_server::WorkerService for Worker {
         let mut flight_streams = Vec::with_capacity(arrow_streams.len());
         for (partition, arrow_stream) in partition_range.zip(arrow_streams) {
             let flight_stream =
-                build_flight_data_stream(arrow_stream, compression)?.map(move |msg| {
-                    // For each FlightData produced by this stream, mark it with the appropriate
-                    // partition. This stream will be merged with several others from other partitions,
-                    // so marking it with the original partition allows it to be deconstructed into
-                    // the original per-partition streams in later steps.
-                    let flight_data = pb::FlightAppMetadata {
-                        partition: partition as u64,
-                        created_timestamp_unix_nanos: now_ns::<u64>(),
-                    };
-                    msg.map(|v| v.with_app_metadata(flight_data.encode_to_vec()))
-                });
+                build_flight_data_stream(arrow_stream, compression, self.max_message_size)?.map(
+                    move |msg| {
+                        // For each FlightData produced by this stream, mark it with the appropriate
+                        // partition. This stream will be merged with several others from other partitions,
+                        // so marking it with the original partition allows it to be deconstructed into
+                        // the original per-partition streams in later steps.
+                        let flight_data = pb::FlightAppMetadata {
+                            partition: partition as u64,
+                            created_timestamp_unix_nanos: now_ns::<u64>(),
+                        };
+                        msg.map(|v| v.with_app_metadata(flight_data.encode_to_vec()))
+                    },
+                );
 
             flight_streams.push(flight_stream);
         }
@@ -363,6 +365,7 @@ fn missing(field: &'static str) -> impl FnOnce() -> Status {
 fn build_flight_data_stream(
     stream: SendableRecordBatchStream,
     compression_type: Option<CompressionType>,
+    max_message_size: Option<usize>,
 ) -> datafusion::common::Result<
     impl Stream<Item = datafusion::common::Result<FlightData, FlightError>>,
     Status,
@@ -383,7 +386,7 @@ fn build_flight_data_stream(
         // Note that we do garbage collection of unused dictionary values above, so we are not sending
         // unused dictionary values over the wire.
         .with_dictionary_handling(DictionaryHandling::Resend)
-        // Set max flight data size to unlimited.
+        // The max flight data size is unlimited unless [Worker::with_max_message_size] says otherwise.
         // This requires servers and clients to also be configured to handle unlimited sizes.
         // Using unlimited sizes avoids splitting RecordBatches into multiple FlightData messages,
         // which could add significant overhead for large RecordBatches.
@@ -391,7 +394,7 @@ fn build_flight_data_stream(
         // which mainly makes sense in a public network scenario where you want to avoid DoS attacks.
         // Since all of our Arrow Flight communication happens within trusted data plane networks,
         // we can safely use unlimited sizes here.
-        .with_max_flight_data_size(usize::MAX)
+        .with_max_flight_data_size(max_message_size.unwrap_or(usize::MAX))
         .build(
             stream
                 // Apply garbage collection of dictionary and view arrays before sending over the network
-- 
2.43.0


From b412323c5dee259aa1d003470ea8b6e1ba3b316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:47 +0000
Subject: [PATCH 39/39] fix: bytes of a message sent while its queue was
 dropped stayed charged to the connection budget

---
 src/protocol/grpc/worker_client.rs | 35 ++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index 01d0cc1..0a6fbea 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -252,7 +252,11 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // memory reservation means releasing the memory from the pool for that specific
                 // message
                 let size = flight_data.encoded_len();
-                let queued_mem = QueuedMemory::grow(&memory_reservation, &mem_available_notify_for_task, size);
+                let queued_mem = Arc::new(QueuedMemory::grow(
+                    &memory_reservation,
+                    &mem_available_notify_for_task,
+                    size,
+                ));
 
                 // Update memory related metrics.
                 msg_count.add(1);
@@ -267,7 +271,12 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // completed early without consuming its probe side), the message is discarded
                 // along with its memory reservation. Don't exit: other partitions multiplexed
                 // over the same gRPC stream still need their data.
-                let _ = o_tx.send(Ok((flight_data, queued_mem)));
+                let _ = o_tx.send(Ok((flight_data, Arc::clone(&queued_mem))));
+                // A queue that is dropped while the message is being sent might not discard it:
+                // nobody else is going to release the memory of that message.
+                if o_tx.is_closed() {
+                    queued_mem.release();
+                }
             }
         }.with_elapsed_compute(elapsed_compute));
 
@@ -290,7 +299,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
             let stream = stream.map_ok(move |(data, queued_mem)| {
                 // The message left the queue: release its memory and wake the demux task in case
                 // it is blocked on the byte budget.
-                drop(queued_mem);
+                queued_mem.release();
                 let _ = &task; // <- keep the task that polls data from the network alive.
                 data
             });
@@ -329,7 +338,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
     }
 }
 
-type WorkerMsg = Result<(FlightData, QueuedMemory), Status>;
+type WorkerMsg = Result<(FlightData, Arc<QueuedMemory>), Status>;
 
 /// Memory accounted for a message sitting in a per-partition queue. It is released as soon as the
 /// message leaves the queue, either because it was consumed, or because it was discarded along
@@ -337,7 +346,7 @@ type WorkerMsg = Result<(FlightData, QueuedMemory), Status>;
 struct QueuedMemory {
     reservation: Arc<MemoryReservation>,
     mem_available_notify: Arc<Notify>,
-    size: usize,
+    size: AtomicUsize,
 }
 
 impl QueuedMemory {
@@ -350,16 +359,24 @@ impl QueuedMemory {
         Self {
             reservation: Arc::clone(reservation),
             mem_available_notify: Arc::clone(mem_available_notify),
-            size,
+            size: AtomicUsize::new(size),
+        }
+    }
+
+    /// Releases the memory and wakes the demux task in case it is blocked on the byte budget.
+    /// Does nothing if it was already released.
+    fn release(&self) {
+        let size = self.size.swap(0, Ordering::SeqCst);
+        if size > 0 {
+            self.reservation.shrink(size);
+            self.mem_available_notify.notify_one();
         }
     }
 }
 
 impl Drop for QueuedMemory {
     fn drop(&mut self) {
-        self.reservation.shrink(self.size);
-        // Wake the demux task in case it is blocked on the byte budget.
-        self.mem_available_notify.notify_one();
+        self.release();
     }
 }
 
-- 
2.43.0

