//! TapExec: a user-defined pass-through node recording every batch that flows through it, by
//! task and partition; and the means to plan hand-made plans with user-placed boundaries.
use datafusion::arrow::array::Array;
use crate::leaf::MonCodec;
use async_trait::async_trait;
use dashmap::DashMap;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::catalog::Session;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{DataFusionError, Result, internal_err};
use datafusion::execution::context::QueryPlanner;
use datafusion::execution::{SendableRecordBatchStream, SessionStateBuilder, TaskContext};
use datafusion::logical_expr::LogicalPlan;
use datafusion::physical_expr::PhysicalExpr;
use datafusion::physical_plan::metrics::{BaselineMetrics, ExecutionPlanMetricsSet, MetricsSet};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
use datafusion_distributed::*;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::StreamExt;
use serde_json::json;
use std::fmt::Formatter;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, LazyLock, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct TapStream {
    pub task: usize,
    pub tasks: usize,
    pub partition: usize,
    pub batches: Vec<RecordBatch>,
    pub ended: bool,
    pub dropped: bool,
    pub errored: bool,
    /// ended by its script before its input
    pub stopped: bool,
}

/// How one partition of a tap is read.
#[derive(Clone, Debug, Default)]
pub struct Pace {
    pub start_us: u64,
    pub per_batch_us: u64,
    /// after so many batches, wait so long
    pub pause: Option<(usize, u64)>,
    pub stop_after: Option<usize>,
    /// instead of reading its next batch, fail
    pub fail_after: Option<usize>,
    /// only after this partition of the same task has ended
    pub after: Option<usize>,
}

#[derive(Default)]
pub struct Tap {
    pub pace: Mutex<std::collections::HashMap<(usize, usize), Pace>>,
    /// bytes that flowed through, and how far the consumer was behind at most
    pub bytes: AtomicI64,
    pub max_lag: AtomicI64,
    pub consumer: Mutex<Option<std::sync::Weak<Tap>>>,
    pub id: u64,
    pub label: String,
    pub streams: Mutex<Vec<TapStream>>,
    pub live: AtomicI64,
    pub beat: Arc<AtomicU64>,
    pub keep: bool,
}

static TAPS: LazyLock<DashMap<u64, Arc<Tap>>> = LazyLock::new(DashMap::new);
static NEXT: AtomicU64 = AtomicU64::new(1);

impl Tap {
    pub fn new(label: &str, beat: &Arc<AtomicU64>, keep: bool) -> TapGuard {
        let id = NEXT.fetch_add(1, Ordering::Relaxed);
        let t = Arc::new(Tap { id, label: label.into(), beat: Arc::clone(beat), keep, ..Default::default() });
        TAPS.insert(id, Arc::clone(&t));
        TapGuard(t)
    }
}
/// Bytes of the values of a batch.
pub fn payload(b: &RecordBatch) -> i64 {
    b.columns()
        .iter()
        .map(|c| match c.as_any().downcast_ref::<datafusion::arrow::array::BinaryArray>() {
            Some(x) => (x.value_offsets()[x.len()] - x.value_offsets()[0]) as i64,
            None => 8 * c.len() as i64,
        })
        .sum()
}
impl Tap {
    fn flowed(&self, b: &RecordBatch) {
        self.bytes.fetch_add(payload(b), Ordering::SeqCst);
        if let Some(c) = self.consumer.lock().unwrap().as_ref().and_then(|w| w.upgrade()) {
            let lag = self.bytes.load(Ordering::SeqCst) - c.bytes.load(Ordering::SeqCst);
            self.max_lag.fetch_max(lag, Ordering::SeqCst);
        }
    }
}
pub struct TapGuard(pub Arc<Tap>);
impl Drop for TapGuard {
    fn drop(&mut self) {
        TAPS.remove(&self.0.id);
    }
}

#[derive(Clone)]
pub struct TapExec {
    pub tap: Arc<Tap>,
    pub input: Arc<dyn ExecutionPlan>,
    /// rewriting codecs and handlers may leave a mark here
    pub mark: String,
    props: Arc<PlanProperties>,
    metrics: ExecutionPlanMetricsSet,
}
impl std::fmt::Debug for TapExec {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "TapExec({})", self.tap.label)
    }
}
impl TapExec {
    pub fn new(tap: &Arc<Tap>, input: Arc<dyn ExecutionPlan>) -> Arc<dyn ExecutionPlan> {
        Self::marked(tap, input, "")
    }
    pub fn marked(tap: &Arc<Tap>, input: Arc<dyn ExecutionPlan>, mark: &str) -> Arc<dyn ExecutionPlan> {
        let props = Arc::clone(input.properties());
        Arc::new(TapExec { tap: Arc::clone(tap), input, mark: mark.into(), props, metrics: ExecutionPlanMetricsSet::new() })
    }
}
impl DisplayAs for TapExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "TapExec: {} {}", self.tap.label, self.mark)
    }
}

struct TapLive(Arc<Tap>, usize);
impl Drop for TapLive {
    fn drop(&mut self) {
        self.0.live.fetch_sub(1, Ordering::SeqCst);
        self.0.beat.fetch_add(1, Ordering::Relaxed);
        if let Some(s) = self.0.streams.lock().unwrap().get_mut(self.1) {
            s.dropped = true;
        }
    }
}

impl ExecutionPlan for TapExec {
    fn name(&self) -> &str {
        "TapExec"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        &self.props
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![&self.input]
    }
    fn maintains_input_order(&self) -> Vec<bool> {
        vec![true]
    }
    fn benefits_from_input_partitioning(&self) -> Vec<bool> {
        vec![false]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(self: Arc<Self>, mut c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(TapExec::marked(&self.tap, c.remove(0), &self.mark))
    }
    fn execute(&self, partition: usize, context: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let d = DistributedTaskContext::from_ctx(&context);
        let tap = Arc::clone(&self.tap);
        let s = self.input.execute(partition, context)?;
        let i = {
            let mut v = tap.streams.lock().unwrap();
            v.push(TapStream { task: d.task_index, tasks: d.task_count, partition, batches: vec![], ended: false, dropped: false, errored: false, stopped: false });
            v.len() - 1
        };
        tap.live.fetch_add(1, Ordering::SeqCst);
        let live = TapLive(Arc::clone(&tap), i);
        let bm = BaselineMetrics::new(&self.metrics, partition);
        let pace = tap.pace.lock().unwrap().get(&(d.task_index, partition)).cloned();
        let task = d.task_index;
        let st = futures::stream::unfold((s, live, 0usize), move |(mut s, live, nth)| {
            let tap = Arc::clone(&tap);
            let bm = bm.clone();
            let pace = pace.clone();
            async move {
                if let Some(p) = &pace {
                    if nth == 0 {
                        while let Some(a) = p.after {
                            if tap.streams.lock().unwrap().iter().any(|x| x.task == task && x.partition == a && x.ended) {
                                break;
                            }
                            tokio::time::sleep(Duration::from_micros(500)).await;
                        }
                    }
                    if p.stop_after == Some(nth) {
                        tap.streams.lock().unwrap()[i].stopped = true;
                        drop(s);
                        return None;
                    }
                    let mut us = p.per_batch_us + if nth == 0 { p.start_us } else { 0 };
                    if let Some((at, x)) = p.pause
                        && at == nth
                    {
                        us += x;
                    }
                    if us > 0 {
                        tokio::time::sleep(Duration::from_micros(us)).await;
                    }
                }
                let n = match &pace {
                    Some(p) if p.fail_after.is_some_and(|f| nth >= f) => Some(Err(DataFusionError::Execution(format!("injected by {}", tap.label)))),
                    _ => s.next().await,
                };
                tap.beat.fetch_add(1, Ordering::Relaxed);
                if let Some(Ok(b)) = &n {
                    tap.flowed(b);
                }
                let nth = nth + 1;
                let mut v = tap.streams.lock().unwrap();
                let r = &mut v[i];
                match n {
                    None => {
                        r.ended = true;
                        None
                    }
                    Some(Ok(b)) => {
                        bm.record_output(b.num_rows());
                        if tap.keep {
                            r.batches.push(b.clone());
                        }
                        drop(v);
                        Some((Ok(b), (s, live, nth)))
                    }
                    Some(Err(e)) => {
                        r.errored = true;
                        drop(v);
                        Some((Err(e), (s, live, nth)))
                    }
                }
            }
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(self.schema(), st)))
    }
    fn metrics(&self) -> Option<MetricsSet> {
        Some(self.metrics.clone_inner())
    }
}

/// A second user codec next to [MonCodec], for taps only.
#[derive(Debug)]
pub struct TapCodec;
impl PhysicalExtensionCodec for TapCodec {
    fn try_decode(&self, buf: &[u8], inputs: &[Arc<dyn ExecutionPlan>], _ctx: &TaskContext, _c: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> {
        let v: serde_json::Value = serde_json::from_slice(buf).map_err(|e| DataFusionError::External(Box::new(e)))?;
        let Some(id) = v["tap"].as_u64() else {
            return internal_err!("not a TapExec");
        };
        let Some(t) = TAPS.get(&id).map(|t| Arc::clone(&t)) else {
            return internal_err!("tap {id} gone");
        };
        let [input] = inputs else {
            return internal_err!("TapExec with {} inputs", inputs.len());
        };
        Ok(TapExec::marked(&t, Arc::clone(input), v["mark"].as_str().unwrap_or("?")))
    }
    fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, _c: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        let Some(e) = node.downcast_ref::<TapExec>() else {
            return internal_err!("TapCodec: unsupported node {}", node.name());
        };
        buf.extend_from_slice(json!({"tap": e.tap.id, "mark": e.mark}).to_string().as_bytes());
        Ok(())
    }
}

/// Query planner answering every query with one given plan.
#[derive(Debug)]
pub struct FixedPlanner(pub Arc<dyn ExecutionPlan>);
#[async_trait]
impl QueryPlanner for FixedPlanner {
    async fn create_physical_plan(&self, _: &LogicalPlan, _: &dyn Session) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::clone(&self.0))
    }
}

/// Session building step that makes `plan` the physical plan seen by the distributed planner.
pub fn with_fixed_plan(b: SessionStateBuilder, plan: Arc<dyn ExecutionPlan>) -> SessionStateBuilder {
    // The distributed planner wraps whatever planner was there; it is installed again around this one.
    b.with_query_planner(Arc::new(FixedPlanner(plan))).with_distributed_planner()
}
#[allow(dead_code)]
fn _c(_: MonCodec) {}
