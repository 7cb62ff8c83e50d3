//! Monitored leaf operator and table. Data lives in a process-wide registry (workers run in
//! process), the plan node carries only an id and chunk assignments, so it survives the codec.
use async_trait::async_trait;
use dashmap::DashMap;
use datafusion::arrow::datatypes::SchemaRef;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::catalog::{Session, TableProvider};
use datafusion::common::stats::Precision;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{DataFusionError, Result, Statistics, internal_err};
use datafusion::datasource::TableType;
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::logical_expr::Expr;
use datafusion::physical_expr::expressions::Column;
use datafusion::physical_expr::{EquivalenceProperties, LexOrdering, Partitioning, PhysicalExpr, PhysicalSortExpr};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::metrics::{BaselineMetrics, ExecutionPlanMetricsSet, MetricsSet};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
use datafusion_distributed::*;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::StreamExt;
use serde_json::json;
use std::fmt::Formatter;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, LazyLock, Mutex};
use std::time::Duration;

#[derive(Clone)]
pub enum FaultKind {
    Error(Arc<dyn Fn() -> DataFusionError + Send + Sync>),
    ErrorOnExecute(Arc<dyn Fn() -> DataFusionError + Send + Sync>),
    Panic,
    SleepMs(u64),
    /// never produce anything more (until dropped)
    Block,
    /// repeat the chunk's batches for ever
    Endless,
    /// run this observer with the task context
    Hook(Arc<dyn Fn(&Arc<TaskContext>, usize) + Send + Sync>),
}
#[derive(Clone)]
pub struct Fault {
    pub chunk: usize,
    pub batch: usize,
    pub kind: FaultKind,
}

#[derive(Clone, Debug)]
pub struct StreamRec {
    pub task: usize,
    pub tasks: usize,
    pub partition: usize,
    pub chunks: Vec<usize>,
    pub rows: usize,
    pub batches: usize,
    pub ended: bool,
    pub dropped: bool,
    /// the runtime it was opened in
    pub rt: String,
}

#[derive(Default)]
pub struct Probe {
    pub live: AtomicI64,
    pub polls: AtomicU64,
    pub rows: AtomicU64,
    pub fired: AtomicUsize,
    pub recs: Mutex<Vec<StreamRec>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    None,
    Desired(usize),
    Maximum(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum StatMode {
    Exact,
    Inexact,
    Absent,
    /// inexact and absurdly wrong: this many rows whatever the data
    Wild(usize),
}

pub struct TableData {
    pub id: u64,
    pub name: String,
    pub schema: SchemaRef,
    pub chunks: Vec<Vec<RecordBatch>>,
    pub n_parts: usize,
    pub hint: Hint,
    pub stats: StatMode,
    pub order_by: Option<(String, bool, bool)>,
    /// how partitions per task are chosen when scaling: true = keep n_parts per task
    pub keep_parts: bool,
    pub faults: Mutex<Vec<Fault>>,
    pub probe: Probe,
    pub beat: Arc<AtomicU64>,
    /// extra metrics to register at execute (C24)
    pub metrics_hook: Mutex<Option<Arc<dyn Fn(&ExecutionPlanMetricsSet, usize, usize) + Send + Sync>>>,
    /// yield to the scheduler between batches
    pub yields: bool,
}

static REG: LazyLock<DashMap<u64, Arc<TableData>>> = LazyLock::new(DashMap::new);
static NEXT: AtomicU64 = AtomicU64::new(1);

impl TableData {
    pub fn new(name: &str, schema: SchemaRef, chunks: Vec<Vec<RecordBatch>>, beat: Arc<AtomicU64>) -> Self {
        TableData {
            id: NEXT.fetch_add(1, Ordering::Relaxed),
            name: name.into(),
            schema,
            n_parts: 1,
            chunks,
            hint: Hint::None,
            stats: StatMode::Exact,
            order_by: None,
            keep_parts: true,
            faults: Mutex::new(vec![]),
            probe: Probe::default(),
            beat,
            metrics_hook: Mutex::new(None),
            yields: false,
        }
    }
    pub fn register(self) -> Arc<TableData> {
        let a = Arc::new(self);
        REG.insert(a.id, Arc::clone(&a));
        a
    }
    pub fn total_rows(&self) -> usize {
        self.chunks.iter().flatten().map(|b| b.num_rows()).sum()
    }
    pub fn reset_probe(&self) {
        self.probe.recs.lock().unwrap().clear();
        self.probe.rows.store(0, Ordering::SeqCst);
        self.probe.polls.store(0, Ordering::SeqCst);
    }
}
pub fn unregister(id: u64) {
    REG.remove(&id);
}

#[derive(Clone)]
pub struct MonExec {
    pub table: Arc<TableData>,
    pub parts: Vec<Vec<usize>>,
    pub projection: Option<Vec<usize>>,
    pub limit: Option<usize>,
    props: Arc<PlanProperties>,
    metrics: ExecutionPlanMetricsSet,
}
impl std::fmt::Debug for MonExec {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "MonExec({})", self.table.name)
    }
}

pub fn assign(chunks: &[usize], slots: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]; slots.max(1)];
    for (i, c) in chunks.iter().enumerate() {
        let k = i % v.len();
        v[k].push(*c);
    }
    v
}

impl MonExec {
    pub fn new(table: Arc<TableData>, parts: Vec<Vec<usize>>, projection: Option<Vec<usize>>, limit: Option<usize>) -> Self {
        let schema = match &projection {
            Some(p) => Arc::new(table.schema.project(p).unwrap()),
            None => Arc::clone(&table.schema),
        };
        let mut eq = EquivalenceProperties::new(Arc::clone(&schema));
        if let Some((c, desc, nf)) = &table.order_by {
            if let Ok(i) = schema.index_of(c) {
                let e = PhysicalSortExpr {
                    expr: Arc::new(Column::new(c, i)),
                    options: datafusion::arrow::compute::SortOptions { descending: *desc, nulls_first: *nf },
                };
                if let Some(o) = LexOrdering::new(vec![e]) {
                    eq = EquivalenceProperties::new_with_orderings(Arc::clone(&schema), vec![o]);
                }
            }
        }
        let endless = table.faults.lock().unwrap().iter().any(|f| matches!(f.kind, FaultKind::Endless));
        let _ = endless;
        let props = Arc::new(PlanProperties::new(
            eq,
            Partitioning::UnknownPartitioning(parts.len()),
            EmissionType::Incremental,
            Boundedness::Bounded,
        ));
        MonExec { table, parts, projection, limit, props, metrics: ExecutionPlanMetricsSet::new() }
    }
    pub fn whole(table: Arc<TableData>, projection: Option<Vec<usize>>, limit: Option<usize>) -> Self {
        let all: Vec<usize> = (0..table.chunks.len()).collect();
        let n = if table.order_by.is_some() { table.chunks.len().max(1) } else { table.n_parts };
        Self::new(Arc::clone(&table), assign(&all, n), projection, limit)
    }
}

impl DisplayAs for MonExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "MonExec: table={}, parts={:?}, projection={:?}, limit={:?}", self.table.name, self.parts, self.projection, self.limit)
    }
}

struct Live {
    t: Arc<TableData>,
    i: usize,
}
impl Drop for Live {
    fn drop(&mut self) {
        self.t.probe.live.fetch_sub(1, Ordering::SeqCst);
        self.t.beat.fetch_add(1, Ordering::Relaxed);
        if let Some(r) = self.t.probe.recs.lock().unwrap().get_mut(self.i) {
            r.dropped = true;
        }
    }
}

impl ExecutionPlan for MonExec {
    fn name(&self) -> &str {
        "MonExec"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        &self.props
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(self)
    }
    fn execute(&self, partition: usize, context: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let Some(chunks) = self.parts.get(partition).cloned() else {
            return internal_err!("MonExec partition {partition} out of range");
        };
        let t = Arc::clone(&self.table);
        let d = DistributedTaskContext::from_ctx(&context);
        let faults: Vec<Fault> = t.faults.lock().unwrap().iter().filter(|f| chunks.contains(&f.chunk)).cloned().collect();
        for f in &faults {
            match &f.kind {
                FaultKind::ErrorOnExecute(e) => {
                    t.probe.fired.fetch_add(1, Ordering::SeqCst);
                    t.beat.fetch_add(1, Ordering::Relaxed);
                    return Err(e());
                }
                _ => {}
            }
        }
        if let Some(h) = t.metrics_hook.lock().unwrap().clone() {
            h(&self.metrics, partition, d.task_index)
        }
        let live = {
            let mut r = t.probe.recs.lock().unwrap();
            r.push(StreamRec {
                task: d.task_index,
                tasks: d.task_count,
                partition,
                chunks: chunks.clone(),
                rows: 0,
                batches: 0,
                ended: false,
                dropped: false,
                rt: tokio::runtime::Handle::try_current().map(|h| h.id().to_string()).unwrap_or_default(),
            });
            t.probe.live.fetch_add(1, Ordering::SeqCst);
            t.beat.fetch_add(1, Ordering::Relaxed);
            Live { t: Arc::clone(&t), i: r.len() - 1 }
        };
        let bm = BaselineMetrics::new(&self.metrics, partition);
        struct St {
            ci: usize,
            bi: usize,
            left: Option<usize>,
            done: bool,
            live: Live,
            rounds: u64,
        }
        let st = St { ci: 0, bi: 0, left: self.limit, done: false, live, rounds: 0 };
        let proj = self.projection.clone();
        let ctx2 = context;
        let stream = futures::stream::unfold(st, move |mut st| {
            let t = Arc::clone(&t);
            let chunks = chunks.clone();
            let faults = faults.clone();
            let proj = proj.clone();
            let bm = bm.clone();
            let ctx2 = Arc::clone(&ctx2);
            async move {
                if st.done {
                    return None;
                }
                t.probe.polls.fetch_add(1, Ordering::Relaxed);
                t.beat.fetch_add(1, Ordering::Relaxed);
                loop {
                    if st.left == Some(0) || st.ci >= chunks.len() {
                        if let Some(r) = t.probe.recs.lock().unwrap().get_mut(st.live.i) {
                            r.ended = true;
                        }
                        return None;
                    }
                    let c = chunks[st.ci];
                    for f in faults.iter().filter(|f| f.chunk == c && f.batch == st.bi) {
                        match &f.kind {
                            FaultKind::Error(e) => {
                                t.probe.fired.fetch_add(1, Ordering::SeqCst);
                                st.done = true;
                                return Some((Err(e()), st));
                            }
                            FaultKind::Panic => {
                                t.probe.fired.fetch_add(1, Ordering::SeqCst);
                                panic!("injected leaf panic");
                            }
                            FaultKind::SleepMs(ms) => tokio::time::sleep(Duration::from_millis(*ms)).await,
                            FaultKind::Block => {
                                t.probe.fired.fetch_add(1, Ordering::SeqCst);
                                std::future::pending::<()>().await
                            }
                            FaultKind::Endless => {
                                if st.bi > 0 || st.rounds == 0 {
                                    st.rounds += 1;
                                }
                                tokio::time::sleep(Duration::from_micros(300)).await;
                            }
                            FaultKind::Hook(h) => {
                                t.probe.fired.fetch_add(1, Ordering::SeqCst);
                                h(&ctx2, DistributedTaskContext::from_ctx(&ctx2).task_index)
                            }
                            FaultKind::ErrorOnExecute(_) => {}
                        }
                    }
                    if t.yields {
                        tokio::task::yield_now().await;
                    }
                    let bs = &t.chunks[c];
                    if st.bi >= bs.len() {
                        st.ci += 1;
                        st.bi = 0;
                        continue;
                    }
                    let mut b = bs[st.bi].clone();
                    let endless = faults.iter().any(|f| f.chunk == c && matches!(f.kind, FaultKind::Endless));
                    if !(endless && st.bi + 1 == bs.len()) {
                        st.bi += 1;
                    } else {
                        // operators that gather full batches (FilterExec with a fetch) must not need seconds to fill one
                        if (1..1024).contains(&b.num_rows()) {
                            let n = 1024usize.div_ceil(b.num_rows());
                            b = datafusion::arrow::compute::concat_batches(&b.schema(), std::iter::repeat_n(&b, n)).expect("same schema");
                        }
                        tokio::time::sleep(Duration::from_micros(300)).await;
                    }
                    if let Some(p) = &proj {
                        b = match b.project(p) {
                            Ok(b) => b,
                            Err(e) => return Some((Err(e.into()), st)),
                        };
                    }
                    if let Some(l) = st.left {
                        let k = l.min(b.num_rows());
                        b = b.slice(0, k);
                        st.left = Some(l - k);
                    }
                    t.probe.rows.fetch_add(b.num_rows() as u64, Ordering::Relaxed);
                    if let Some(r) = t.probe.recs.lock().unwrap().get_mut(st.live.i) {
                        r.rows += b.num_rows();
                        r.batches += 1;
                    }
                    bm.record_output(b.num_rows());
                    return Some((Ok(b), st));
                }
            }
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(self.schema(), stream.fuse())))
    }
    fn metrics(&self) -> Option<MetricsSet> {
        Some(self.metrics.clone_inner())
    }
    fn partition_statistics(&self, partition: Option<usize>) -> Result<Arc<Statistics>> {
        let rows: usize = match partition {
            None => self.parts.iter().flatten().flat_map(|c| self.table.chunks[*c].iter()).map(|b| b.num_rows()).sum(),
            Some(p) => self.parts.get(p).into_iter().flatten().flat_map(|c| self.table.chunks[*c].iter()).map(|b| b.num_rows()).sum(),
        };
        let rows = if partition.is_none() { self.limit.map(|l| rows.min(l * self.parts.len())).unwrap_or(rows) } else { rows };
        let schema = self.schema();
        let mut s = Statistics::new_unknown(&schema);
        match self.table.stats {
            // A limit makes exact counts subtle; report them as inexact then.
            StatMode::Exact if self.limit.is_none() => {
                s.num_rows = Precision::Exact(rows);
                s.total_byte_size = Precision::Exact(rows * 16 * schema.fields().len().max(1));
            }
            StatMode::Exact | StatMode::Inexact => {
                s.num_rows = Precision::Inexact(rows);
                s.total_byte_size = Precision::Inexact(rows * 16 * schema.fields().len().max(1));
            }
            StatMode::Absent => {}
            StatMode::Wild(n) => {
                s.num_rows = Precision::Inexact(n);
                s.total_byte_size = Precision::Inexact(n.saturating_mul(16));
            }
        }
        Ok(Arc::new(s))
    }
}

pub fn mon_desired(ev: DesiredTaskCountEvent) -> Option<Result<DesiredTaskCountEventResponse>> {
    let e = ev.plan.downcast_ref::<MonExec>()?;
    match e.table.hint {
        Hint::None => None,
        Hint::Desired(n) => Some(Ok(DesiredTaskCountEventResponse::desired(n))),
        Hint::Maximum(n) => Some(Ok(DesiredTaskCountEventResponse::maximum(n))),
    }
}

pub fn mon_variants(e: &MonExec, tasks: usize) -> Vec<Arc<dyn ExecutionPlan>> {
    let t = &e.table;
    // interleave partitions so that the union over all (task, partition) is the original set
    let all: Vec<usize> = e.parts.iter().flatten().copied().collect();
    let per_task = if t.order_by.is_some() {
        all.len().div_ceil(tasks).max(1)
    } else if t.keep_parts {
        e.parts.len().max(1)
    } else {
        all.len().div_ceil(tasks).clamp(1, e.parts.len().max(1))
    };
    let slots = assign(&all, tasks * per_task);
    (0..tasks)
        .map(|k| {
            // slot s goes to task s % tasks
            let parts: Vec<Vec<usize>> = (0..per_task).map(|p| slots[p * tasks + k].clone()).collect();
            Arc::new(MonExec::new(Arc::clone(t), parts, e.projection.clone(), e.limit)) as Arc<dyn ExecutionPlan>
        })
        .collect()
}

pub fn mon_scale_up(ev: ScaleUpLeafNodeEvent) -> Option<Result<ScaleUpLeafNodeEventResponse>> {
    let e = ev.plan.downcast_ref::<MonExec>()?;
    Some(
        DistributedLeafExec::try_new(Arc::clone(ev.plan), mon_variants(e, ev.task_count))
            .map(|l| ScaleUpLeafNodeEventResponse::new(Arc::new(l))),
    )
}

#[derive(Debug)]
pub struct MonCodec;
impl PhysicalExtensionCodec for MonCodec {
    fn try_decode(
        &self,
        buf: &[u8],
        _inputs: &[Arc<dyn ExecutionPlan>],
        _ctx: &TaskContext,
        _c: &dyn PhysicalProtoConverterExtension,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        let v: serde_json::Value = serde_json::from_slice(buf).map_err(|e| DataFusionError::External(Box::new(e)))?;
        let Some(id) = v["mon"].as_u64() else {
            return internal_err!("not a MonExec");
        };
        let Some(t) = REG.get(&id).map(|t| Arc::clone(&t)) else {
            return internal_err!("MonExec table {id} gone");
        };
        let us = |v: &serde_json::Value| -> Vec<usize> { v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default() };
        let parts = v["parts"].as_array().unwrap().iter().map(us).collect();
        let proj = v["proj"].is_array().then(|| us(&v["proj"]));
        Ok(Arc::new(MonExec::new(t, parts, proj, v["limit"].as_u64().map(|x| x as usize))))
    }
    fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, _c: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        let Some(e) = node.downcast_ref::<MonExec>() else {
            return internal_err!("MonCodec: unsupported node {}", node.name());
        };
        let v = json!({"mon": e.table.id, "parts": e.parts, "proj": e.projection, "limit": e.limit});
        buf.extend_from_slice(v.to_string().as_bytes());
        Ok(())
    }
}

pub struct MonTable(pub Arc<TableData>);
impl std::fmt::Debug for MonTable {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "MonTable({})", self.0.name)
    }
}
#[async_trait]
impl TableProvider for MonTable {
    fn schema(&self) -> SchemaRef {
        Arc::clone(&self.0.schema)
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(&self, _s: &dyn Session, projection: Option<&Vec<usize>>, _f: &[Expr], limit: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(MonExec::whole(Arc::clone(&self.0), projection.cloned(), limit)))
    }
}
