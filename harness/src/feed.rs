//! A leaf driven by work unit feeds: every unit names a chunk of the table (or nothing), and both
//! what the providers emit and what the leaves receive is recorded.
use crate::leaf::*;
use async_trait::async_trait;
use dashmap::DashMap;
use datafusion::arrow::datatypes::SchemaRef;
use datafusion::catalog::{Session, TableProvider};
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{DataFusionError, Result, Statistics, exec_datafusion_err, exec_err, internal_err};
use datafusion::datasource::TableType;
use datafusion::execution::{SendableRecordBatchStream, SessionStateBuilder, TaskContext};
use datafusion::logical_expr::Expr;
use datafusion::physical_expr::{EquivalenceProperties, Partitioning, PhysicalExpr};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::metrics::{BaselineMetrics, ExecutionPlanMetricsSet, MetricsSet};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
use datafusion_distributed::*;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::StreamExt;
use futures::stream::BoxStream;
use prost::Message;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use std::collections::HashMap;
use std::fmt::{Debug, Formatter};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, LazyLock, Mutex};
use std::time::Duration;

#[derive(Clone, PartialEq, ::prost::Message)]
pub struct UnitA {
    #[prost(uint64, tag = "1")]
    pub call: u64,
    #[prost(uint64, tag = "2")]
    pub fpart: u64,
    #[prost(uint64, tag = "3")]
    pub seq: u64,
    #[prost(int64, tag = "4")]
    pub chunk: i64,
    #[prost(bytes = "vec", tag = "5")]
    pub payload: Vec<u8>,
}
/// Another type of unit, with optional, repeated, map and nested fields.
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct UnitB {
    #[prost(message, optional, tag = "1")]
    pub head: Option<UnitA>,
    #[prost(string, tag = "2")]
    pub url: String,
    #[prost(sint64, repeated, tag = "3")]
    pub ranges: Vec<i64>,
    #[prost(map = "string, double", tag = "4")]
    pub attrs: HashMap<String, f64>,
    #[prost(string, optional, tag = "5")]
    pub maybe: Option<String>,
}

pub trait AsUnit: WorkUnit + Default + Clone + PartialEq + 'static {
    fn build(call: u64, fpart: u64, seq: u64, chunk: i64, payload: Vec<u8>) -> Self;
    fn head(&self) -> UnitA;
    fn bytes(&self) -> Vec<u8>;
}
impl AsUnit for UnitA {
    fn build(call: u64, fpart: u64, seq: u64, chunk: i64, payload: Vec<u8>) -> Self {
        UnitA { call, fpart, seq, chunk, payload }
    }
    fn head(&self) -> UnitA {
        self.clone()
    }
    fn bytes(&self) -> Vec<u8> {
        self.encode_to_vec()
    }
}
impl AsUnit for UnitB {
    fn build(call: u64, fpart: u64, seq: u64, chunk: i64, payload: Vec<u8>) -> Self {
        let n = payload.len();
        let mut attrs = HashMap::new();
        if n % 3 == 1 {
            attrs.insert(format!("é{n}"), if n % 2 == 0 { -0.0 } else { 1.5e300 });
        }
        UnitB {
            url: format!("s3://bucket/{fpart}/{}", "p".repeat(n % 50)),
            ranges: payload.iter().take(20).map(|b| *b as i64 - 128).collect(),
            attrs,
            maybe: (n % 2 == 0).then(String::new),
            head: Some(UnitA { call, fpart, seq, chunk, payload }),
        }
    }
    fn head(&self) -> UnitA {
        self.head.clone().unwrap_or_default()
    }
    fn bytes(&self) -> Vec<u8> {
        self.encode_to_vec()
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Unit { chunk: i64, payload: usize },
    WaitUs(u64),
    Yield,
    Err,
    Panic,
    /// units without rows for ever, a moment apart
    Endless,
    /// nothing more, but no end either
    Block,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SrcEnd {
    Open,
    Ended,
    Errored,
    Dropped,
}
#[derive(Clone, Debug)]
pub struct CallRec {
    pub fpart: usize,
    pub fan_out: usize,
    pub units: Vec<u64>,
    pub end: SrcEnd,
    pub end_at: u64,
}
#[derive(Clone, Debug)]
pub struct RecvRec {
    pub remote: bool,
    pub task: usize,
    pub tasks: usize,
    pub partition: usize,
    pub nparts: usize,
    /// (call, feed partition, sequence number, hash)
    pub units: Vec<(u64, usize, u64, u64)>,
    pub ended: bool,
    pub end_at: u64,
    pub error: Option<String>,
    pub second: Option<bool>,
}

/// One table of feeds within a case.
pub struct FeedShared {
    pub table: Arc<TableData>,
    pub scripts: Mutex<Vec<Vec<Op>>>,
    pub second_type: bool,
    /// consume every partition twice
    pub twice: bool,
    /// fail in feed() itself for this partition
    pub fail_call: Mutex<Option<usize>>,
    pub clock: AtomicU64,
    pub scans: Mutex<Vec<Arc<Scan>>>,
    pub failed_calls: AtomicU64,
}
pub struct Scan {
    pub id: u64,
    pub shared: Arc<FeedShared>,
    pub calls: Mutex<Vec<CallRec>>,
    pub recvs: Mutex<Vec<RecvRec>>,
    pub open: AtomicI64,
}
static SCANS: LazyLock<DashMap<u64, Arc<Scan>>> = LazyLock::new(DashMap::new);
static NEXT: AtomicU64 = AtomicU64::new(1);

pub fn hash_bytes(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

impl FeedShared {
    pub fn random(r: &mut StdRng, table: Arc<TableData>) -> Arc<FeedShared> {
        let total = *[1usize, 2, 3, 4, 6, 9].get(r.random_range(0..6)).unwrap();
        let mut scripts: Vec<Vec<Op>> = vec![vec![]; total];
        let style = r.random_range(0..4);
        let noise = |r: &mut StdRng, s: &mut Vec<Op>| {
            for _ in 0..r.random_range(0..4) {
                s.push(match r.random_range(0..6) {
                    0 => Op::WaitUs(if style == 1 { r.random_range(0..3000) } else { 50 }),
                    1 | 2 => Op::Yield,
                    _ => Op::Unit {
                        chunk: -1,
                        payload: match r.random_range(0..20) {
                            0 => r.random_range(60_000..200_000),
                            1..4 => 0,
                            _ => r.random_range(0..300),
                        },
                    },
                });
            }
            if style == 3 && r.random_bool(0.1) {
                for _ in 0..r.random_range(200..700) {
                    s.push(Op::Unit { chunk: -1, payload: r.random_range(0..4) });
                }
            }
        };
        for c in 0..table.chunks.len() {
            let s = &mut scripts[if style == 2 { 0 } else { r.random_range(0..total) }];
            noise(r, s);
            s.push(Op::Unit { chunk: c as i64, payload: r.random_range(0..50) });
        }
        for s in scripts.iter_mut() {
            if r.random_bool(0.5) {
                noise(r, s);
            }
        }
        Arc::new(FeedShared {
            table,
            scripts: Mutex::new(scripts),
            second_type: r.random_bool(0.5),
            twice: r.random_bool(0.15),
            fail_call: Mutex::new(None),
            clock: AtomicU64::new(1),
            scans: Default::default(),
            failed_calls: Default::default(),
        })
    }
    fn now(&self) -> u64 {
        self.table.beat.fetch_add(1, Ordering::Relaxed);
        self.clock.fetch_add(1, Ordering::SeqCst)
    }
    pub fn total(&self) -> usize {
        self.scripts.lock().unwrap().len()
    }
    pub fn forget(&self) {
        for s in self.scans.lock().unwrap().drain(..) {
            SCANS.remove(&s.id);
        }
    }
    pub fn open_sources(&self) -> i64 {
        self.scans.lock().unwrap().iter().map(|s| s.open.load(Ordering::SeqCst)).sum()
    }
}

pub struct UnitFeed<U> {
    scan: Arc<Scan>,
    metrics: ExecutionPlanMetricsSet,
    _u: std::marker::PhantomData<fn() -> U>,
}
impl<U> Clone for UnitFeed<U> {
    fn clone(&self) -> Self {
        UnitFeed { scan: Arc::clone(&self.scan), metrics: self.metrics.clone(), _u: Default::default() }
    }
}
impl<U> Debug for UnitFeed<U> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "UnitFeed({})", self.scan.id)
    }
}

struct SrcGuard {
    scan: Arc<Scan>,
    call: usize,
}
impl SrcGuard {
    fn end(&self, e: SrcEnd) {
        let at = self.scan.shared.now();
        let mut c = self.scan.calls.lock().unwrap();
        if c[self.call].end == SrcEnd::Open {
            c[self.call].end = e;
            c[self.call].end_at = at;
        }
    }
}
impl Drop for SrcGuard {
    fn drop(&mut self) {
        self.end(SrcEnd::Dropped);
        self.scan.open.fetch_sub(1, Ordering::SeqCst);
    }
}

impl<U: AsUnit> WorkUnitFeedProvider for UnitFeed<U> {
    type WorkUnit = U;
    fn feed(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<BoxStream<'static, Result<U>>> {
        let scan = Arc::clone(&self.scan);
        let fan_out = DistributedWorkUnitFeedContext::from_ctx(&ctx).fan_out_tasks;
        if *scan.shared.fail_call.lock().unwrap() == Some(partition) {
            scan.shared.failed_calls.fetch_add(1, Ordering::SeqCst);
            return exec_err!("injected feed failure");
        }
        let ops = scan.shared.scripts.lock().unwrap().get(partition).cloned().unwrap_or_default();
        let call = {
            let mut c = scan.calls.lock().unwrap();
            c.push(CallRec { fpart: partition, fan_out, units: vec![], end: SrcEnd::Open, end_at: 0 });
            c.len() - 1
        };
        scan.open.fetch_add(1, Ordering::SeqCst);
        let g = SrcGuard { scan, call };
        struct St {
            g: SrcGuard,
            ops: std::vec::IntoIter<Op>,
            seq: u64,
            done: bool,
            endless: bool,
        }
        let emit = move |st: &mut St, chunk: i64, payload: usize| {
            let p: Vec<u8> = (0..payload).map(|i| (i as u64).wrapping_mul(st.seq + 7) as u8).collect();
            let u = U::build(call as u64, partition as u64, st.seq, chunk, p);
            st.g.scan.calls.lock().unwrap()[call].units.push(hash_bytes(&u.bytes()));
            st.g.scan.shared.now();
            st.seq += 1;
            u
        };
        let st = St { g, ops: ops.into_iter(), seq: 0, done: false, endless: false };
        Ok(futures::stream::unfold(st, move |mut st| async move {
            if st.done {
                return None;
            }
            if st.endless {
                tokio::time::sleep(Duration::from_micros(200)).await;
                let u = emit(&mut st, -1, 10);
                return Some((Ok(u), st));
            }
            loop {
                let Some(op) = st.ops.next() else {
                    st.g.end(SrcEnd::Ended);
                    return None;
                };
                match op {
                    Op::Unit { chunk, payload } => {
                        let u = emit(&mut st, chunk, payload);
                        return Some((Ok(u), st));
                    }
                    Op::WaitUs(us) => tokio::time::sleep(Duration::from_micros(us)).await,
                    Op::Yield => tokio::task::yield_now().await,
                    Op::Err => {
                        st.done = true;
                        st.g.end(SrcEnd::Errored);
                        return Some((Err(exec_datafusion_err!("injected feed failure")), st));
                    }
                    Op::Panic => {
                        st.g.end(SrcEnd::Errored);
                        panic!("injected feed failure");
                    }
                    Op::Endless => {
                        st.endless = true;
                        let u = emit(&mut st, -1, 10);
                        return Some((Ok(u), st));
                    }
                    Op::Block => std::future::pending::<()>().await,
                }
            }
        })
        .boxed())
    }
    fn metrics(&self) -> ExecutionPlanMetricsSet {
        self.metrics.clone()
    }
}

#[derive(Clone, Debug)]
pub enum AnyFeed {
    A(WorkUnitFeed<UnitFeed<UnitA>>),
    B(WorkUnitFeed<UnitFeed<UnitB>>),
}

#[derive(Clone)]
pub struct FeedExec {
    pub feed: AnyFeed,
    pub scan: Arc<Scan>,
    pub parts: usize,
    pub projection: Option<Vec<usize>>,
    props: Arc<PlanProperties>,
    metrics: ExecutionPlanMetricsSet,
}
impl Debug for FeedExec {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "FeedExec({})", self.scan.id)
    }
}
impl FeedExec {
    fn new(feed: AnyFeed, scan: Arc<Scan>, parts: usize, projection: Option<Vec<usize>>) -> Self {
        let t = &scan.shared.table;
        let schema = match &projection {
            Some(p) => Arc::new(t.schema.project(p).unwrap()),
            None => Arc::clone(&t.schema),
        };
        let props = Arc::new(PlanProperties::new(EquivalenceProperties::new(schema), Partitioning::UnknownPartitioning(parts), EmissionType::Incremental, Boundedness::Bounded));
        FeedExec { feed, scan, parts, projection, props, metrics: ExecutionPlanMetricsSet::new() }
    }
}
impl DisplayAs for FeedExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "FeedExec: table={}, parts={}", self.scan.shared.table.name, self.parts)
    }
}

struct RecvGuard {
    scan: Arc<Scan>,
    i: usize,
}
impl RecvGuard {
    fn with(&self, f: impl FnOnce(&mut RecvRec)) {
        f(&mut self.scan.recvs.lock().unwrap()[self.i])
    }
}

impl ExecutionPlan for FeedExec {
    fn name(&self) -> &str {
        "FeedExec"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        &self.props
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(self)
    }
    fn metrics(&self) -> Option<MetricsSet> {
        Some(self.metrics.clone_inner())
    }
    fn partition_statistics(&self, _: Option<usize>) -> Result<Arc<Statistics>> {
        Ok(Arc::new(Statistics::new_unknown(&self.schema())))
    }
    fn execute(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        if partition >= self.parts {
            return internal_err!("FeedExec partition {partition} of {}", self.parts);
        }
        fn open<U: AsUnit>(f: &WorkUnitFeed<UnitFeed<U>>, p: usize, ctx: &Arc<TaskContext>) -> Result<BoxStream<'static, Result<(UnitA, u64)>>> {
            Ok(f.feed(p, Arc::clone(ctx))?.map(|u| u.map(|u| (u.head(), hash_bytes(&u.bytes())))).boxed())
        }
        let (units, remote, second) = match &self.feed {
            AnyFeed::A(f) => {
                let remote = f.inner().is_none();
                let s = open(f, partition, &ctx)?;
                (s, remote, (remote && self.scan.shared.twice).then(|| open(f, partition, &ctx).is_ok()))
            }
            AnyFeed::B(f) => {
                let remote = f.inner().is_none();
                let s = open(f, partition, &ctx)?;
                (s, remote, (remote && self.scan.shared.twice).then(|| open(f, partition, &ctx).is_ok()))
            }
        };
        let d = DistributedTaskContext::from_ctx(&ctx);
        let g = {
            let mut v = self.scan.recvs.lock().unwrap();
            v.push(RecvRec { remote, task: d.task_index, tasks: d.task_count, partition, nparts: self.parts, units: vec![], ended: false, end_at: 0, error: None, second });
            RecvGuard { scan: Arc::clone(&self.scan), i: v.len() - 1 }
        };
        let bm = BaselineMetrics::new(&self.metrics, partition);
        let proj = self.projection.clone();
        let stream = futures::stream::unfold((units, g, std::collections::VecDeque::new()), move |(mut units, g, mut ready)| {
            let proj = proj.clone();
            let bm = bm.clone();
            async move {
                loop {
                    if let Some(b) = ready.pop_front() {
                        let b: datafusion::arrow::record_batch::RecordBatch = b;
                        let b = match &proj {
                            Some(p) => b.project(p).map_err(DataFusionError::from),
                            None => Ok(b),
                        };
                        if let Ok(b) = &b {
                            bm.record_output(b.num_rows());
                        }
                        return Some((b, (units, g, ready)));
                    }
                    match units.next().await {
                        None => {
                            let at = g.scan.shared.now();
                            g.with(|r| {
                                r.ended = true;
                                r.end_at = at;
                            });
                            return None;
                        }
                        Some(Err(e)) => {
                            g.with(|r| r.error = Some(e.to_string()));
                            return Some((Err(e), (units, g, ready)));
                        }
                        Some(Ok((u, h))) => {
                            g.scan.shared.now();
                            g.with(|r| r.units.push((u.call, u.fpart as usize, u.seq, h)));
                            if u.chunk >= 0
                                && let Some(c) = g.scan.shared.table.chunks.get(u.chunk as usize)
                            {
                                ready.extend(c.iter().cloned());
                            }
                        }
                    }
                }
            }
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(self.schema(), stream.fuse())))
    }
}

pub struct FeedTable(pub Arc<FeedShared>);
impl Debug for FeedTable {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "FeedTable({})", self.0.table.name)
    }
}
#[async_trait]
impl TableProvider for FeedTable {
    fn schema(&self) -> SchemaRef {
        Arc::clone(&self.0.table.schema)
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(&self, _s: &dyn Session, projection: Option<&Vec<usize>>, _f: &[Expr], _l: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
        let scan = Arc::new(Scan { id: NEXT.fetch_add(1, Ordering::Relaxed), shared: Arc::clone(&self.0), calls: Default::default(), recvs: Default::default(), open: Default::default() });
        SCANS.insert(scan.id, Arc::clone(&scan));
        self.0.scans.lock().unwrap().push(Arc::clone(&scan));
        fn mk<U: AsUnit>(scan: &Arc<Scan>) -> WorkUnitFeed<UnitFeed<U>> {
            WorkUnitFeed::new(UnitFeed { scan: Arc::clone(scan), metrics: ExecutionPlanMetricsSet::new(), _u: Default::default() })
        }
        let feed = if self.0.second_type { AnyFeed::B(mk(&scan)) } else { AnyFeed::A(mk(&scan)) };
        Ok(Arc::new(FeedExec::new(feed, scan, self.0.total(), projection.cloned())))
    }
}

fn desired(ev: DesiredTaskCountEvent) -> Option<Result<DesiredTaskCountEventResponse>> {
    let e = ev.plan.downcast_ref::<FeedExec>()?;
    match e.scan.shared.table.hint {
        Hint::None => None,
        Hint::Desired(n) => Some(Ok(DesiredTaskCountEventResponse::desired(n))),
        Hint::Maximum(n) => Some(Ok(DesiredTaskCountEventResponse::maximum(n))),
    }
}
fn scale_up(ev: ScaleUpLeafNodeEvent) -> Option<Result<ScaleUpLeafNodeEventResponse>> {
    let e = ev.plan.downcast_ref::<FeedExec>()?;
    let per = e.scan.shared.total().div_ceil(ev.task_count).max(1);
    Some(Ok(ScaleUpLeafNodeEventResponse::new(Arc::new(FeedExec::new(e.feed.clone(), Arc::clone(&e.scan), per, e.projection.clone())))))
}

/// Everything a coordinator session needs for feeds (or all but the getters).
pub fn feed_session(b: SessionStateBuilder, getters: bool) -> SessionStateBuilder {
    let b = b.with_distributed_user_codec(FeedCodec).with_distributed_desired_task_count_handler(desired).with_distributed_scale_up_leaf_node_handler(scale_up);
    if !getters {
        return b;
    }
    b.with_distributed_work_unit_feed(|p: &FeedExec| match &p.feed {
        AnyFeed::A(f) => Some(f),
        _ => None,
    })
    .with_distributed_work_unit_feed(|p: &FeedExec| match &p.feed {
        AnyFeed::B(f) => Some(f),
        _ => None,
    })
}

#[derive(Debug)]
pub struct FeedCodec;
impl PhysicalExtensionCodec for FeedCodec {
    fn try_decode(&self, buf: &[u8], _i: &[Arc<dyn ExecutionPlan>], _ctx: &TaskContext, _c: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> {
        let v: serde_json::Value = serde_json::from_slice(buf).map_err(|e| DataFusionError::External(Box::new(e)))?;
        let Some(id) = v["feed_scan"].as_u64() else {
            return internal_err!("not a FeedExec");
        };
        let Some(scan) = SCANS.get(&id).map(|t| Arc::clone(&t)) else {
            return internal_err!("feed scan {id} gone");
        };
        let proto = WorkUnitFeedProto { id: v["id"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
        let feed = if v["b"].as_bool() == Some(true) { AnyFeed::B(WorkUnitFeed::from_proto(proto)?) } else { AnyFeed::A(WorkUnitFeed::from_proto(proto)?) };
        let proj = v["proj"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect());
        Ok(Arc::new(FeedExec::new(feed, scan, v["parts"].as_u64().unwrap() as usize, proj)))
    }
    fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, _c: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        let Some(e) = node.downcast_ref::<FeedExec>() else {
            return internal_err!("FeedCodec: unsupported node {}", node.name());
        };
        let (id, b) = match &e.feed {
            AnyFeed::A(f) => (f.to_proto().id, false),
            AnyFeed::B(f) => (f.to_proto().id, true),
        };
        let v = serde_json::json!({"feed_scan": e.scan.id, "id": id, "b": b, "parts": e.parts, "proj": e.projection});
        buf.extend_from_slice(v.to_string().as_bytes());
        Ok(())
    }
}

/// What must hold of every recorded scan. `ok`: the query succeeded, `all`: it had to read everything.
pub fn check_scan(s: &Scan, ok: bool) -> Option<(String, String)> {
    let calls = s.calls.lock().unwrap();
    let recvs = s.recvs.lock().unwrap();
    let dbg = || format!("calls {:?} recvs {:?}", calls.iter().enumerate().map(|(i, c)| (i, c.fpart, c.fan_out, c.units.len(), &c.end, c.end_at)).collect::<Vec<_>>(), recvs.iter().map(|r| (r.remote, r.task, r.tasks, r.partition, r.nparts, r.units.len(), r.ended, r.end_at, &r.error)).collect::<Vec<_>>());
    let mut owner: HashMap<u64, usize> = HashMap::new();
    for (i, r) in recvs.iter().enumerate() {
        if r.second == Some(true) {
            return Some(("consumed-twice".into(), format!("partition {} of task {} could be consumed twice", r.partition, r.task)));
        }
        let fpart = if r.remote { r.task * r.nparts + r.partition } else { r.partition };
        for (n, (call, f, seq, h)) in r.units.iter().enumerate() {
            let Some(c) = calls.get(*call as usize) else {
                return Some(("unit-unknown".into(), format!("a unit of call {call} | {}", dbg())));
            };
            if *f != fpart || c.fpart != fpart {
                return Some(("unit-misrouted".into(), format!("a unit of feed {f} reached task {} partition {} of {} | {}", r.task, r.partition, r.nparts, dbg())));
            }
            if *seq != n as u64 {
                return Some(("unit-order".into(), format!("unit {seq} of feed {f} came as number {n} | {}", dbg())));
            }
            if c.units.get(*seq as usize) != Some(h) {
                return Some(("unit-content".into(), format!("unit {seq} of feed {f} changed | {}", dbg())));
            }
            if *owner.entry(*call).or_insert(i) != i {
                return Some(("unit-split".into(), format!("the units of feed {f} reached several readers | {}", dbg())));
            }
            if r.remote && c.fan_out != r.tasks {
                return Some(("fan-out".into(), format!("the provider was told of {} tasks, there are {} | {}", c.fan_out, r.tasks, dbg())));
            }
        }
        if r.ended {
            let mine: Vec<&CallRec> = match r.units.first() {
                Some(u) => vec![&calls[u.0 as usize]],
                None => calls.iter().filter(|c| c.fpart == fpart).collect(),
            };
            // A source that was dropped: the query was over, which readers may hear of before it does. What
            // they did not read was not needed then, or rows are missing from the result.
            let fits = |c: &&CallRec| c.end == SrcEnd::Dropped || c.end_at < r.end_at && c.units.len() == r.units.len() && c.end == SrcEnd::Ended;
            if ok && mine.is_empty() && r.remote {
                return Some(("feed-not-asked".into(), format!("feed {fpart} was never asked for | {}", dbg())));
            }
            if ok && !mine.iter().any(fits) && !(mine.is_empty() && !r.remote) {
                return Some(("units-missing".into(), format!("task {} partition {} saw its end after {} units, which feed {fpart} did not end with | {}", r.task, r.partition, r.units.len(), dbg())));
            }
        }
    }
    // Within one execution every feed is asked for once.
    if recvs.iter().any(|r| r.remote) {
        let mut seen = std::collections::HashSet::new();
        if let Some(c) = calls.iter().find(|c| !seen.insert(c.fpart)) {
            return Some(("feed-asked-twice".into(), format!("feed {} | {}", c.fpart, dbg())));
        }
    }
    None
}
