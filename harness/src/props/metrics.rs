//! C18, C24: metrics of a distributed query are complete, attributed to the right operator and
//! task, and have the values that were recorded.
use super::query::Prepared;
use super::trace::*;
use crate::cluster::*;
use crate::core::*;
use crate::mon::*;
use crate::oracle::*;
use crate::qcfg::*;
use crate::world::*;
use chrono::DateTime;
use dashmap::DashMap;
use datafusion::arrow::array::AsArray;
use datafusion::common::tree_node::{Transformed, TreeNode, TreeNodeRecursion};
use datafusion::common::{DataFusionError, Result, internal_err};
use datafusion::config::ConfigOptions;
use datafusion::execution::{RecordBatchStream, SendableRecordBatchStream, SessionStateBuilder, TaskContext};
use datafusion::physical_optimizer::PhysicalOptimizerRule;
use datafusion::physical_plan::metrics::*;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties, displayable, execute_stream};
use datafusion_distributed::*;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::future::BoxFuture;
use futures::{Stream, StreamExt};
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::json;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, LazyLock, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

// ---- what gets recorded ----

/// One metric, in numbers of our own.
#[derive(Clone, Debug, PartialEq)]
enum Val {
    Plain(&'static str, usize),
    Named(&'static str, String, usize),
    Stamp(bool, Option<i64>),
    Pruning(String, usize, usize, usize),
    Ratio(String, usize, usize, u8, bool),
    Latency(&'static str, String, Vec<usize>),
    Foreign(String),
}
#[derive(Clone, Debug)]
struct Made {
    partition: Option<usize>,
    labels: Vec<(String, String)>,
    val: Val,
}

fn count(n: usize) -> Count {
    let c = Count::new();
    c.add(n);
    c
}
fn gauge(n: usize) -> Gauge {
    let c = Gauge::new();
    c.set(n);
    c
}
fn time(n: usize) -> Time {
    let t = Time::new();
    if n > 0 {
        t.add_duration(Duration::from_nanos(n as u64));
    }
    t
}
#[derive(Debug)]
struct ForeignMetric;
impl std::fmt::Display for ForeignMetric {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "foreign")
    }
}
impl CustomMetricValue for ForeignMetric {
    fn new_empty(&self) -> Arc<dyn CustomMetricValue> {
        Arc::new(ForeignMetric)
    }
    fn aggregate(&self, _: Arc<dyn CustomMetricValue>) {}
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn is_eq(&self, _: &Arc<dyn CustomMetricValue>) -> bool {
        true
    }
}

fn build(v: &Val) -> MetricValue {
    let name = |s: &String| Cow::Owned(s.clone());
    match v {
        Val::Plain(k, n) => match *k {
            "output_rows" => MetricValue::OutputRows(count(*n)),
            "elapsed_compute" => MetricValue::ElapsedCompute(time(*n)),
            "spill_count" => MetricValue::SpillCount(count(*n)),
            "spilled_bytes" => MetricValue::SpilledBytes(count(*n)),
            "spilled_rows" => MetricValue::SpilledRows(count(*n)),
            "output_bytes" => MetricValue::OutputBytes(count(*n)),
            "output_batches" => MetricValue::OutputBatches(count(*n)),
            _ => MetricValue::CurrentMemoryUsage(gauge(*n)),
        },
        Val::Named(k, s, n) => match *k {
            "count" => MetricValue::Count { name: name(s), count: count(*n) },
            "gauge" => MetricValue::Gauge { name: name(s), gauge: gauge(*n) },
            "time" => MetricValue::Time { name: name(s), time: time(*n) },
            _ => MetricValue::PeakMemoryUsage { name: name(s), gauge: gauge(*n) },
        },
        Val::Stamp(start, t) => {
            let ts = Timestamp::new();
            if let Some(t) = t {
                ts.set(DateTime::from_timestamp_nanos(*t));
            }
            if *start { MetricValue::StartTimestamp(ts) } else { MetricValue::EndTimestamp(ts) }
        }
        Val::Pruning(s, p, m, f) => {
            let x = PruningMetrics::new();
            x.add_pruned(*p);
            x.add_matched(*m);
            x.add_fully_matched(*f);
            MetricValue::PruningMetrics { name: name(s), pruning_metrics: x }
        }
        Val::Ratio(s, p, t, strategy, raw) => {
            let x = RatioMetrics::new()
                .with_merge_strategy(match strategy {
                    0 => RatioMergeStrategy::AddPartAddTotal,
                    1 => RatioMergeStrategy::AddPartSetTotal,
                    _ => RatioMergeStrategy::SetPartAddTotal,
                })
                .with_display_raw_values(*raw);
            x.set_part(*p);
            x.set_total(*t);
            MetricValue::Ratio { name: name(s), ratio_metrics: x }
        }
        Val::Latency(k, s, xs) => {
            macro_rules! fill {
                ($t:ty, $add:ident) => {{
                    let m = <$t>::default();
                    xs.iter().for_each(|x| {
                        m.$add(*x);
                    });
                    Arc::new(m) as Arc<dyn CustomMetricValue>
                }};
            }
            let value = match *k {
                "min" => fill!(MinLatencyMetric, add_nanos),
                "max" => fill!(MaxLatencyMetric, add_nanos),
                "avg" => fill!(AvgLatencyMetric, add_nanos),
                "first" => fill!(FirstLatencyMetric, add_nanos),
                "bytes" => fill!(BytesCounterMetric, add_bytes),
                "p50" => fill!(P50LatencyMetric, add_nanos),
                "p75" => fill!(P75LatencyMetric, add_nanos),
                "p95" => fill!(P95LatencyMetric, add_nanos),
                "p99" => fill!(P99LatencyMetric, add_nanos),
                _ => Arc::new(MaxGaugeMetric::from_value(xs.iter().copied().max().unwrap_or(0))),
            };
            MetricValue::Custom { name: name(s), value }
        }
        Val::Foreign(s) => MetricValue::Custom { name: name(s), value: Arc::new(ForeignMetric) },
    }
}

/// Everything a metric's value consists of.
fn repr(v: &MetricValue) -> String {
    let ts = |t: &Timestamp| t.value().map(|d| d.timestamp_nanos_opt());
    match v {
        MetricValue::OutputRows(c) | MetricValue::SpillCount(c) | MetricValue::SpilledBytes(c) | MetricValue::SpilledRows(c) | MetricValue::OutputBytes(c) | MetricValue::OutputBatches(c) => {
            format!("{}={}", v.name(), c.value())
        }
        MetricValue::ElapsedCompute(t) => format!("elapsed_compute={}", t.value()),
        MetricValue::CurrentMemoryUsage(g) => format!("mem_used={}", g.value()),
        MetricValue::Count { name, count } => format!("count {name}={}", count.value()),
        MetricValue::Gauge { name, gauge } => format!("gauge {name}={}", gauge.value()),
        MetricValue::PeakMemoryUsage { name, gauge } => format!("peak {name}={}", gauge.value()),
        MetricValue::Time { name, time } => format!("time {name}={}", time.value()),
        MetricValue::StartTimestamp(t) => format!("start={:?}", ts(t)),
        MetricValue::EndTimestamp(t) => format!("end={:?}", ts(t)),
        MetricValue::PruningMetrics { name, pruning_metrics: p } => format!("pruning {name}={}/{}/{}", p.pruned(), p.matched(), p.fully_matched()),
        MetricValue::Ratio { name, ratio_metrics: r } => format!("ratio {name}={}/{} {:?} {}", r.part(), r.total(), r.merge_strategy(), r.display_raw_values()),
        MetricValue::Custom { name, value } => {
            let a = value.as_any();
            macro_rules! num {
                ($($t:ty),*) => { $(if let Some(x) = a.downcast_ref::<$t>() { return format!("{} {name}={}", stringify!($t), x.value()); })* };
            }
            macro_rules! sketch {
                ($($t:ty),*) => { $(if let Some(x) = a.downcast_ref::<$t>() {
                    let h = x.serialize_sketch().map(|b| hash_str(&format!("{b:?}")));
                    return format!("{} {name}={} of {} {:?}", stringify!($t), x.value(), x.count(), h.ok());
                })* };
            }
            num!(MinLatencyMetric, MaxLatencyMetric, FirstLatencyMetric, BytesCounterMetric, MaxGaugeMetric);
            if let Some(x) = a.downcast_ref::<AvgLatencyMetric>() {
                return format!("AvgLatencyMetric {name}={} of {}", x.nanos_sum(), x.count());
            }
            sketch!(P50LatencyMetric, P75LatencyMetric, P95LatencyMetric, P99LatencyMetric);
            format!("foreign {name}")
        }
    }
}
const TASK: &str = "task_id";
fn repr_metric(m: &Metric, but: Option<&str>) -> String {
    let labels: Vec<String> = m.labels().iter().filter(|l| Some(l.name()) != but).map(|l| format!("{}={}", l.name(), l.value())).collect();
    format!("{} p={:?} {:?}", repr(m.value()), m.partition(), labels)
}
fn repr_made(m: &Made) -> String {
    let labels: Vec<String> = m.labels.iter().map(|(k, v)| format!("{k}={v}")).collect();
    format!("{} p={:?} {:?}", repr(&build(&m.val)), m.partition, labels)
}

fn some_number(r: &mut StdRng, wild: bool) -> usize {
    match r.random_range(0..if wild { 9 } else { 5 }) {
        0 => 0,
        1 => 1,
        2..5 => r.random_range(0..5_000_000),
        5 => usize::MAX,
        6 => usize::MAX - 1,
        7 => i64::MAX as usize,
        _ => 1 << r.random_range(0..64),
    }
}
fn some_metric(r: &mut StdRng, wild: bool, partition: usize) -> Made {
    let i = r.random_range(0..3);
    let n = some_number(r, wild);
    let val = match r.random_range(0..16) {
        0 => Val::Plain("output_rows", n),
        1 => Val::Plain(pick(r, &["elapsed_compute", "mem_used"]), n),
        2 => Val::Plain(pick(r, &["spill_count", "spilled_bytes", "spilled_rows"]), n),
        3 => Val::Plain(pick(r, &["output_bytes", "output_batches"]), n),
        4 => Val::Named("count", format!("c{i}"), n),
        5 => Val::Named("gauge", format!("g{i}"), n),
        6 => Val::Named("time", format!("t{i}"), n),
        7 => Val::Named("peak", format!("é peak{{{i}}}"), n),
        8 => {
            let t = match r.random_range(0..4) {
                0 => None,
                1 if wild => Some(pick(r, &[0, -1, i64::MAX, i64::MIN])),
                _ => Some(1_700_000_000_000_000_000 + r.random_range(0..1_000_000_000)),
            };
            Val::Stamp(r.random_bool(0.5), t)
        }
        9 => Val::Pruning(format!("pr{i}"), some_number(r, false), some_number(r, false), pick(r, &[0, 0, 1, 77])),
        10 => {
            let s = r.random_range(0..3u8);
            // the "set" strategies are for numbers everybody agrees on
            let (p, t) = (some_number(r, false), some_number(r, false));
            match s {
                1 => Val::Ratio(format!("ra{i}_{s}"), p, 12_345, s, i == 0),
                2 => Val::Ratio(format!("ra{i}_{s}"), 678, t, s, i == 0),
                _ => Val::Ratio(format!("ra{i}_{s}"), p, t, s, i == 0),
            }
        }
        11..15 => {
            let k = pick(r, &["min", "max", "avg", "first", "bytes", "p50", "p75", "p95", "p99", "maxgauge"]);
            let n = pick(r, &[0, 1, 1, 2, 30]);
            let p = k.starts_with('p');
            let xs = (0..n).map(|_| if p { r.random_range(1..1_000_000_000) } else { some_number(r, wild && k != "avg" && k != "bytes").min(usize::MAX - 1) }).collect();
            Val::Latency(k, format!("{k}_lat{i}"), xs)
        }
        _ => Val::Foreign(format!("foreign{i}")),
    };
    let labels = (0..pick(r, &[0, 0, 0, 1, 3])).map(|_| (pick(r, &["file", "", "task", "é\n"]).to_string(), pick(r, &["a.parquet", "", "0", "\u{1F600},={}"]).to_string())).collect();
    Made { partition: pick(r, &[Some(partition), Some(partition), None]), labels, val }
}

// ---- the node that records ----

/// Node and task.
type Key = (u64, usize);

struct Snapshot {
    made: Vec<Made>,
    ended: bool,
}

/// What was recorded: by node and task.
#[derive(Default)]
struct Book {
    seed: u64,
    wild: bool,
    many: usize,
    made: Mutex<BTreeMap<Key, Vec<Made>>>,
    /// All streams: their counters of rows, and whether they were read to their end.
    streams: Mutex<BTreeMap<Key, Vec<(usize, Count, Arc<AtomicBool>)>>>,
    /// What there was whenever somebody collected the metrics of a node that had been executed.
    collected: Mutex<BTreeMap<Key, Vec<Snapshot>>>,
}
static BOOKS: LazyLock<DashMap<u64, Arc<Book>>> = LazyLock::new(DashMap::new);
static NEXT: AtomicU64 = AtomicU64::new(1);

#[derive(Debug, Clone)]
struct ProbeExec {
    input: Arc<dyn ExecutionPlan>,
    id: u64,
    case: u64,
    set: ExecutionPlanMetricsSet,
    /// The worker's task. Below a union of isolated children, the session tells another one.
    task: Arc<std::sync::OnceLock<usize>>,
    executed: Arc<AtomicBool>,
}
impl DisplayAs for ProbeExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "ProbeExec: id=<{}>", self.id)
    }
}
impl ExecutionPlan for ProbeExec {
    fn name(&self) -> &str {
        "ProbeExec"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        self.input.properties()
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![&self.input]
    }
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(ProbeExec { input: Arc::clone(&c[0]), id: self.id, case: self.case, set: Default::default(), task: Arc::clone(&self.task), executed: Default::default() }))
    }
    fn maintains_input_order(&self) -> Vec<bool> {
        vec![true]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn datafusion::physical_expr::PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn metrics(&self) -> Option<MetricsSet> {
        if self.executed.load(Ordering::SeqCst)
            && let Some(book) = BOOKS.get(&self.case).map(|b| Arc::clone(&b))
        {
            let key = self.key();
            let made = book.made.lock().unwrap();
            let set = self.set.clone_inner();
            let mut snap = Snapshot { made: made.get(&key).cloned().unwrap_or_default(), ended: true };
            for (i, (p, _, ended)) in book.streams.lock().unwrap().get(&key).into_iter().flatten().enumerate() {
                // The counters go on counting: what matters is what the set says.
                let is = |m: &&Arc<Metric>| matches!(m.value(), MetricValue::Count { name, .. } if *name == format!("probe_rows{i}"));
                let Some(m) = set.iter().find(is) else { continue };
                let ended = ended.load(Ordering::SeqCst);
                let n = match m.value() {
                    MetricValue::Count { count, .. } => count.value(),
                    _ => 0,
                };
                if ended {
                    snap.made.push(Made { partition: Some(*p), labels: vec![], val: Val::Named("count", format!("probe_rows{i}"), n) });
                } else {
                    snap.ended = false;
                }
            }
            book.collected.lock().unwrap().entry(key).or_default().push(snap);
            return Some(set);
        }
        Some(self.set.clone_inner())
    }
    fn execute(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let inner = self.input.execute(p, Arc::clone(&c))?;
        let Some(book) = BOOKS.get(&self.case).map(|b| Arc::clone(&b)) else { return Ok(inner) };
        let task = self.key().1;
        self.executed.store(true, Ordering::SeqCst);
        let mut r = StdRng::seed_from_u64(mix(mix(book.seed, self.id), (task * 1000 + p) as u64));
        let made: Vec<Made> = (0..r.random_range(0..=book.many)).map(|_| some_metric(&mut r, book.wild, p)).collect();
        let (now, later): (Vec<_>, Vec<_>) = made.into_iter().partition(|_| r.random_bool(0.5));
        let ended = Arc::new(AtomicBool::new(false));
        let rows = {
            let mut streams = book.streams.lock().unwrap();
            let streams = streams.entry(self.key()).or_default();
            let rows = MetricBuilder::new(&self.set).counter(format!("probe_rows{}", streams.len()), p);
            streams.push((p, rows.clone(), Arc::clone(&ended)));
            rows
        };
        let mut s = ProbeStream { inner: Some(inner), later, set: self.set.clone(), book, key: (self.id, task), rows, ended };
        s.record(now);
        Ok(Box::pin(s))
    }
}
struct ProbeStream {
    inner: Option<SendableRecordBatchStream>,
    later: Vec<Made>,
    set: ExecutionPlanMetricsSet,
    book: Arc<Book>,
    key: (u64, usize),
    rows: Count,
    ended: Arc<AtomicBool>,
}
impl ProbeExec {
    fn key(&self) -> Key {
        (self.id, self.task.get().copied().unwrap_or(0))
    }
}
impl ProbeStream {
    fn record(&mut self, made: Vec<Made>) {
        let mut b = self.book.made.lock().unwrap();
        for m in made {
            let labels = m.labels.iter().map(|(k, v)| Label::new(k.clone(), v.clone())).collect();
            self.set.register(Arc::new(Metric::new_with_labels(build(&m.val), m.partition, labels)));
            b.entry(self.key).or_default().push(m);
        }
    }
}
impl Drop for ProbeStream {
    fn drop(&mut self) {
        let later = std::mem::take(&mut self.later);
        self.record(later);
    }
}
impl Stream for ProbeStream {
    type Item = Result<datafusion::arrow::array::RecordBatch>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let x = self.inner.as_mut().unwrap().poll_next_unpin(cx);
        if let Poll::Ready(Some(Ok(b))) = &x {
            self.rows.add(b.num_rows());
        }
        if let Poll::Ready(None) = &x {
            let later = std::mem::take(&mut self.later);
            self.record(later);
            self.ended.store(true, Ordering::SeqCst);
        }
        x
    }
}
impl RecordBatchStream for ProbeStream {
    fn schema(&self) -> datafusion::arrow::datatypes::SchemaRef {
        self.inner.as_ref().unwrap().schema()
    }
}

#[derive(Debug, Clone)]
struct ProbeCodec;
impl PhysicalExtensionCodec for ProbeCodec {
    fn try_decode(&self, buf: &[u8], inputs: &[Arc<dyn ExecutionPlan>], _: &TaskContext, _: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> {
        let v: serde_json::Value = serde_json::from_slice(buf).map_err(|e| DataFusionError::External(Box::new(e)))?;
        let (Some(id), Some(case)) = (v["probe"].as_u64(), v["case"].as_u64()) else {
            return internal_err!("not a probe");
        };
        Ok(Arc::new(ProbeExec { input: Arc::clone(&inputs[0]), id, case, set: Default::default(), task: Default::default(), executed: Default::default() }))
    }
    fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, _: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        let Some(p) = node.downcast_ref::<ProbeExec>() else { return internal_err!("not a probe: {}", node.name()) };
        buf.extend_from_slice(json!({"probe": p.id, "case": p.case}).to_string().as_bytes());
        Ok(())
    }
}

#[derive(Debug)]
struct Probes(u64, AtomicU64);
impl PhysicalOptimizerRule for Probes {
    fn optimize(&self, plan: Arc<dyn ExecutionPlan>, _: &ConfigOptions) -> Result<Arc<dyn ExecutionPlan>> {
        plan.transform_up(|p| {
            if p.children().is_empty() || ["FilterExec", "ProjectionExec", "HashJoinExec"].contains(&p.name()) {
                let id = self.1.fetch_add(1, Ordering::Relaxed);
                return Ok(Transformed::yes(Arc::new(ProbeExec { input: p, id, case: self.0, set: Default::default(), task: Default::default(), executed: Default::default() }) as _));
            }
            Ok(Transformed::no(p))
        })
        .map(|t| t.data)
    }
    fn name(&self) -> &str {
        "probes"
    }
    fn schema_check(&self) -> bool {
        true
    }
}

// ---- reading the reports ----

fn words(p: &dyn ExecutionPlan) -> String {
    displayable(p).one_line().to_string().trim_end().to_string()
}
fn probe_id(line: &str) -> Option<u64> {
    line.split("ProbeExec: id=<").nth(1)?.split('>').next()?.parse().ok()
}
fn task_of(m: &Metric) -> Option<usize> {
    m.labels().iter().filter(|l| l.name() == TASK).last().and_then(|l| l.value().parse().ok())
}
/// The label of the task is the last one.
fn without_task(m: &Metric) -> String {
    let n = m.labels().len().saturating_sub(1);
    let labels: Vec<String> = m.labels()[..n].iter().map(|l| format!("{}={}", l.name(), l.value())).collect();
    format!("{} p={:?} {:?}", repr(m.value()), m.partition(), labels)
}
fn bag(xs: impl IntoIterator<Item = String>) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    for x in xs {
        if !x.starts_with("foreign ") {
            *m.entry(x).or_default() += 1;
        }
    }
    m
}
fn bag_diff(exp: &BTreeMap<String, i64>, got: &BTreeMap<String, i64>) -> Option<String> {
    let mut out = vec![];
    for (k, n) in exp {
        if got.get(k) != Some(n) {
            out.push(format!("recorded {n}x {k}, reported {}x", got.get(k).copied().unwrap_or(0)));
        }
    }
    for (k, n) in got {
        if !exp.contains_key(k) {
            out.push(format!("reported {n}x {k}, never recorded"));
        }
    }
    (!out.is_empty()).then(|| format!("{} differences: {}", out.len(), out.into_iter().take(4).collect::<Vec<_>>().join("; ")))
}
fn kind_of(diff: &str) -> String {
    let x = diff.split("x ").nth(1).unwrap_or("");
    let w = x.split(['=', ' ']).next().unwrap_or("");
    w.to_string()
}

/// Stages of a plan with all stages inside.
fn stages_of(p: &Arc<dyn ExecutionPlan>, out: &mut BTreeMap<usize, (Arc<dyn ExecutionPlan>, usize)>) {
    if let Some(b) = p.as_network_boundary() {
        let s = b.input_stage();
        if let Stage::Local(l) = s {
            out.insert(l.num, (Arc::clone(&l.plan), l.tasks));
            stages_of(&l.plan, out);
        }
        return;
    }
    for c in p.children() {
        stages_of(c, out);
    }
}
/// Nodes above the next stages.
fn own_nodes(p: &Arc<dyn ExecutionPlan>, out: &mut Vec<Arc<dyn ExecutionPlan>>) {
    out.push(Arc::clone(p));
    if !p.is_network_boundary() {
        for c in p.children() {
            own_nodes(c, out);
        }
    }
}

/// The mathematically right value of the metrics of one name, printed as DataFusion prints it.
fn merged(made: &[&Made]) -> Option<MetricValue> {
    let first = &made[0].val;
    let nums = || {
        made.iter().map(|m| match &m.val {
            Val::Plain(_, n) | Val::Named(_, _, n) => *n,
            _ => 0,
        })
    };
    let sum = |xs: &mut dyn Iterator<Item = usize>| xs.fold(0usize, |a, b| a.wrapping_add(b));
    let all = || {
        made.iter().flat_map(|m| match &m.val {
            Val::Latency(_, _, xs) => xs.clone(),
            _ => vec![],
        })
    };
    let v = match first {
        Val::Plain("elapsed_compute", _) => return None,
        Val::Named("time", ..) => return None,
        Val::Plain(k, _) => Val::Plain(*k, sum(&mut nums())),
        Val::Named(k, s, _) => Val::Named(*k, s.clone(), sum(&mut nums())),
        Val::Pruning(s, ..) => {
            let (mut a, mut b, mut c) = (0, 0, 0);
            for m in made {
                if let Val::Pruning(_, x, y, z) = &m.val {
                    (a, b, c) = (a + x, b + y, c + z);
                }
            }
            Val::Pruning(s.clone(), a, b, c)
        }
        Val::Ratio(s, _, _, st, raw) => {
            let (mut p, mut t) = (0, 0);
            for m in made {
                if let Val::Ratio(_, x, y, ..) = &m.val {
                    (p, t) = (if *st == 2 { *x } else { p + x }, if *st == 1 { *y } else { t + y });
                }
            }
            Val::Ratio(s.clone(), p, t, *st, *raw)
        }
        Val::Latency("first", ..) => return None,
        Val::Latency("maxgauge", s, _) => Val::Latency("maxgauge", s.clone(), vec![all().max().unwrap_or(0)]),
        Val::Latency(k, s, _) => Val::Latency(k, s.clone(), all().collect()),
        Val::Stamp(..) | Val::Foreign(_) => return None,
    };
    Some(build(&v))
}
fn name_of(m: &Made) -> String {
    build(&m.val).name().to_string()
}

type Truth = Arc<Mutex<Vec<(usize, usize, Arc<dyn ExecutionPlan>)>>>;

/// What identifies the stage a plan belongs to.
fn marks(p: &Arc<dyn ExecutionPlan>) -> BTreeSet<String> {
    let mut v = vec![];
    own_nodes(p, &mut v);
    v.iter()
        .filter_map(|n| {
            if let Some(b) = n.as_network_boundary() {
                return Some(format!("stage {}", b.input_stage().num()));
            }
            probe_id(&words(n.as_ref())).map(|i| format!("probe {i}"))
        })
        .collect()
}

/// Whether a union's inputs have got projections a plan did not have when it was sent: DataFusion
/// makes the inputs' schemas agree when it builds unions, and does so again when it decodes them.
fn coerced(sent: &Arc<dyn ExecutionPlan>, got: &Arc<dyn ExecutionPlan>) -> bool {
    if sent.name() == "DistributedLeafExec" || sent.is_network_boundary() {
        return false;
    }
    if sent.name() != got.name() || sent.children().len() != got.children().len() {
        return false;
    }
    sent.children().iter().zip(got.children()).any(|(a, b)| {
        if ["UnionExec", "InterleaveExec"].contains(&sent.name()) && a.name() != "ProjectionExec" && b.name() == "ProjectionExec" {
            return true;
        }
        coerced(a, b)
    })
}

async fn metrics_case(ctx: Arc<CaseCtx>, mut r: StdRng, values: bool) -> CaseResult {
    let case = NEXT.fetch_add(1, Ordering::Relaxed);
    struct Forget(u64);
    impl Drop for Forget {
        fn drop(&mut self) {
            BOOKS.remove(&self.0);
        }
    }
    let _forget = Forget(case);
    let book = Arc::new(Book { seed: r.random(), wild: values && r.random_bool(0.6), many: if values { 25 } else { pick(&mut r, &[0, 1, 4]) }, ..Default::default() });
    BOOKS.insert(case, Arc::clone(&book));
    let truth: Truth = Default::default();
    let keep = !values && r.random_bool(0.6);
    let off = !values && r.random_bool(0.06);
    let hook: StateHook = {
        let truth = Arc::clone(&truth);
        Arc::new(move |b, _, _| {
            let truth = Arc::clone(&truth);
            let b = b.with_distributed_user_codec(ProbeCodec);
            Ok(b.with_distributed_worker_plan_rewrite_handler(move |ev: WorkerPlanRewriteEvent| {
                if let Some(d) = ev.session_config.get_extension::<DistributedTaskContext>() {
                    ev.plan.apply(|n| {
                        if let Some(p) = n.downcast_ref::<ProbeExec>() {
                            let _ = p.task.set(d.task_index);
                        }
                        Ok(TreeNodeRecursion::Continue)
                    })?;
                    {
                        truth.lock().unwrap().push((d.task_index, d.task_count, Arc::clone(&ev.plan)));
                    }
                }
                Ok(WorkerPlanRewriteEventResponse::new(ev.plan))
            }))
        })
    };
    let p = match world_query(&ctx, &mut r, |_r, c, q, _s| {
        c.hook = Some(hook.clone());
        q.metrics = !off;
    })
    .await
    {
        Ok(p) => p,
        Err(e) => return e,
    };
    let desc = format!("probes of case {case} wild={} keep={keep} off={off} | {}", book.wild, describe(&p));
    ctx.note(desc.clone());
    let Prepared { w, query, exp, unl } = p;
    let coord = move |b: SessionStateBuilder| Ok(b.with_distributed_user_codec(ProbeCodec).with_physical_optimizer_rule(Arc::new(Probes(case, AtomicU64::new(0)))));
    let dc = match w.distributed_with(&coord).await {
        Ok(c) => c,
        Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
    };
    // EXPLAIN ANALYZE in one go, or executing and asking afterwards.
    let analyze = !values && !off && r.random_bool(0.25);
    let verbose = r.random_bool(0.5);
    let early = !analyze && r.random_bool(0.12);
    let sql = if analyze { format!("EXPLAIN ANALYZE {}{}", if verbose { "VERBOSE " } else { "" }, query.sql) } else { query.sql.clone() };
    let plan = match plan_of(&dc, &sql).await {
        Ok(p) => p,
        Err(e) => return CaseResult::inconclusive(format!("planning: {}", err_short(&e).chars().take(80).collect::<String>())),
    };
    w.mon.clear();
    let got = if early {
        // The user loses interest.
        match execute_stream(Arc::clone(&plan), dc.task_ctx()) {
            Ok(mut s) => {
                let mut out = vec![];
                for _ in 0..r.random_range(0..3) {
                    match s.next().await {
                        Some(Ok(b)) => out.push(b),
                        Some(Err(e)) => return CaseResult::inconclusive(format!("query: {}", err_short(&e).chars().take(80).collect::<String>())),
                        None => break,
                    }
                }
                Ok(out)
            }
            Err(e) => Err(e),
        }
    } else {
        run_plan(&w.mon, &plan, &dc).await
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            let e = err_short(&e);
            // Would it have worked without all this?
            let plain = match w.distributed().await {
                Ok(c) => collect_df(&c, &query.sql).await,
                Err(e) => Err(e),
            };
            return match plain {
                Ok(_) => CaseResult::viol("fails-with-metrics", format!("{e} | {desc}")),
                Err(_) => CaseResult::inconclusive(format!("query: {}", e.chars().take(80).collect::<String>())),
            };
        }
    };
    let mut res = CaseResult::ok();
    // Probes whose plans change their shape on their way.
    let shifty: BTreeSet<u64> = {
        let log = w.mon.log.lock().unwrap();
        let mut out = BTreeSet::new();
        for (_, _, plan) in truth.lock().unwrap().iter() {
            let m = marks(plan);
            let mut ids = vec![];
            own_nodes(plan, &mut ids);
            let ids: Vec<u64> = ids.iter().filter_map(|n| probe_id(&words(n.as_ref()))).collect();
            if log.coord.iter().filter_map(|c| c.node.as_ref()).any(|sent| !m.is_empty() && m.is_subset(&marks(sent)) && coerced(sent, plan)) {
                out.extend(ids);
            }
        }
        out
    };
    let mut known: Option<String> = None;
    if !analyze && !early {
        if let Some(d) = judge(&query, &exp, &got, unl.as_deref()) {
            // C01 to C03 judge rows, knowing where DataFusion itself goes astray.
            return CaseResult::inconclusive(format!("rows differ: {}", d.chars().take(60).collect::<String>()));
        }
        res = res.count("rows_compared", got.iter().map(|b| b.num_rows() as u64).sum());
    }
    let distributed = { w.mon.log.lock().unwrap().coord.len() as u64 };
    // What the last one to collect the metrics of a node could see.
    let last = |book: &Book| -> BTreeMap<Key, (Vec<Made>, bool)> {
        book.collected.lock().unwrap().iter().filter_map(|(k, v)| v.last().map(|s| (*k, (s.made.clone(), s.ended)))).collect()
    };
    // Nodes that went on recording while, or after, they were asked: nobody can tell which of
    // their states was to be reported.
    let unsettled = |book: &Book| -> BTreeSet<u64> {
        let made = book.made.lock().unwrap();
        let all = |ms: &[Made]| bag(ms.iter().filter(|m| !name_of(m).starts_with("probe_rows")).map(repr_made));
        let rows = |ms: &[Made]| bag(ms.iter().map(repr_made));
        book.collected.lock().unwrap().iter().filter(|(k, v)| {
            v.iter().any(|s| !s.ended || all(&s.made) != made.get(k).map(|m| all(m)).unwrap_or_default() || rows(&s.made) != rows(&v[0].made))
        }).map(|(k, _)| k.0).collect()
    };
    let only_made = |m: &BTreeMap<Key, (Vec<Made>, bool)>| -> BTreeMap<Key, Vec<Made>> { m.iter().map(|(k, v)| (*k, v.0.clone())).collect() };
    // Nothing ends early in such a plan.
    let drains = {
        let t = format!("{} {}", plan_str(&plan), query.sql).to_lowercase();
        !["limit", "fetch", "join", "topk", "window", "union"].iter().any(|w| t.contains(w))
    };

    if analyze {
        let text: Vec<(String, String)> = got
            .iter()
            .flat_map(|b| {
                let (a, c) = (b.column(0).as_string::<i32>(), b.column(1).as_string::<i32>());
                (0..b.num_rows()).map(|i| (a.value(i).to_string(), c.value(i).to_string())).collect::<Vec<_>>()
            })
            .collect();
        let made = last(&book);
        let cut = unsettled(&book);
        if drains && let Some(k) = cut.first() {
            return CaseResult::viol("collected-too-early", format!("the metrics of probe {k} were collected before it ended | {desc}"));
        }
        let made = only_made(&made);
        let mut lines = 0;
        for (title, t) in &text {
            if title.starts_with("Plan with Metrics") {
                let _ = distributed;
                if let Some((sig, d)) = check_text(t, &made, &shifty, &cut, false, distributed > 0) {
                    return CaseResult::viol(sig, format!("{d} | in {title}:\n{t} | {desc}"));
                }
            } else if title.starts_with("Plan with Full Metrics") && distributed > 0 {
                if let Some((sig, d)) = check_text(t, &made, &shifty, &cut, true, true) {
                    return CaseResult::viol(sig, format!("{d} | in {title}:\n{t} | {desc}"));
                }
            } else if title.contains("Rows") {
                let want: usize = exp.iter().map(|b| b.num_rows()).sum();
                if *t != want.to_string() && query.loose.is_none() {
                    return CaseResult::viol("analyze-rows", format!("{title} {t}, not {want} | {desc}"));
                }
            }
            lines += t.lines().count() as u64;
        }
        if lines == 0 {
            return CaseResult::viol("analyze-empty", format!("nothing was reported | {desc}"));
        }
        return res.count("analyzed", 1).count("lines_checked", lines).count("queries_distributed", (distributed > 0) as u64).seen(mix(hash_str(&sql), distributed));
    }

    // Both presentations.
    let ask = |f| {
        let plan = Arc::clone(&plan);
        async move {
            let fut = rewrite_distributed_plan_with_metrics(plan, f);
            tokio::time::timeout(Duration::from_secs(8), fut).await
        }
    };
    let per = match ask(DistributedMetricsFormat::PerTask).await {
        Ok(Ok(p)) => p,
        Ok(Err(e)) if early => return res.count("early_reports_refused", 1).seen(hash_str(&err_short(&e))),
        Ok(Err(e)) => return CaseResult::viol("no-report", format!("{} | {desc}", err_short(&e))),
        Err(_) => return CaseResult::viol(if early { "report-hangs-early" } else { "report-hangs" }, format!("no metrics after 8 s | {desc}\n{}", dump_log(&w.mon.log.lock().unwrap()).chars().take(2000).collect::<String>())),
    };
    let agg = match ask(DistributedMetricsFormat::Aggregated).await {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return CaseResult::viol("no-report", format!("{} | {desc}", err_short(&e))),
        Err(_) => return CaseResult::viol("report-hangs", format!("no aggregated metrics after 8 s | {desc}")),
    };
    if off || distributed == 0 {
        if off && plan_str(&per) != plan_str(&plan) {
            return CaseResult::viol("changed-without-metrics", format!("metrics are off, but the plan was rewritten | {desc}"));
        }
        return res.count("without_metrics", 1);
    }
    // ---- recorded against reported, node by node ----
    let all_made = last(&book);
    let made = only_made(&all_made);
    if early {
        // Whatever got lost: nothing may be made up.
        let mut stages = BTreeMap::new();
        stages_of(&per, &mut stages);
        for (s, (top, _)) in &stages {
            let mut ns = vec![];
            own_nodes(top, &mut ns);
            for n in ns.iter().filter(|n| n.name() == "ProbeExec") {
                let Some(id) = probe_id(&words(n.as_ref())).filter(|i| !shifty.contains(i)) else { continue };
                let g = bag(n.metrics().unwrap_or_default().iter().filter(|m| !m.value().name().starts_with("probe_rows")).map(|m| format!("{} task {}", without_task(m), task_of(m).unwrap_or(999))));
                let made = book.made.lock().unwrap();
                let e = bag(made.iter().filter(|(k, _)| k.0 == id).flat_map(|(k, v)| v.iter().map(|m| format!("{} task {}", repr_made(m), k.1))));
                if let Some((x, c)) = g.iter().find(|(x, c)| e.get(*x).is_none_or(|n| n < c)) {
                    return CaseResult::viol("made-up", format!("stage {s} probe {id}: {c}x {x} reported, {}x recorded | {desc}", e.get(x).unwrap_or(&0)));
                }
            }
        }
        return res.count("early_reports", 1).seen(mix(hash_str(&query.sql), shape_fp(&w.mon.log.lock().unwrap())));
    }
    if drains && let Some(k) = all_made.iter().find(|(_, v)| !v.1) {
        return CaseResult::viol("collected-too-early", format!("the metrics of probe {} task {} were collected before it ended | {desc}", k.0.0, k.0.1));
    }
    let cut = unsettled(&book);
    if drains && let Some(k) = cut.first() {
        return CaseResult::viol("collected-too-early", format!("the metrics of probe {k} were collected before it ended | {desc}"));
    }
    let missed = book.made.lock().unwrap().iter().filter(|(k, v)| !v.is_empty() && !all_made.contains_key(k)).map(|(k, _)| *k).collect::<Vec<_>>();
    if let Some(k) = missed.first()
        && drains
    {
        return CaseResult::viol("never-collected", format!("probe {} task {} recorded metrics, nobody asked for them | {desc}", k.0, k.1));
    }
    let (mut metrics, mut nodes, mut merges, mut cuts) = (0u64, 0u64, 0u64, 0u64);
    let mut seen_ids = BTreeSet::new();
    for (form, root) in [("per task", &per), ("aggregated", &agg)] {
        let per_task = form == "per task";
        let mut stages = BTreeMap::new();
        stages_of(root, &mut stages);
        let head: Vec<(usize, Arc<dyn ExecutionPlan>)> = vec![(0, Arc::clone(root))];
        for (s, top) in head.into_iter().chain(stages.iter().map(|(s, (p, _))| (*s, Arc::clone(p)))) {
            let mut ns = vec![];
            own_nodes(&top, &mut ns);
            for n in ns {
                let Some(id) = probe_id(&words(n.as_ref())).filter(|_| n.name() == "ProbeExec") else { continue };
                seen_ids.insert(id);
                nodes += 1;
                let got = n.metrics().unwrap_or_default();
                if cut.contains(&id) {
                    // Some of what was recorded, and nothing else.
                    let ever = book.made.lock().unwrap();
                    let e = bag(ever.iter().filter(|(k, _)| k.0 == id).flat_map(|(k, v)| v.iter().map(|m| format!("{} task {}", repr_made(m), k.1))));
                    let g = bag(got.iter().filter(|m| !m.value().name().starts_with("probe_rows")).map(|m| format!("{} task {}", without_task(m), task_of(m).unwrap_or(999))));
                    if let Some((x, c)) = g.iter().find(|(x, c)| per_task && !shifty.contains(&id) && e.get(*x).is_none_or(|n| n < c)) {
                        return CaseResult::viol("made-up", format!("stage {s} probe {id}: {c}x {x} reported, {}x recorded | {desc}", e.get(x).unwrap_or(&0)));
                    }
                    cuts += 1;
                    continue;
                }
                let got: Vec<Arc<Metric>> = got.iter().cloned().collect();
                let want: Vec<(usize, &Made)> = made.iter().filter(|(k, _)| k.0 == id).flat_map(|(k, v)| v.iter().map(|m| (k.1, m))).collect();
                metrics += want.len() as u64;
                if per_task {
                    if let Some(m) = got.iter().find(|m| task_of(m).is_none()) {
                        return CaseResult::viol("no-task-label", format!("stage {s} probe {id}: {} | {desc}", repr_metric(m, None)));
                    }
                    let e = bag(want.iter().map(|(t, m)| format!("{} task {t}", repr_made(m))));
                    let g = bag(got.iter().map(|m| format!("{} task {}", without_task(m), task_of(m).unwrap_or(999))));
                    if let Some(d) = bag_diff(&e, &g).filter(|d| !(shifty.contains(&id) && known.insert(d.clone()).len() > 0)) {
                        return CaseResult::viol(format!("per-task: {}", kind_of(&d)), format!("stage {s} probe {id}: {d} | {desc}\n{}\n{}", plan_str(&per), dump_log(&w.mon.log.lock().unwrap()).chars().take(4000).collect::<String>()));
                    }
                } else {
                    let e = bag(want.iter().map(|(_, m)| repr_made(m)));
                    let g = bag(got.iter().map(|m| repr_metric(m, None)));
                    if shifty.contains(&id) {
                        continue;
                    }
                    if let Some(d) = bag_diff(&e, &g) {
                        return CaseResult::viol(format!("aggregated: {}", kind_of(&d)), format!("stage {s} probe {id}: {d} | {desc}"));
                    }
                    // The numbers of all tasks together.
                    let mut by: BTreeMap<String, Vec<&Made>> = BTreeMap::new();
                    for (_, m) in &want {
                        by.entry(name_of(m)).or_default().push(m);
                    }
                    let mut total = MetricsSet::new();
                    got.iter().for_each(|m| total.push(Arc::clone(m)));
                    let total = total.aggregate_by_name();
                    for (name, ms) in &by {
                        let Some(v) = merged(ms) else { continue };
                        merges += 1;
                        let t = total.iter().find(|m| m.value().name() == name.as_str());
                        let Some(t) = t else {
                            return CaseResult::viol("merge-lost", format!("stage {s} probe {id}: {name} | {desc}"));
                        };
                        // Sketches add up floats, in whatever order.
                        let sketch = matches!(&ms[0].val, Val::Latency(k, ..) if k.starts_with('p'));
                        if !sketch && repr(t.value()) != repr(&v) {
                            return CaseResult::viol("merge", format!("stage {s} probe {id}: {name} of {:?} is {}, not {} | {desc}", ms.iter().map(|m| &m.val).collect::<Vec<_>>(), repr(t.value()), repr(&v)));
                        }
                        if let Val::Latency(k, _, _) = &ms[0].val {
                            if let Some(q) = k.strip_prefix('p').and_then(|q| q.parse::<f64>().ok()) {
                                if let Some(d) = off_percentile(ms, q, t.value()) {
                                    return CaseResult::viol("percentile", format!("stage {s} probe {id} {name}: {d} | {desc}"));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    for (id, t) in made.keys() {
        if !seen_ids.contains(id) {
            return CaseResult::viol("node-lost", format!("probe {id} ran in task {t}, but is not in the report | {desc}"));
        }
    }
    // ---- as text ----
    for (f, per_task) in [(DistributedMetricsFormat::Aggregated, false), (DistributedMetricsFormat::PerTask, true)] {
        match tokio::time::timeout(Duration::from_secs(8), explain_analyze(Arc::clone(&plan), f)).await {
            Ok(Ok(t)) => {
                if let Some((sig, d)) = check_text(&t, &made, &shifty, &cut, per_task, true) {
                    return CaseResult::viol(sig, format!("{d} | in:\n{t} | {desc}"));
                }
                res = res.count("lines_checked", t.lines().count() as u64);
            }
            Ok(Err(e)) => return CaseResult::viol("no-text", format!("{} | {desc}", err_short(&e))),
            Err(_) => return CaseResult::viol("report-hangs", format!("no text after 8 s | {desc}")),
        }
    }
    // ---- against the workers' own plans ----
    let mut plans = 0u64;
    if keep {
        let mut stages = BTreeMap::new();
        stages_of(&per, &mut stages);
        let plain: BTreeMap<usize, BTreeSet<String>> = stages.iter().map(|(s, (p, _))| (*s, marks(p))).collect();
        for (task, count, plan) in truth.lock().unwrap().iter() {
            let m = marks(plan);
            if m.iter().any(|m| m.strip_prefix("probe ").and_then(|i| i.parse().ok()).is_some_and(|i: u64| shifty.contains(&i))) {
                continue;
            }
            let Some(s) = plain.iter().find(|(_, x)| !m.is_empty() && m.is_subset(x)).map(|x| *x.0) else { continue };
            let (top, tasks) = &stages[&s];
            if tasks != count {
                return CaseResult::viol("tasks-differ", format!("stage {s} is shown with {tasks} tasks and ran with {count} | {desc}"));
            }
            let list = |p: &Arc<dyn ExecutionPlan>, only: Option<usize>| {
                let mut v = vec![];
                own_nodes(p, &mut v);
                // A producer's head is put on by the worker when it is asked for rows.
                if ["RepartitionExec", "BroadcastExec"].contains(&v[0].name()) {
                    v.remove(0);
                }
                v.iter()
                    .filter_map(|n| {
                        let ms = n.metrics().unwrap_or_default();
                        let b = bag(ms.iter().filter(|m| only.is_none() || task_of(m) == only).map(|m| if only.is_some() { without_task(m) } else { repr_metric(m, None) }));
                        (!b.is_empty()).then(|| (n.name().to_string(), b))
                    })
                    .collect::<Vec<_>>()
            };
            let (want, got) = (list(plan, None), list(top, Some(*task)));
            // Whatever stops early goes on counting for a moment, and some tasks are only sampled.
            if !drains {
                continue;
            }
            plans += 1;
            for i in 0..want.len().max(got.len()) {
                match (want.get(i), got.get(i)) {
                    (Some(a), Some(b)) if a.0 == b.0 || b.0 == "DistributedLeafExec" => {
                        if let Some(d) = bag_diff(&a.1, &b.1) {
                            return CaseResult::viol(format!("operator: {} {}", a.0, kind_of(&d)), format!("stage {s} task {task} operator {i}: {d} | {desc}"));
                        }
                        nodes += 1;
                        metrics += a.1.len() as u64;
                    }
                    (a, b) => {
                        return CaseResult::viol("operators", format!("stage {s} task {task} operator {i} with metrics: {:?} ran, {:?} is shown | {desc}", a.map(|x| &x.0), b.map(|x| &x.0)));
                    }
                }
            }
        }
    }
    if let Some(d) = known {
        return CaseResult::viol("union-coerced", format!("{d} | {desc}"));
    }
    let fp = mix(hash_str(&query.sql), shape_fp(&w.mon.log.lock().unwrap()));
    res.count("queries_distributed", 1)
        .count("metrics_compared", metrics)
        .count("nodes_compared", nodes)
        .count("nodes_still_recording", cuts)
        .count("merges_compared", merges)
        .count("worker_plans_compared", plans)
        .seen(fp)
        .sampled(json!({"sql": query.sql.chars().take(200).collect::<String>(), "metrics": metrics}))
}

/// Compares a percentile with the samples it was made of.
fn off_percentile(ms: &[&Made], q: f64, v: &MetricValue) -> Option<String> {
    let mut xs: Vec<usize> = ms
        .iter()
        .flat_map(|m| match &m.val {
            Val::Latency(_, _, xs) => xs.clone(),
            _ => vec![],
        })
        .collect();
    xs.sort_unstable();
    let v = v.as_usize() as f64;
    if xs.is_empty() {
        return (v != 0.0).then(|| format!("{v} of no samples"));
    }
    let at = q / 100.0 * (xs.len() - 1) as f64;
    let (lo, hi) = (xs[at.floor() as usize] as f64, xs[at.ceil() as usize] as f64);
    (v < lo * 0.975 - 1.0 || v > hi * 1.025 + 1.0).then(|| format!("p{q} of {xs:?} is said to be {v}"))
}

/// Compares lines of an explained plan with what the probes recorded.
fn check_text(text: &str, made: &BTreeMap<Key, Vec<Made>>, shifty: &BTreeSet<u64>, cut: &BTreeSet<u64>, per_task: bool, distributed: bool) -> Option<(String, String)> {
    for line in text.lines() {
        let Some(id) = probe_id(line).filter(|i| !shifty.contains(i) && !cut.contains(i)) else { continue };
        let metrics = line.split("metrics=[").nth(1).unwrap_or("");
        let mut by: BTreeMap<String, BTreeMap<usize, Vec<&Made>>> = BTreeMap::new();
        for (k, v) in made.iter().filter(|(k, _)| k.0 == id) {
            for m in v {
                by.entry(name_of(m)).or_default().entry(k.1).or_default().push(m);
            }
        }
        for (name, tasks) in by {
            let want = if per_task && distributed {
                let mut xs = vec![];
                for (t, ms) in &tasks {
                    match merged(ms) {
                        Some(v) => xs.push(format!("{t}:{v}")),
                        None => break,
                    }
                }
                if xs.len() != tasks.len() {
                    continue;
                }
                format!("{name}={{{}}}", xs.join(", "))
            } else {
                let all: Vec<&Made> = tasks.values().flatten().copied().collect();
                match merged(&all) {
                    Some(v) => format!("{name}={v}"),
                    None => continue,
                }
            };
            let found = metrics.match_indices(&want).any(|(i, _)| {
                let before = i == 0 || metrics[..i].ends_with(", ");
                let rest = &metrics[i + want.len()..];
                before && (rest.starts_with(", ") || rest.starts_with(']'))
            });
            if !found {
                return Some((format!("text: {}", name.trim_end_matches(|c: char| c.is_ascii_digit())), format!("probe {id} should show {want:?}, shows {line:?}")));
            }
        }
    }
    None
}

pub fn c18(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(metrics_case(ctx, r, false))
}
pub fn c24(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(metrics_case(ctx, r, true))
}
