//! Event log of all traffic crossing the worker channel interface, and the wrappers recording it
//! (and injecting delays and faults) around the real channels.
use async_trait::async_trait;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::{DataFusionError, Result, exec_datafusion_err};
use datafusion::execution::TaskContext;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::physical_plan::{ExecutionPlan, displayable};
use datafusion_distributed::*;
use futures::stream::BoxStream;
use futures::{Stream, StreamExt};
use http::HeaderMap;
use std::collections::HashMap;
use std::fmt::Debug;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};
use url::Url;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Caller {
    Coordinator,
    Worker(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EndState {
    Open,
    Ended,
    Errored,
    Dropped,
}

#[derive(Clone, Debug)]
pub struct CoordRec {
    pub seq: u64,
    pub caller: Caller,
    pub url: Url,
    pub key: TaskKey,
    pub task_count: usize,
    pub target_url: Url,
    pub plan: Option<String>,
    pub node: Option<Arc<dyn ExecutionPlan>>,
    pub plan_partitions: usize,
    pub feeds: Vec<(String, usize)>,
    pub headers: HeaderMap,
    pub accepted: Option<bool>,
    pub units: usize,
    pub unit_batches: usize,
    pub eos: usize,
    pub c2w: EndState,
    pub metrics_msgs: usize,
    pub load_infos: Vec<(usize, usize, bool)>,
    pub load_eos: usize,
    pub w2c: EndState,
}

#[derive(Clone, Debug)]
pub struct ExecRec {
    pub seq: u64,
    pub caller: Caller,
    pub url: Url,
    pub key: TaskKey,
    pub start: usize,
    pub end: usize,
    pub head: String,
    pub headers: HeaderMap,
    pub accepted: Option<bool>,
    pub parts: Vec<PartRec>,
}
#[derive(Clone, Debug)]
pub struct PartRec {
    pub rows: usize,
    pub batches: usize,
    pub bytes: usize,
    pub max_bytes: usize,
    pub state: EndState,
}

#[derive(Clone, Debug, Default)]
pub struct NetFaults {
    /// (probability in percent, max ms) delays before calls and between batches
    pub delay: Option<(u32, u64)>,
    /// fail the n-th execute_task call (0-based, in arrival order)
    pub fail_exec: Option<u64>,
    /// fail the n-th coordinator_channel call
    pub fail_coord: Option<u64>,
    /// in the n-th batch crossing any boundary, replace it by an error and end the stream
    pub fail_batch: Option<u64>,
    /// break the worker->coordinator stream of the n-th coordinator call with an error after it opened
    pub fail_w2c: Option<u64>,
}

#[derive(Default)]
pub struct Log {
    pub coord: Vec<CoordRec>,
    pub exec: Vec<ExecRec>,
    pub infos: usize,
}

pub struct Mon {
    pub seq: AtomicU64,
    pub beat: Arc<AtomicU64>,
    pub log: Mutex<Log>,
    pub faults: Mutex<NetFaults>,
    pub faults_fired: AtomicU64,
    pub rnd: AtomicU64,
    pub n_exec: AtomicU64,
    pub n_coord: AtomicU64,
    pub n_batch: AtomicU64,
    pub start: Instant,
    /// plans decoded on workers: (query id is not visible to the handler, so keyed by nothing)
    pub worker_plans: Mutex<Vec<String>>,
    pub capture_plans: bool,
    /// how many nanoseconds the coordinator's clock is ahead of the workers'
    pub skew: AtomicU64,
}

impl Mon {
    pub fn new(beat: Arc<AtomicU64>, seed: u64) -> Arc<Self> {
        Arc::new(Mon {
            seq: AtomicU64::new(0),
            beat,
            log: Default::default(),
            faults: Default::default(),
            faults_fired: AtomicU64::new(0),
            rnd: AtomicU64::new(seed | 1),
            n_exec: AtomicU64::new(0),
            n_coord: AtomicU64::new(0),
            n_batch: AtomicU64::new(0),
            start: Instant::now(),
            worker_plans: Default::default(),
            capture_plans: true,
            skew: AtomicU64::new(0),
        })
    }
    pub fn tick(&self) -> u64 {
        self.beat.fetch_add(1, Ordering::Relaxed);
        self.seq.fetch_add(1, Ordering::Relaxed)
    }
    pub fn rnd(&self) -> u64 {
        let s = self.rnd.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed);
        crate::core::mix(s, 3)
    }
    fn delay(&self) -> Option<Duration> {
        let (p, ms) = self.faults.lock().unwrap().delay?;
        (self.rnd() % 100 < p as u64).then(|| Duration::from_micros(self.rnd() % (ms * 1000 + 1)))
    }
    fn fire(&self) {
        self.faults_fired.fetch_add(1, Ordering::SeqCst);
    }
    pub fn clear(&self) {
        *self.log.lock().unwrap() = Log::default();
        self.worker_plans.lock().unwrap().clear();
    }
}

pub fn plan_str(p: &Arc<dyn ExecutionPlan>) -> String {
    displayable(p.as_ref()).set_show_schema(true).indent(true).to_string()
}

/// Wraps any channel resolver. `inner` makes the real channel.
pub struct MonResolver<R> {
    pub inner: R,
    pub caller: Caller,
    pub mon: Arc<Mon>,
}

#[async_trait]
impl<R: ChannelResolver + Send + Sync> ChannelResolver for MonResolver<R> {
    async fn get_worker_client_for_url(&self, url: &Url) -> Result<Box<dyn WorkerChannel>, DataFusionError> {
        self.mon.tick();
        let inner = self.inner.get_worker_client_for_url(url).await?;
        Ok(Box::new(MonChannel { inner, caller: self.caller, url: url.clone(), mon: Arc::clone(&self.mon) }))
    }
}

/// Marks what was not handed out by a call as gone when the call fails or is dropped.
struct CallGuard {
    mon: Arc<Mon>,
    coord: bool,
    i: usize,
    seq: u64,
    done: bool,
}
impl Drop for CallGuard {
    fn drop(&mut self) {
        if self.done {
            return;
        }
        let mut l = self.mon.log.lock().unwrap();
        if self.coord {
            if let Some(r) = l.coord.get_mut(self.i).filter(|r| r.seq == self.seq) {
                if r.w2c == EndState::Open {
                    r.w2c = EndState::Dropped
                }
                if r.accepted == Some(false) && r.c2w == EndState::Open {
                    r.c2w = EndState::Dropped
                }
            }
        } else if let Some(r) = l.exec.get_mut(self.i).filter(|r| r.seq == self.seq) {
            for p in &mut r.parts {
                if p.state == EndState::Open {
                    p.state = EndState::Dropped
                }
            }
        }
    }
}

pub struct MonChannel {
    inner: Box<dyn WorkerChannel>,
    caller: Caller,
    url: Url,
    mon: Arc<Mon>,
}

struct Watch<S> {
    inner: S,
    done: bool,
    on: Box<dyn FnMut(EndState) + Send>,
}
impl<S> Drop for Watch<S> {
    fn drop(&mut self) {
        if !self.done {
            (self.on)(EndState::Dropped)
        }
    }
}
impl<T, S: Stream<Item = T> + Unpin> Stream for Watch<S> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let r = Pin::new(&mut self.inner).poll_next(cx);
        if let Poll::Ready(None) = r {
            if !self.done {
                self.done = true;
                (self.on)(EndState::Ended)
            }
        }
        r
    }
}

#[async_trait]
impl WorkerChannel for MonChannel {
    async fn coordinator_channel(
        &mut self,
        headers: HeaderMap,
        mut req: SetPlanRequest,
        c2w: BoxStream<'static, CoordinatorToWorkerMsg>,
        metrics: ExecutionPlanMetricsSet,
        task_ctx: &Arc<TaskContext>,
    ) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
        let mon = Arc::clone(&self.mon);
        let (plan, node, parts) = match &req.plan {
            MaybeEncoded::Decoded(p) => (
                mon.capture_plans.then(|| plan_str(p)),
                mon.capture_plans.then(|| Arc::clone(p)),
                p.properties().output_partitioning().partition_count(),
            ),
            _ => (None, None, 0),
        };
        let skew = mon.skew.load(Ordering::Relaxed) as usize;
        req.query_start_time_ns += skew;
        let n = mon.n_coord.fetch_add(1, Ordering::SeqCst);
        let rec = CoordRec {
            seq: mon.tick(),
            caller: self.caller,
            url: self.url.clone(),
            key: req.task_key,
            task_count: req.task_count,
            target_url: req.target_worker_url.clone(),
            plan,
            node,
            plan_partitions: parts,
            feeds: req.work_unit_feed_declarations.iter().map(|d| (d.id.to_string(), d.partitions)).collect(),
            headers: headers.clone(),
            accepted: None,
            units: 0,
            unit_batches: 0,
            eos: 0,
            c2w: EndState::Open,
            metrics_msgs: 0,
            load_infos: vec![],
            load_eos: 0,
            w2c: EndState::Open,
        };
        let seq = rec.seq;
        let i = {
            let mut l = mon.log.lock().unwrap();
            l.coord.push(rec);
            l.coord.len() - 1
        };
        let mut guard = CallGuard { mon: Arc::clone(&mon), coord: true, i, seq, done: false };
        macro_rules! upd {
            ($m:expr, $i:expr, |$r:ident| $b:expr) => {{
                $m.tick();
                if let Some($r) = $m.log.lock().unwrap().coord.get_mut($i).filter(|r| r.seq == seq) {
                    $b
                }
            }};
        }
        let m2 = Arc::clone(&mon);
        let m3 = Arc::clone(&mon);
        let c2w = Watch { inner: c2w, done: false, on: Box::new(move |s| upd!(m2, i, |r| r.c2w = s)) }
            .map(move |mut m| {
                if let (true, CoordinatorToWorkerMsg::WorkUnitBatch(b)) = (skew != 0, &mut m) {
                    for u in &mut b.batch {
                        u.created_timestamp_unix_nanos += skew;
                        u.sent_timestamp_unix_nanos += skew;
                    }
                }
                m
            })
            .inspect(move |m| {
                upd!(m3, i, |r| match m {
                    CoordinatorToWorkerMsg::WorkUnitBatch(b) => {
                        r.units += b.batch.len();
                        r.unit_batches += 1;
                    }
                    CoordinatorToWorkerMsg::WorkUnitEos => r.eos += 1,
                })
            })
            .boxed();
        if let Some(d) = mon.delay() {
            tokio::time::sleep(d).await;
        }
        let faults = mon.faults.lock().unwrap().clone();
        if faults.fail_coord == Some(n) {
            mon.fire();
            upd!(mon, i, |r| r.accepted = Some(false));
            return Err(exec_datafusion_err!("injected coordinator channel failure"));
        }
        let res = self.inner.coordinator_channel(headers, req, c2w, metrics, task_ctx).await;
        upd!(mon, i, |r| r.accepted = Some(res.is_ok()));
        let w2c = res?;
        guard.done = true;
        let m2 = Arc::clone(&mon);
        let m3 = Arc::clone(&mon);
        let w2c = Watch { inner: w2c, done: false, on: Box::new(move |s| upd!(m2, i, |r| if r.w2c == EndState::Open { r.w2c = s })) }
            .inspect(move |m| {
                upd!(m3, i, |r| match m {
                    Ok(WorkerToCoordinatorMsg::TaskMetrics(_)) => r.metrics_msgs += 1,
                    Ok(WorkerToCoordinatorMsg::LoadInfo(l)) => r.load_infos.push((l.partition, l.rows_ready, l.reached_eos)),
                    Ok(WorkerToCoordinatorMsg::LoadInfoEos) => r.load_eos += 1,
                    Err(_) => r.w2c = EndState::Errored,
                })
            })
            .boxed();
        if faults.fail_w2c == Some(n) {
            mon.fire();
            // The connection breaks right after having been opened.
            return Ok(futures::stream::once(async {
                tokio::time::sleep(Duration::from_millis(2)).await;
                Err(exec_datafusion_err!("injected worker to coordinator failure"))
            })
            .chain(w2c)
            .boxed());
        }
        Ok(w2c)
    }

    async fn execute_task(
        &mut self,
        headers: HeaderMap,
        req: ExecuteTaskRequest,
        metrics: ExecutionPlanMetricsSet,
        task_ctx: &Arc<TaskContext>,
    ) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> {
        let mon = Arc::clone(&self.mon);
        let n = mon.n_exec.fetch_add(1, Ordering::SeqCst);
        let rec = ExecRec {
            seq: mon.tick(),
            caller: self.caller,
            url: self.url.clone(),
            key: req.task_key,
            start: req.target_partition_start,
            end: req.target_partition_end,
            head: head_str(&req.producer_head),
            headers: headers.clone(),
            accepted: None,
            parts: vec![
                PartRec { rows: 0, batches: 0, bytes: 0, max_bytes: 0, state: EndState::Open };
                req.target_partition_end.saturating_sub(req.target_partition_start)
            ],
        };
        let seq = rec.seq;
        let i = {
            let mut l = mon.log.lock().unwrap();
            l.exec.push(rec);
            l.exec.len() - 1
        };
        let mut guard = CallGuard { mon: Arc::clone(&mon), coord: false, i, seq, done: false };
        if let Some(d) = mon.delay() {
            tokio::time::sleep(d).await;
        }
        let set = |mon: &Mon, ok: bool| {
            if let Some(r) = mon.log.lock().unwrap().exec.get_mut(i).filter(|r| r.seq == seq) {
                r.accepted = Some(ok)
            }
        };
        let faults = mon.faults.lock().unwrap().clone();
        if faults.fail_exec == Some(n) {
            mon.fire();
            set(&mon, false);
            return Err(exec_datafusion_err!("injected execute failure"));
        }
        let res = self.inner.execute_task(headers, req, metrics, task_ctx).await;
        mon.tick();
        set(&mon, res.is_ok());
        let streams = res?;
        guard.done = true;
        Ok(streams
            .into_iter()
            .enumerate()
            .map(|(p, s)| {
                let m2 = Arc::clone(&mon);
                let w = Watch {
                    inner: s,
                    done: false,
                    on: Box::new(move |st| {
                        m2.tick();
                        if let Some(pr) = m2.log.lock().unwrap().exec.get_mut(i).filter(|r| r.seq == seq).and_then(|r| r.parts.get_mut(p)) {
                            if pr.state == EndState::Open {
                                pr.state = st
                            }
                        }
                    }),
                };
                let mon = Arc::clone(&mon);
                let fail_batch = faults.fail_batch;
                let delays = faults.delay.is_some();
                futures::stream::unfold((w, false), move |(mut w, failed)| {
                    let mon = Arc::clone(&mon);
                    async move {
                        if failed {
                            return None;
                        }
                        let item = w.next().await?;
                        if delays {
                            if let Some(d) = mon.delay() {
                                tokio::time::sleep(d).await;
                            }
                        }
                        mon.tick();
                        match item {
                            Ok(b) => {
                                let k = mon.n_batch.fetch_add(1, Ordering::SeqCst);
                                if fail_batch == Some(k) {
                                    mon.fire();
                                    return Some((Err(exec_datafusion_err!("injected batch failure")), (w, true)));
                                }
                                if let Some(pr) = mon.log.lock().unwrap().exec.get_mut(i).filter(|r| r.seq == seq).and_then(|r| r.parts.get_mut(p)) {
                                    let by = b.get_array_memory_size();
                                    pr.rows += b.num_rows();
                                    pr.batches += 1;
                                    pr.bytes += by;
                                    pr.max_bytes = pr.max_bytes.max(by);
                                }
                                Some((Ok(b), (w, false)))
                            }
                            Err(e) => {
                                if let Some(pr) = mon.log.lock().unwrap().exec.get_mut(i).filter(|r| r.seq == seq).and_then(|r| r.parts.get_mut(p)) {
                                    pr.state = EndState::Errored;
                                }
                                Some((Err(e), (w, false)))
                            }
                        }
                    }
                })
                .boxed()
            })
            .collect())
    }

    async fn get_worker_info(&mut self, request: GetWorkerInfoRequest) -> Result<GetWorkerInfoResponse> {
        self.mon.log.lock().unwrap().infos += 1;
        self.inner.get_worker_info(request).await
    }
}

pub fn head_str(h: &ProducerHead) -> String {
    match h {
        ProducerHead::None => "none".into(),
        ProducerHead::BroadcastExec { output_partitions } => format!("broadcast({output_partitions})"),
        #[allow(unreachable_patterns)]
        ProducerHead::RepartitionExec { partitioning } => match partitioning {
            MaybeEncoded::Decoded(p) => format!("repartition({p})"),
            MaybeEncoded::Encoded(v) => format!("repartition(enc {})", v.len()),
        },
    }
}

/// Offline checker of the dispatch trace. Returns a violation text.
/// `local` is the URL index that the coordinator reaches without the channel (co-located worker).
pub fn check_dispatch(log: &Log, urls: &[Url], success: bool, adaptive: bool) -> Option<(String, String)> {
    let mut by_key: HashMap<TaskKey, Vec<&CoordRec>> = HashMap::new();
    for c in &log.coord {
        by_key.entry(c.key).or_default().push(c);
        if c.caller != Caller::Coordinator {
            return Some(("plan-from-worker".into(), format!("a worker sent a plan: {:?} {:?}", c.caller, c.key)));
        }
        if c.url != c.target_url {
            return Some(("plan-wrong-url".into(), format!("task {:?} declared for {} but sent to {}", c.key, c.target_url, c.url)));
        }
        if !urls.contains(&c.url) {
            return Some(("plan-unknown-url".into(), format!("task {:?} sent to unknown {}", c.key, c.url)));
        }
        if c.key.task_number >= c.task_count {
            return Some(("task-number-range".into(), format!("task {:?} of {}", c.key, c.task_count)));
        }
        if c.eos > 1 {
            return Some(("feed-eos-twice".into(), format!("{} feed ends sent to {:?}", c.eos, c.key)));
        }
    }
    for (k, v) in &by_key {
        if v.len() > 1 {
            return Some(("task-planned-twice".into(), format!("task {k:?} got {} plans", v.len())));
        }
    }
    // all tasks of a stage were sent, with the same task count
    let mut stages: HashMap<(uuid::Uuid, usize), Vec<&CoordRec>> = HashMap::new();
    for c in &log.coord {
        stages.entry((c.key.query_id, c.key.stage_id)).or_default().push(c);
    }
    for ((_, s), v) in &stages {
        let n = v[0].task_count;
        if v.iter().any(|c| c.task_count != n) {
            return Some(("stage-task-count".into(), format!("stage {s} announced different task counts")));
        }
        let seen: std::collections::BTreeSet<usize> = v.iter().map(|c| c.key.task_number).collect();
        if success && seen.len() != n {
            return Some(("stage-incomplete".into(), format!("stage {s} has {n} tasks, but only {seen:?} were dispatched")));
        }
    }
    // consumers read each task from where it was sent; each (task, partition) requested at most once
    let mut read: HashMap<(TaskKey, usize), &ExecRec> = HashMap::new();
    for e in &log.exec {
        if let Some(c) = by_key.get(&e.key).and_then(|v| v.first()) {
            if c.url != e.url {
                return Some(("read-wrong-worker".into(), format!("task {:?} was sent to {} but is read from {}", e.key, c.url, e.url)));
            }
        }
        for p in e.start..e.end {
            if let Some(o) = read.insert((e.key, p), e) {
                return Some((
                    "partition-read-twice".into(),
                    format!("task {:?} partition {p} requested by {:?} ({}..{}) and {:?} ({}..{})", e.key, o.caller, o.start, o.end, e.caller, e.start, e.end),
                ));
            }
        }
    }
    let _ = adaptive;
    None
}

/// Fingerprint of the shape of the traffic: which stages/tasks/partition ranges, not timing.
pub fn shape_fp(log: &Log) -> u64 {
    let mut v: Vec<String> = log.coord.iter().map(|c| format!("c{}/{}/{}", c.key.stage_id, c.key.task_number, c.task_count)).collect();
    v.extend(log.exec.iter().map(|e| format!("e{}/{}:{}-{}:{}", e.key.stage_id, e.key.task_number, e.start, e.end, e.head.len())));
    v.sort();
    crate::core::hash_str(&v.join(";"))
}

/// Order in which channel events happened (schedule fingerprint).
pub fn order_fp(log: &Log) -> u64 {
    let mut v: Vec<(u64, String)> = log.coord.iter().map(|c| (c.seq, format!("c{}/{}", c.key.stage_id, c.key.task_number))).collect();
    v.extend(log.exec.iter().map(|e| (e.seq, format!("e{}/{}", e.key.stage_id, e.key.task_number))));
    v.sort();
    crate::core::hash_str(&v.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(";"))
}

pub fn dbg_short(v: &impl Debug) -> String {
    format!("{v:?}").chars().take(600).collect()
}

pub fn dump_log(l: &Log) -> String {
    let mut s = String::new();
    for c in &l.coord {
        s += &format!("coord seq={} stage={} task={}/{} url={} acc={:?} c2w={:?} w2c={:?} loads={:?} metrics={} units={}\n",
            c.seq, c.key.stage_id, c.key.task_number, c.task_count, c.url, c.accepted, c.c2w, c.w2c, c.load_infos, c.metrics_msgs, c.units);
        if let Some(p) = &c.plan {
            s += p;
        }
    }
    for e in &l.exec {
        s += &format!("exec seq={} {:?} -> {} stage={} task={} parts={}..{} head={} acc={:?} {}\n",
            e.seq, e.caller, e.url, e.key.stage_id, e.key.task_number, e.start, e.end, e.head, e.accepted,
            e.parts.iter().map(|p| format!("{:?}:{}r/{}b", p.state, p.rows, p.bytes)).collect::<Vec<_>>().join(" "));
    }
    s
}
