//! C25: what workers say about themselves to whoever monitors the cluster.
use super::query::random_cluster;
use crate::cluster::*;
use crate::core::*;
use crate::leaf::*;
use crate::mon::*;
use crate::qcfg::*;
use crate::world::*;
use datafusion::arrow::array::*;
use datafusion::arrow::datatypes::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::Result;
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::logical_expr::Operator;
use datafusion::physical_expr::expressions::{BinaryExpr, Column, Literal};
use datafusion::physical_expr::{Partitioning, PhysicalExpr};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::filter::FilterExec;
use datafusion::physical_plan::projection::{ProjectionExec, ProjectionExpr};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::*;
use datafusion_distributed::grpc::*;
use datafusion_distributed::*;
use futures::StreamExt;
use futures::future::BoxFuture;
use rand::Rng;
use rand::rngs::StdRng;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::watch;

/// Passes its input through and, having read all of it, waits to be released. Never leaves the coordinator.
#[derive(Debug)]
struct HoldExec {
    input: Arc<dyn ExecutionPlan>,
    at_end: Arc<AtomicBool>,
    release: watch::Receiver<bool>,
}
impl DisplayAs for HoldExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "HoldExec")
    }
}
impl ExecutionPlan for HoldExec {
    fn name(&self) -> &str {
        "HoldExec"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        self.input.properties()
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![&self.input]
    }
    fn with_new_children(self: Arc<Self>, mut c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(HoldExec { input: c.remove(0), at_end: Arc::clone(&self.at_end), release: self.release.clone() }))
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<datafusion::common::tree_node::TreeNodeRecursion>) -> Result<datafusion::common::tree_node::TreeNodeRecursion> {
        Ok(datafusion::common::tree_node::TreeNodeRecursion::Continue)
    }
    fn execute(&self, p: usize, ctx: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let inner = self.input.execute(p, ctx)?;
        let (at_end, mut rel) = (Arc::clone(&self.at_end), self.release.clone());
        let tail = futures::stream::once(async move {
            at_end.store(true, Ordering::SeqCst);
            let _ = rel.wait_for(|x| *x).await;
        })
        .filter_map(|_| async { None });
        Ok(Box::pin(RecordBatchStreamAdapter::new(self.schema(), inner.chain(tail))))
    }
}

struct Build<'a> {
    r: &'a mut StdRng,
    ctx: Arc<CaseCtx>,
    tables: Vec<Arc<TableData>>,
    total: u64,
    max_tasks: usize,
    broadcasts: u64,
    slow: bool,
    desc: String,
}
impl Build<'_> {
    /// A stage's plan and the rows that all of its tasks produce.
    fn stage(&mut self, tasks: usize, depth: usize) -> (Arc<dyn ExecutionPlan>, u64) {
        if depth == 0 {
            let n = self.tables.len() as i64;
            let mut rows = 0u64;
            let chunks: Vec<Vec<RecordBatch>> = (0..self.r.random_range(1..8))
                .map(|_| {
                    (0..self.r.random_range(0..4))
                        .map(|_| {
                            let k = pick(self.r, &[1usize, 2, 9, 40, 200]);
                            rows += k as u64;
                            crate::data::gen_batch(self.r, n * 100_000 + rows as i64 - k as i64, k, 12, false)
                        })
                        .collect()
                })
                .collect();
            let nchunks = chunks.len();
            let mut t = TableData::new(&format!("w{n}"), crate::data::schema(), chunks, Arc::clone(&self.ctx.beat));
            t.n_parts = self.r.random_range(1..4);
            t.keep_parts = self.r.random_bool(0.6);
            if self.slow {
                for chunk in 0..nchunks {
                    t.faults.lock().unwrap().push(Fault { chunk, batch: 0, kind: FaultKind::SleepMs(pick(self.r, &[1, 5, 20])) });
                }
            }
            let t = t.register();
            self.tables.push(Arc::clone(&t));
            self.desc += &format!("leaf({rows} rows)");
            self.total += rows;
            return (Arc::new(MonExec::whole(t, None, None)), rows);
        }
        let producers = self.r.random_range(1..=self.max_tasks);
        let (inner, rows) = self.stage(producers, depth - 1);
        let inner: Arc<dyn ExecutionPlan> = if self.r.random_bool(0.5) {
            let e = BinaryExpr::new(Arc::new(Column::new("id", 0)), Operator::GtEq, Arc::new(Literal::new(0i64.into())));
            Arc::new(FilterExec::try_new(Arc::new(e), inner).unwrap())
        } else {
            let e: Vec<ProjectionExpr> = inner
                .schema()
                .fields()
                .iter()
                .enumerate()
                .map(|(i, f)| ProjectionExpr { expr: Arc::new(Column::new(f.name(), i)) as Arc<dyn PhysicalExpr>, alias: f.name().clone() })
                .collect();
            Arc::new(ProjectionExec::try_new(e, inner).unwrap())
        };
        match self.r.random_range(0..5) {
            0 | 1 => {
                let parts = self.r.random_range(1..6);
                self.desc += &format!(" >{producers} shuffle {parts} {tasks}>");
                let e = vec![Arc::new(Column::new("k", 1)) as Arc<dyn PhysicalExpr>];
                let rep = RepartitionExec::try_new(inner, Partitioning::Hash(e, parts)).unwrap();
                (Arc::new(NetworkShuffleExec::try_new(Arc::new(rep), producers).unwrap()), rows)
            }
            2 | 3 => {
                self.desc += &format!(" >{producers} coalesce {tasks}>");
                (Arc::new(NetworkCoalesceExec::try_new(inner, producers, tasks).unwrap()), rows)
            }
            _ => {
                self.desc += &format!(" >{producers} broadcast {tasks}>");
                self.broadcasts += 1;
                (Arc::new(NetworkBroadcastExec::try_new(Arc::new(BroadcastExec::new(inner, 1)), producers).unwrap()), rows * tasks as u64)
            }
        }
    }
}

type Key = (Vec<u8>, u64, u64);
fn key_of(k: &TaskKey) -> Key {
    (k.query_id.as_bytes().to_vec(), k.stage_id as u64, k.task_number as u64)
}
fn show(k: &Key) -> String {
    format!("{}/{}/{}", uuid::Uuid::from_slice(&k.0).map(|u| u.to_string()).unwrap_or(format!("{:?}", k.0)), k.1, k.2)
}

struct Watcher {
    /// (answers are only in order if questions are)
    clients: Vec<tokio::sync::Mutex<ObservabilityServiceClient<BoxCloneSyncChannel>>>,
    urls: Vec<url::Url>,
    mon: Arc<Mon>,
    last: Mutex<HashMap<(usize, Key), u64>>,
    bad: Mutex<Option<(String, String)>>,
    polls: AtomicU64,
    seen: AtomicU64,
    moved: AtomicU64,
}
impl Watcher {
    fn fail(&self, sig: &str, d: String) {
        self.bad.lock().unwrap().get_or_insert((sig.into(), d));
    }
    /// Asks worker `i`; what it lists must be its own tasks, once each, and rows never go back.
    async fn ask(&self, i: usize) -> Option<BTreeMap<Key, u64>> {
        let mut c = self.clients[i].lock().await;
        let res = match tokio::time::timeout(Duration::from_secs(15), c.get_task_progress(GetTaskProgressRequest {})).await {
            Ok(Ok(r)) => r.into_inner(),
            Ok(Err(e)) => {
                self.fail("progress-refused", format!("worker {i}: {e}"));
                return None;
            }
            Err(_) => {
                self.fail("progress-hangs", format!("worker {i} does not answer within 15 s"));
                return None;
            }
        };
        self.polls.fetch_add(1, Ordering::SeqCst);
        let mine: HashSet<Key> = self.mon.log.lock().unwrap().coord.iter().filter(|c| c.url == self.urls[i]).map(|c| key_of(&c.key)).collect();
        let mut out = BTreeMap::new();
        for t in res.tasks {
            let Some(k) = t.task_key else {
                self.fail("progress-without-key", format!("worker {i} lists a task without a key"));
                continue;
            };
            let k: Key = (k.query_id, k.stage_id, k.task_number);
            if t.status != TaskStatus::Running as i32 {
                self.fail("progress-status", format!("worker {i}: task {} has status {}", show(&k), t.status));
            }
            if !mine.contains(&k) {
                self.fail("progress-foreign", format!("worker {i} lists {}, which it was never sent", show(&k)));
            }
            let mut l = self.last.lock().unwrap();
            let e = l.entry((i, k.clone())).or_insert(0);
            if t.output_rows < *e {
                self.fail("progress-backwards", format!("worker {i}: task {} went from {} rows to {}", show(&k), e, t.output_rows));
            }
            if t.output_rows > *e {
                self.moved.fetch_add(1, Ordering::SeqCst);
            }
            *e = t.output_rows;
            self.seen.fetch_add(1, Ordering::SeqCst);
            if out.insert(k.clone(), t.output_rows).is_some() {
                self.fail("progress-twice", format!("worker {i} lists {} twice", show(&k)));
            }
        }
        Some(out)
    }
}

async fn watch_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let mut ccfg = random_cluster(&mut r);
    ccfg.no_shortcut = true;
    ccfg.observe = true;
    ccfg.version = pick(&mut r, &[None, Some("2.0.0"), Some(""), Some("a b\tc"), Some("versión-✓"), Some(" x ")]).map(|s| s.to_string());
    let mut q = QCfg::base();
    q.compression = r.random_range(0..3);
    q.shuffle_batch = pick(&mut r, &[0, 0, 1, 20]);
    q.metrics = r.random_bool(0.5);
    let w = World::new(&ctx, &mut r, vec![], ccfg, q).await;
    let cl = &w.cluster;
    let net = DuplexResolver::new(Arc::clone(&cl.net));
    let tcp = DefaultChannelResolver::default();
    let mut channels = vec![];
    for u in &cl.urls {
        channels.push(match cl.cfg.transport {
            Transport::Duplex(_) => net.channel(u).unwrap(),
            Transport::Tcp => match tcp.get_channel(u).await {
                Ok(c) => c,
                Err(e) => return CaseResult::inconclusive(format!("connect: {}", err_short(&e))),
            },
        });
    }
    let wt = Arc::new(Watcher {
        clients: channels.iter().map(|c| tokio::sync::Mutex::new(ObservabilityServiceClient::new(c.clone()))).collect(),
        urls: cl.urls.clone(),
        mon: Arc::clone(&w.mon),
        last: Default::default(),
        bad: Default::default(),
        polls: Default::default(),
        seen: Default::default(),
        moved: Default::default(),
    });
    // Who they are and whom they know.
    let mut asked = 0u64;
    for (i, c) in channels.iter().enumerate() {
        let want = cl.cfg.version.clone().unwrap_or_default();
        match create_worker_client(c.clone()).get_worker_info(GetWorkerInfoRequest {}).await {
            Ok(v) if v.version == want => {}
            Ok(v) => return CaseResult::viol("version", format!("worker {i} was built with version {want:?} and says {:?}", v.version)),
            Err(e) => return CaseResult::viol("version-refused", err_short(&e)),
        }
        let mut o = wt.clients[i].lock().await;
        match o.ping(PingRequest {}).await {
            Ok(_) => {}
            Err(e) => return CaseResult::viol("ping", format!("worker {i}: {e}")),
        }
        for round in 0..3 {
            let urls: std::result::Result<Vec<url::Url>, String> = match (round, r.random_range(0..4)) {
                (0, _) => Ok(cl.urls.clone()),
                (_, 0) => Err(format!("no workers known {}", r.random_range(0..1000))),
                (_, n) => Ok((0..(n - 1) * 3).map(|j| url::Url::parse(&format!("http://other{j}.test:{}/x?y={n}", 1000 + r.random_range(0..100))).unwrap()).collect()),
            };
            *cl.obs.0.lock().unwrap() = urls.clone();
            let got = o.get_cluster_workers(GetClusterWorkersRequest {}).await.map(|x| x.into_inner().worker_urls);
            asked += 1;
            match (&urls, &got) {
                (Ok(u), Ok(g)) if u.iter().map(|u| u.to_string()).collect::<Vec<_>>() == *g => {}
                (Err(e), Err(s)) if s.message().contains(e.as_str()) => {}
                _ => return CaseResult::viol("cluster-workers", format!("worker {i}: the resolver says {urls:?}, the worker {got:?}")),
            }
        }
    }
    // One to three queries, all held before they end.
    let nq = pick(&mut r, &[1, 1, 2, 3]);
    struct Unreg(Vec<u64>);
    impl Drop for Unreg {
        fn drop(&mut self) {
            for t in &self.0 {
                unregister(*t)
            }
        }
    }
    let mut un = Unreg(vec![]);
    let mut desc = String::new();
    let (release, rx) = watch::channel(false);
    let mut queries = vec![];
    for _ in 0..nq {
        let max_tasks = pick(&mut r, &[1, 2, 3, 5]);
        let depth = r.random_range(1..4);
        let slow = r.random_bool(0.7);
        let mut b = Build { r: &mut r, ctx: Arc::clone(&ctx), tables: vec![], total: 0, max_tasks, broadcasts: 0, slow, desc: String::new() };
        let (top, rows) = b.stage(1, depth);
        desc += &format!("[{}] ", b.desc);
        un.0.extend(b.tables.iter().map(|t| t.id));
        let at_end = Arc::new(AtomicBool::new(false));
        let top: Arc<dyn ExecutionPlan> = if top.output_partitioning().partition_count() > 1 { Arc::new(CoalescePartitionsExec::new(top)) } else { top };
        let top: Arc<dyn ExecutionPlan> = Arc::new(HoldExec { input: top, at_end: Arc::clone(&at_end), release: rx.clone() });
        queries.push((top, rows, at_end));
    }
    let desc = format!("{desc}| workers={} {:?} cfg={:?}", cl.cfg.workers, cl.cfg.transport, w.q);
    ctx.note(desc.clone());
    let stop = Arc::new(AtomicBool::new(false));
    let poller = {
        let (wt, stop, n) = (Arc::clone(&wt), Arc::clone(&stop), cl.urls.len());
        let pause = pick(&mut r, &[0u64, 200, 2000]);
        tokio::spawn(async move {
            let mut i = 0;
            while !stop.load(Ordering::SeqCst) {
                wt.ask(i % n).await;
                i += 1;
                tokio::time::sleep(Duration::from_micros(pause + 50)).await;
            }
        })
    };
    let mut runs = vec![];
    for (top, rows, at_end) in &queries {
        let hook = |b: datafusion::execution::SessionStateBuilder| Ok(crate::tap::with_fixed_plan(b, Arc::clone(top)));
        let dc = match w.distributed_with(&hook).await {
            Ok(c) => c,
            Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
        };
        let plan = match plan_of(&dc, "select 1").await {
            Ok(p) => p,
            Err(e) => return CaseResult::viol("planning-failed", format!("{} | {desc}", err_short(&e))),
        };
        if ctx.verbose {
            eprintln!("{}", plan_str(&plan));
        }
        let drop_early = r.random_bool(0.15);
        let (rows, at_end, task) = (*rows, Arc::clone(at_end), dc.task_ctx());
        let (tell, told) = tokio::sync::oneshot::channel::<()>();
        let h = tokio::spawn(async move {
            let mut s = plan.execute(0, task)?;
            let mut have = 0u64;
            if drop_early {
                let _ = told.await;
                drop(s);
                return Ok(None);
            }
            let _keep = told;
            while let Some(b) = s.next().await {
                have += b?.num_rows() as u64;
            }
            Ok::<_, datafusion::common::DataFusionError>(Some(have))
        });
        runs.push((h, rows, at_end, drop_early, Some(tell)));
    }
    // The queries that are read get to their end and stay there.
    let at_end = eventually(Duration::from_secs(30), || runs.iter().all(|x| x.3 || x.2.load(Ordering::SeqCst) || x.0.is_finished())).await;
    if !at_end {
        stop.store(true, Ordering::SeqCst);
        return CaseResult::viol("held-query-stuck", format!("a query does not get to its last row within 30 s | {desc}\n{}", dump_log(&w.mon.log.lock().unwrap())));
    }
    let early = runs.iter().any(|x| x.3);
    let mut exact = 0u64;
    let mut listed = 0usize;
    let mut tries = 0;
    let problem = loop {
        // (tasks, and rows delivered by each)
        let before: Vec<(usize, Key)> = {
            let l = w.mon.log.lock().unwrap();
            l.coord.iter().map(|c| (cl.urls.iter().position(|u| *u == c.url).unwrap_or(usize::MAX), key_of(&c.key))).collect()
        };
        let mut problem = None;
        let mut got = vec![];
        for i in 0..cl.urls.len() {
            got.push(wt.ask(i).await.unwrap_or_default());
        }
        let mut delivered: HashMap<Key, u64> = HashMap::new();
        let mut broadcast: HashSet<Key> = HashSet::new();
        for e in &w.mon.log.lock().unwrap().exec {
            *delivered.entry(key_of(&e.key)).or_default() += e.parts.iter().map(|p| p.rows as u64).sum::<u64>();
            if e.head.starts_with("broadcast") {
                broadcast.insert(key_of(&e.key));
            }
        }
        exact = 0;
        listed = got.iter().map(|g| g.len()).sum();
        for i in 0..cl.urls.len() {
            let want: BTreeSet<&Key> = before.iter().filter(|b| b.0 == i).map(|b| &b.1).collect();
            let have: BTreeSet<&Key> = got[i].keys().collect();
            if want != have {
                let a: Vec<String> = want.difference(&have).map(|k| show(k)).collect();
                let b: Vec<String> = have.difference(&want).map(|k| show(k)).collect();
                problem = Some(("progress-incomplete", format!("worker {i}: running and not listed {a:?}, listed and not running {b:?}")));
            }
            for (k, rows) in &got[i] {
                // A broadcasting head does not count what it sends.
                if broadcast.contains(k) {
                    continue;
                }
                exact += 1;
                let want = delivered.get(k).copied().unwrap_or(0);
                if *rows != want && !early {
                    problem = Some(("progress-rows", format!("worker {i}: task {} delivered {want} rows and shows {rows}", show(k))));
                }
            }
        }
        match problem {
            Some(p) if tries > 60 => break Some(p),
            Some(_) => {
                tries += 1;
                tokio::time::sleep(Duration::from_millis(50)).await
            }
            None => break None,
        }
    };
    if let Some((sig, d)) = problem {
        stop.store(true, Ordering::SeqCst);
        return CaseResult::viol(sig, format!("{d} | {desc}"));
    }
    // All of it ends.
    release.send_replace(true);
    let mut rows_ok = 0;
    for (h, want, _, early, tell) in &mut runs {
        drop(tell.take());
        match tokio::time::timeout(Duration::from_secs(30), h).await {
            Ok(Ok(Ok(Some(n)))) if n == *want => rows_ok += 1,
            Ok(Ok(Ok(None))) if *early => {}
            Ok(Ok(Ok(n))) => return CaseResult::viol("watched-rows", format!("{n:?} rows instead of {want} | {desc}")),
            Ok(Ok(Err(e))) => return CaseResult::viol("watched-failed", format!("{} | {desc}", err_short(&e))),
            Ok(Err(e)) => return CaseResult::viol("watched-panicked", format!("{e} | {desc}")),
            Err(_) => return CaseResult::viol("watched-hangs", desc),
        }
    }
    let mut left = vec![];
    for _ in 0..300 {
        left.clear();
        for i in 0..cl.urls.len() {
            left.extend(wt.ask(i).await.unwrap_or_default().keys().map(|k| (i, show(k))));
        }
        if left.is_empty() {
            break;
        }
        tokio::time::sleep(Duration::from_millis(50)).await;
    }
    stop.store(true, Ordering::SeqCst);
    let _ = poller.await;
    if !left.is_empty() {
        return CaseResult::viol("progress-of-ended", format!("15 s after the queries ended workers still list {left:?} | {desc}"));
    }
    if let Some((sig, d)) = wt.bad.lock().unwrap().take() {
        return CaseResult::viol(sig, format!("{d} | {desc}"));
    }
    let polls = wt.polls.load(Ordering::SeqCst);
    let res = CaseResult::ok()
        .count("polls", polls)
        .count("tasks_listed", wt.seen.load(Ordering::SeqCst))
        .count("progress_seen_moving", wt.moved.load(Ordering::SeqCst))
        .count("final_rows_compared", if early { 0 } else { exact })
        .count("held_tasks_listed", listed as u64)
        .count("queries_right", rows_ok)
        .count("worker_lists_compared", asked);
    let log = w.mon.log.lock().unwrap();
    if log.coord.is_empty() {
        return res;
    }
    res.seen(mix(hash_str(&desc), order_fp(&log))).sampled(json!({"plans": desc.chars().take(300).collect::<String>(), "polls": polls, "tasks": log.coord.len()}))
}

pub fn c25(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(watch_case(ctx, r))
}
