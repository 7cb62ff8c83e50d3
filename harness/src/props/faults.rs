//! C11, C13, C14: one query, faults and endings at every point, and what is left afterwards.
use super::query::*;
use super::trace::*;
use crate::cluster::*;
use crate::core::*;
use crate::data::*;
use crate::leaf::*;
use crate::mon::*;
use crate::oracle::judge;
use crate::qcfg::*;
use crate::sqlgen::Query;
use crate::world::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::{DataFusionError, Result, exec_datafusion_err};
use datafusion::physical_plan::{ExecutionPlan, execute_stream};
use datafusion::prelude::SessionContext;
use futures::StreamExt;
use futures::future::BoxFuture;
use rand::Rng;
use rand::rngs::StdRng;
use serde_json::json;
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::Duration;
use url::Url;

/// Failures of the worker-side session callbacks, by count of calls.
#[derive(Default)]
pub struct Arm {
    pub session: AtomicI64,
    pub rewrite: AtomicI64,
    pub n_session: AtomicU64,
    pub n_rewrite: AtomicU64,
    pub fired: AtomicU64,
}
impl Arm {
    pub fn new() -> Arc<Arm> {
        Arc::new(Arm { session: AtomicI64::new(-1), rewrite: AtomicI64::new(-1), ..Default::default() })
    }
    fn hit(c: &AtomicI64) -> bool {
        c.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |v| (v >= 0).then_some(v - 1)) == Ok(0)
    }
    pub fn hook(self: &Arc<Arm>) -> StateHook {
        let arm = Arc::clone(self);
        Arc::new(move |b: datafusion::execution::SessionStateBuilder, _: &http::HeaderMap, _| {
            use datafusion_distributed::DistributedExt;
            arm.n_session.fetch_add(1, Ordering::SeqCst);
            if Arm::hit(&arm.session) {
                arm.fired.fetch_add(1, Ordering::SeqCst);
                return Err(exec_datafusion_err!("injected session failure"));
            }
            let arm = Arc::clone(&arm);
            Ok(b.with_distributed_worker_plan_rewrite_handler(move |ev: datafusion_distributed::WorkerPlanRewriteEvent| {
                arm.n_rewrite.fetch_add(1, Ordering::SeqCst);
                if Arm::hit(&arm.rewrite) {
                    arm.fired.fetch_add(1, Ordering::SeqCst);
                    return Err(exec_datafusion_err!("injected rewrite failure"));
                }
                Ok(datafusion_distributed::WorkerPlanRewriteEventResponse::new(ev.plan))
            }))
        })
    }
    pub fn disarm(&self) {
        self.session.store(-1, Ordering::SeqCst);
        self.rewrite.store(-1, Ordering::SeqCst);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mishap {
    None,
    LeafError(usize, usize, usize),
    LeafStart(usize, usize),
    LeafPanic(usize, usize, usize),
    LeafSlow(usize, usize, usize),
    Exec(u64),
    Coord(u64),
    Batch(u64),
    W2c(u64),
    Cut(usize, i64),
    Crash(usize, u64),
    Session(i64),
    Rewrite(i64),
    BogusUrl,
}
impl Mishap {
    pub fn kind(&self) -> String {
        format!("{self:?}").split('(').next().unwrap_or("?").to_string()
    }
    /// The connection itself is affected, and not just one request.
    pub fn transport(&self) -> bool {
        matches!(self, Mishap::Cut(..) | Mishap::Crash(..))
    }
}

/// Sizes of a faultless run, from which the moments of failure are drawn.
#[derive(Clone, Debug)]
pub struct Extent {
    pub exec: u64,
    pub coord: u64,
    pub batch: u64,
    pub sessions: u64,
    pub rewrites: u64,
    pub bytes: u64,
    pub micros: u64,
}

fn any_chunk(r: &mut StdRng, w: &World) -> Option<(usize, usize, usize)> {
    let t = r.random_range(0..w.tables.data.len());
    let d = &w.tables.data[t];
    if d.chunks.is_empty() {
        return None;
    }
    let c = r.random_range(0..d.chunks.len());
    Some((t, c, r.random_range(0..=d.chunks[c].len())))
}

pub fn random_mishap(r: &mut StdRng, w: &World, x: &Extent) -> Mishap {
    let n = |r: &mut StdRng, m: u64| r.random_range(0..m.max(1));
    match r.random_range(0..16) {
        0 | 1 => any_chunk(r, w).map(|(t, c, b)| Mishap::LeafError(t, c, b)).unwrap_or(Mishap::None),
        2 => any_chunk(r, w).map(|(t, c, _)| Mishap::LeafStart(t, c)).unwrap_or(Mishap::None),
        3 => any_chunk(r, w).map(|(t, c, b)| Mishap::LeafPanic(t, c, b)).unwrap_or(Mishap::None),
        4 => any_chunk(r, w).map(|(t, c, b)| Mishap::LeafSlow(t, c, b)).unwrap_or(Mishap::None),
        5 | 6 => Mishap::Exec(n(r, x.exec)),
        7 => Mishap::Coord(n(r, x.coord)),
        8 | 9 => Mishap::Batch(n(r, x.batch)),
        10 => Mishap::W2c(n(r, x.coord)),
        11 => Mishap::Session(n(r, x.sessions) as i64),
        12 => Mishap::Rewrite(n(r, x.rewrites) as i64),
        13 => Mishap::BogusUrl,
        _ if matches!(w.cluster.cfg.transport, Transport::Duplex(_)) => {
            let i = r.random_range(0..w.cluster.cfg.workers);
            if w.cluster.cfg.own_rt && r.random_bool(0.7) { Mishap::Crash(i, n(r, x.batch + 2)) } else { Mishap::Cut(i, n(r, x.bytes + 10) as i64) }
        }
        _ => Mishap::Exec(n(r, x.exec)),
    }
}

fn leaf_err() -> DataFusionError {
    exec_datafusion_err!("injected leaf failure")
}

pub fn arm(w: &World, a: &Arm, m: &Mishap) {
    let add = |t: usize, chunk, batch, kind| w.tables.data[t].faults.lock().unwrap().push(Fault { chunk, batch, kind });
    let mut f = w.mon.faults.lock().unwrap();
    let (e, c, b) = (w.mon.n_exec.load(Ordering::SeqCst), w.mon.n_coord.load(Ordering::SeqCst), w.mon.n_batch.load(Ordering::SeqCst));
    match m {
        Mishap::None => {}
        Mishap::LeafError(t, c, b) => add(*t, *c, *b, FaultKind::Error(Arc::new(leaf_err))),
        Mishap::LeafStart(t, c) => add(*t, *c, 0, FaultKind::ErrorOnExecute(Arc::new(leaf_err))),
        Mishap::LeafPanic(t, c, b) => add(*t, *c, *b, FaultKind::Panic),
        Mishap::LeafSlow(t, c, b) => add(*t, *c, *b, FaultKind::SleepMs(20)),
        Mishap::Exec(n) => f.fail_exec = Some(e + n),
        Mishap::Coord(n) => f.fail_coord = Some(c + n),
        Mishap::Batch(n) => f.fail_batch = Some(b + n),
        Mishap::W2c(n) => f.fail_w2c = Some(c + n),
        Mishap::Cut(i, n) => w.cluster.arm_cut(*i, *n),
        Mishap::Crash(..) => {}
        Mishap::Session(n) => a.session.store(*n, Ordering::SeqCst),
        Mishap::Rewrite(n) => a.rewrite.store(*n, Ordering::SeqCst),
        Mishap::BogusUrl => w.cluster.resolver_urls.0.lock().unwrap().push(Url::parse("http://127.0.0.1:9").unwrap()),
    }
}

pub async fn disarm(w: &World, a: &Arm, m: &Mishap) {
    for t in &w.tables.data {
        t.faults.lock().unwrap().clear();
    }
    {
        let mut f = w.mon.faults.lock().unwrap();
        let d = f.delay;
        *f = NetFaults { delay: d, ..Default::default() };
    }
    a.disarm();
    match m {
        Mishap::Cut(i, _) => w.cluster.heal_cut(*i),
        Mishap::Crash(i, _) => w.cluster.restart(*i).await,
        Mishap::BogusUrl => {
            w.cluster.resolver_urls.0.lock().unwrap().pop();
        }
        _ => {}
    }
}

pub fn fired(w: &World, a: &Arm) -> u64 {
    let cuts = (0..w.cluster.cfg.workers).filter(|i| w.cluster.was_cut(*i)).count() as u64;
    w.mon.faults_fired.load(Ordering::SeqCst) + a.fired.load(Ordering::SeqCst) + cuts + w.tables.data.iter().map(|t| t.probe.fired.load(Ordering::SeqCst) as u64).sum::<u64>()
}

/// How the caller treats the query.
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    ReadAll,
    DropAfter(usize),
    NeverPolled,
    NeverExecuted,
    AbortAfterUs(u64),
}

pub fn random_stop(r: &mut StdRng, x: &Extent) -> Stop {
    match r.random_range(0..10) {
        0..4 => Stop::ReadAll,
        4..6 => Stop::DropAfter(r.random_range(0..4)),
        6 => Stop::NeverPolled,
        7 => Stop::NeverExecuted,
        _ => Stop::AbortAfterUs(r.random_range(0..x.micros * 5 / 4 + 50)),
    }
}

pub struct Ran {
    pub plan: Option<Arc<dyn ExecutionPlan>>,
    pub got: Option<Result<Vec<RecordBatch>>>,
}

pub async fn run_stop(mon: &Arc<Mon>, dc: &SessionContext, sql: &str, stop: &Stop) -> Ran {
    let go = |mon: Arc<Mon>, dc: SessionContext, sql: String, stop: Stop| async move {
        let plan = match plan_of(&dc, &sql).await {
            Ok(p) => p,
            Err(e) => return Ran { plan: None, got: Some(Err(e)) },
        };
        let got = match stop {
            Stop::ReadAll | Stop::AbortAfterUs(_) => Some(run_plan(&mon, &plan, &dc).await),
            Stop::NeverExecuted => None,
            Stop::NeverPolled => {
                match execute_stream(Arc::clone(&plan), dc.task_ctx()) {
                    Ok(s) => {
                        tokio::time::sleep(Duration::from_millis(3)).await;
                        drop(s);
                        None
                    }
                    Err(e) => Some(Err(e)),
                }
            }
            Stop::DropAfter(n) => match execute_stream(Arc::clone(&plan), dc.task_ctx()) {
                Ok(mut s) => {
                    let mut out = None;
                    for _ in 0..n {
                        match s.next().await {
                            Some(Ok(_)) => {
                                mon.tick();
                            }
                            Some(Err(e)) => {
                                out = Some(Err(e));
                                break;
                            }
                            None => break,
                        }
                    }
                    out
                }
                Err(e) => Some(Err(e)),
            },
        };
        Ran { plan: Some(plan), got }
    };
    if let Stop::AbortAfterUs(us) = stop {
        let mut h = tokio::task::JoinSet::new();
        h.spawn(go(Arc::clone(mon), dc.clone(), sql.to_string(), stop.clone()));
        tokio::time::sleep(Duration::from_micros(*us)).await;
        h.abort_all();
        return match h.join_next().await {
            Some(Ok(r)) => r,
            _ => Ran { plan: None, got: None },
        };
    }
    go(Arc::clone(mon), dc.clone(), sql.to_string(), stop.clone()).await
}

pub fn live(w: &World) -> i64 {
    w.tables.data.iter().map(|t| t.probe.live.load(Ordering::SeqCst)).sum()
}

/// Everything of finished queries that is still there.
pub async fn leftovers(w: &World) -> Vec<(String, String)> {
    let mut out = vec![];
    for (i, x) in w.cluster.workers().iter().enumerate() {
        let n = x.tasks_running().await;
        if n != 0 {
            out.push(("tasks".into(), format!("worker {i} has {n} registered tasks")));
        }
    }
    let mut pools: Vec<(String, Arc<TrackPool>)> = w.cluster.pools().into_iter().enumerate().map(|(i, p)| (format!("worker {i}"), p)).collect();
    pools.push(("coordinator".into(), Arc::clone(&w.coord_pool)));
    for (n, p) in pools {
        let u = p.used.load(Ordering::SeqCst);
        if u != 0 {
            let who: Vec<_> = p.names.lock().unwrap().iter().filter(|x| *x.1 != 0).map(|x| format!("{}={}", x.0, x.1)).collect();
            out.push(("memory".into(), format!("{n}: {u} bytes still reserved ({})", who.join(","))));
        }
        if p.underflow.load(Ordering::SeqCst) {
            out.push(("underflow".into(), format!("{n}: more memory released than reserved")));
        }
    }
    let l = live(w);
    if l != 0 {
        out.push(("operators".into(), format!("{l} leaf streams still open: {}", dbg_short(&w.tables.data.iter().flat_map(|t| t.probe.recs.lock().unwrap().iter().filter(|r| !r.dropped).cloned().collect::<Vec<_>>()).collect::<Vec<_>>()))));
    }
    let log = w.mon.log.lock().unwrap();
    let c = log.coord.iter().filter(|c| c.c2w == EndState::Open || c.w2c == EndState::Open).count();
    if c != 0 {
        out.push(("coordinator-channels".into(), format!("{c} coordinator channels still open")));
    }
    let e = log.exec.iter().flat_map(|e| &e.parts).filter(|p| p.state == EndState::Open).count();
    if e != 0 {
        out.push(("streams".into(), format!("{e} partition streams still open")));
    }
    out
}

pub async fn settled(w: &World, max: Duration, plans_kept: bool) -> Vec<(String, String)> {
    let t0 = std::time::Instant::now();
    loop {
        let mut v = leftovers(w).await;
        if plans_kept {
            // plans that the user keeps keep what plain DataFusion nodes store in them: the build
            // side of a hash join, the inputs of a repartition...
            v.retain(|x| ["tasks", "coordinator-channels", "underflow"].contains(&x.0.as_str()));
        }
        w.ctx.beat.fetch_add(1, Ordering::Relaxed);
        if v.is_empty() || t0.elapsed() > max {
            return v;
        }
        tokio::time::sleep(Duration::from_millis(4)).await;
    }
}

struct Fix {
    p: Prepared,
    arm: Arc<Arm>,
    dc: SessionContext,
    x: Extent,
    desc: String,
}

/// A world, a query with a known answer, and a first faultless run of it.
async fn fix(ctx: &Arc<CaseCtx>, r: &mut StdRng, own_rt: f64) -> Result<Fix, CaseResult> {
    let arm = Arm::new();
    let a2 = Arc::clone(&arm);
    let p = world_query(ctx, r, move |r, c, q, specs| {
        c.hook = Some(a2.hook());
        c.own_rt = r.random_bool(own_rt);
        if c.own_rt {
            c.workers = c.workers.min(4);
            c.transport = Transport::Duplex(64 * 1024);
        }
        q.bytes_per_partition = pick(r, &[1, 1, 200, 1000]);
        for s in specs.iter_mut() {
            s.parquet = false;
            s.stats = StatMode::Inexact;
            if r.random_bool(0.7) {
                s.hint = Hint::Desired(r.random_range(1..5));
            }
        }
    })
    .await?;
    let w = &p.w;
    if r.random_bool(0.3) {
        w.mon.faults.lock().unwrap().delay = Some((30, 2));
    }
    let desc = describe(&p);
    ctx.note(desc.clone());
    let dc = w.distributed().await.map_err(|e| CaseResult::inconclusive(format!("session: {}", err_short(&e))))?;
    let t0 = std::time::Instant::now();
    let got = match run_stop(&w.mon, &dc, &p.query.sql, &Stop::ReadAll).await {
        Ran { plan: Some(plan), got: Some(Ok(g)) } => {
            if !find_distributed(&plan) {
                return Err(CaseResult::inconclusive("not distributed"));
            }
            g
        }
        Ran { got: Some(Err(e)), .. } => return Err(CaseResult::inconclusive(format!("faultless run: {}", err_short(&e).chars().take(60).collect::<String>()))),
        _ => return Err(CaseResult::inconclusive("faultless run")),
    };
    let micros = t0.elapsed().as_micros() as u64;
    if judge(&p.query, &p.exp, &got, p.unl.as_deref()).is_some() {
        return Err(CaseResult::inconclusive("faultless run disagrees"));
    }
    let o = Ordering::SeqCst;
    let x = Extent {
        exec: w.mon.n_exec.load(o),
        coord: w.mon.n_coord.load(o),
        batch: w.mon.n_batch.load(o),
        sessions: arm.n_session.load(o),
        rewrites: arm.n_rewrite.load(o),
        bytes: w.cluster.net.faults.lock().unwrap().values().map(|f| f.bytes.load(o) as u64).max().unwrap_or(0),
        micros,
    };
    Ok(Fix { arm, dc, x, desc, p })
}

// ---------------------------------------------------------------- C11

async fn c11_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let f = match fix(&ctx, &mut r, 0.25).await {
        Ok(f) => f,
        Err(e) => return e,
    };
    let w = &f.p.w;
    let mut res = CaseResult::ok();
    let mut fp = hash_str(&f.p.query.sql);
    let rounds = r.random_range(1..4);
    for _ in 0..rounds {
        let m = random_mishap(&mut r, w, &f.x);
        let kind = m.kind();
        ctx.note(format!("{m:?} | {}", f.desc));
        let before = fired(w, &f.arm);
        w.mon.clear();
        arm(w, &f.arm, &m);
        let crash = async {
            if let Mishap::Crash(i, n) = &m {
                let from = w.mon.n_batch.load(Ordering::SeqCst);
                eventually(Duration::from_millis(500), || w.mon.n_batch.load(Ordering::SeqCst) >= from + n).await;
                w.cluster.crash(*i);
            }
        };
        let (ran, _) = tokio::join!(run_stop(&w.mon, &f.dc, &f.p.query.sql, &Stop::ReadAll), crash);
        let hit = fired(w, &f.arm) > before || matches!(m, Mishap::Crash(..) | Mishap::BogusUrl);
        fp = mix(fp, mix(hash_str(&format!("{m:?}")), order_fp(&w.mon.log.lock().unwrap())));
        if ctx.verbose {
            eprintln!("{m:?} hit={hit} got={:?}", ran.got.as_ref().map(|g| g.as_ref().map(|b| b.iter().map(|x| x.num_rows()).sum::<usize>()).map_err(err_short)));
        }
        match &ran.got {
            Some(Ok(g)) => {
                if let Some(d) = judge(&f.p.query, &f.p.exp, g, f.p.unl.as_deref()) {
                    return CaseResult::viol(format!("wrong-rows:{kind}"), format!("the query succeeded with wrong rows although {m:?} happened (hit={hit}): {d} | {}", f.desc));
                }
                res = res.count(if hit { "survived" } else { "not_hit" }, 1);
            }
            Some(Err(e)) => {
                if !hit {
                    return CaseResult::viol(format!("spurious:{kind}"), format!("the query failed although nothing went wrong: {} | {}", err_short(e), f.desc));
                }
                if matches!(m, Mishap::LeafSlow(..)) {
                    return CaseResult::viol("slow-source-fails", format!("{} | {}", err_short(e), f.desc));
                }
                if matches!(m, Mishap::LeafError(..) | Mishap::LeafStart(..) | Mishap::LeafPanic(..) | Mishap::Session(_) | Mishap::Rewrite(_)) && !e.to_string().contains("injected") {
                    return CaseResult::viol(format!("cause-lost:{kind}"), format!("{m:?} was reported as: {} | {}", err_short(e), f.desc));
                }
                res = res.count("errors_reported", 1).count(&format!("reported_{kind}"), 1);
            }
            None => return CaseResult::inconclusive("no result"),
        }
        disarm(w, &f.arm, &m).await;
        // The same query again: nothing of the failed one may be in the way.
        let tries = if m.transport() { 8 } else { 1 };
        let mut last = None;
        for t in 0..tries {
            if t > 0 {
                tokio::time::sleep(Duration::from_millis(30)).await;
            }
            ctx.note(format!("again after {m:?} | {}", f.desc));
            let ran = run_stop(&w.mon, &f.dc, &f.p.query.sql, &Stop::ReadAll).await;
            last = match ran.got {
                Some(Ok(g)) => match judge(&f.p.query, &f.p.exp, &g, f.p.unl.as_deref()) {
                    Some(d) => return CaseResult::viol(format!("wrong-rows-after:{kind}"), format!("{d} after {m:?} | {}", f.desc)),
                    None => None,
                },
                Some(Err(e)) => Some(e),
                None => return CaseResult::inconclusive("no result"),
            };
            if last.is_none() {
                break;
            }
        }
        if let Some(e) = last {
            if datafusion_fails(&f.p, &e).await {
                return CaseResult::inconclusive("plain DataFusion disagrees with itself");
            }
            return CaseResult::viol(format!("broken-after:{kind}"), format!("the query keeps failing after {m:?}: {} | {}", err_short(&e), f.desc));
        }
        res = res.count("reruns_fine", 1).count("faults_hit", hit as u64);
        if m.transport() {
            // other connections of the broken worker may find out only later
            break;
        }
    }
    res.seen(fp).sampled(json!({"sql": f.p.query.sql, "extent": format!("{:?}", f.x)}))
}

// ---------------------------------------------------------------- C13

async fn c13_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let f = match fix(&ctx, &mut r, 0.0).await {
        Ok(f) => f,
        Err(e) => return e,
    };
    let w = &f.p.w;
    let max = Duration::from_secs(15);
    let left = |v: Vec<(String, String)>, when: &str| {
        let mut k: Vec<_> = v.iter().map(|x| x.0.clone()).collect();
        k.sort();
        k.dedup();
        CaseResult::viol(format!("left:{}", k.join("+")), format!("{when}: {} | {}", v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("; "), f.desc))
    };
    // more runs, so that every connection exists
    for n in [1, 3] {
        futures::future::join_all((0..n).map(|_| run_stop(&w.mon, &f.dc, &f.p.query.sql, &Stop::ReadAll))).await;
    }
    let v = settled(w, max, false).await;
    if !v.is_empty() {
        return left(v, "after plain runs");
    }
    let metrics = tokio::runtime::Handle::current().metrics();
    tokio::time::sleep(Duration::from_millis(5)).await;
    let alive0 = metrics.num_alive_tasks() as i64;
    let conns0 = w.cluster.net.conns.load(Ordering::SeqCst) as i64;
    let mut res = CaseResult::ok();
    let mut fp = hash_str(&f.p.query.sql);
    let rounds = r.random_range(3..9);
    let mut hist = vec![];
    let mut kept = vec![];
    let mut slowest = 0u128;
    for _ in 0..rounds {
        let conc = if r.random_bool(0.25) { r.random_range(2..4) } else { 1 };
        let mut m = if r.random_bool(0.6) { random_mishap(&mut r, w, &f.x) } else { Mishap::None };
        if matches!(m, Mishap::LeafSlow(..)) {
            m = match any_chunk(&mut r, w) {
                Some((t, c, b)) => Mishap::LeafSlow(t, c, b),
                None => Mishap::None,
            };
        }
        let stops: Vec<Stop> = (0..conc).map(|_| random_stop(&mut r, &f.x)).collect();
        hist.push(format!("{m:?}{stops:?}"));
        ctx.note(format!("{hist:?} | {}", f.desc));
        w.mon.clear();
        arm(w, &f.arm, &m);
        let runs = futures::future::join_all(stops.iter().map(|s| run_stop(&w.mon, &f.dc, &f.p.query.sql, s))).await;
        disarm(w, &f.arm, &m).await;
        for (s, x) in stops.iter().zip(&runs) {
            res = res.count(&format!("ended_{}", match (s, &x.got) {
                (_, Some(Err(_))) => "with_error",
                (Stop::ReadAll, _) => "complete",
                (Stop::AbortAfterUs(_), Some(Ok(_))) => "complete",
                (Stop::AbortAfterUs(_), _) => "aborted",
                (Stop::NeverExecuted, _) => "not_executed",
                (Stop::NeverPolled, _) => "not_polled",
                _ => "dropped",
            }), 1);
        }
        // Plans may be kept, for instance for looking at their metrics.
        if r.random_bool(0.4) {
            kept.extend(runs.into_iter().filter_map(|x| x.plan));
        } else {
            drop(runs);
        }
        let t0 = std::time::Instant::now();
        let v = settled(w, max, !kept.is_empty()).await;
        slowest = slowest.max(t0.elapsed().as_millis());
        if !v.is_empty() {
            if ctx.verbose {
                eprintln!("{}", dump_log(&w.mon.log.lock().unwrap()));
            }
            return left(v, &format!("after {hist:?}"));
        }
        if !kept.is_empty() && r.random_bool(0.5) {
            kept.clear();
            let v = settled(w, max, false).await;
            if !v.is_empty() {
                return left(v, &format!("after {hist:?} and dropping their plans"));
            }
        }
        if ctx.verbose {
            tokio::time::sleep(Duration::from_millis(50)).await;
            eprintln!("[tasks] {} alive (at first {alive0}), {} connections (at first {conns0}), {} plans kept, after {:?}", metrics.num_alive_tasks(), w.cluster.net.conns.load(Ordering::SeqCst), kept.len(), hist.last());
        }
        fp = mix(fp, mix(hash_str(hist.last().unwrap()), order_fp(&w.mon.log.lock().unwrap())));
    }
    drop(kept);
    let v = settled(w, max, false).await;
    if !v.is_empty() {
        return left(v, &format!("after {hist:?} and dropping their plans"));
    }
    let duplex = matches!(w.cluster.cfg.transport, Transport::Duplex(_));
    if duplex && !hist.iter().any(|h| h.starts_with("Cut")) {
        // A new connection brings a few background tasks of its own, and one more later on.
        let extra = || {
            let conns = w.cluster.net.conns.load(Ordering::SeqCst) as i64;
            metrics.num_alive_tasks() as i64 - alive0 - (conns - conns0) * 6 - conns0
        };
        if !eventually(max, || {
            ctx.beat.fetch_add(1, Ordering::Relaxed);
            extra() <= 0
        })
        .await
        {
            return CaseResult::viol("left:background-tasks", format!("{} more background tasks than before ({alive0}), after {hist:?} | {}", extra(), f.desc));
        }
        res = res.count("task_counts_checked", 1);
    }
    let ran = run_stop(&w.mon, &f.dc, &f.p.query.sql, &Stop::ReadAll).await;
    match ran.got {
        Some(Ok(g)) => {
            if let Some(d) = judge(&f.p.query, &f.p.exp, &g, f.p.unl.as_deref()) {
                return CaseResult::viol("wrong-rows-after", format!("{d} after {hist:?} | {}", f.desc));
            }
        }
        _ if hist.iter().any(|h| h.starts_with("Cut")) => {}
        Some(Err(e)) if datafusion_fails(&f.p, &e).await => return CaseResult::inconclusive("plain DataFusion disagrees with itself"),
        Some(Err(e)) => return CaseResult::viol("broken-after", format!("{} after {hist:?} | {}", err_short(&e), f.desc)),
        None => {}
    }
    res.count("endings", hist.len() as u64)
        .count("settled_over_100ms", (slowest > 100) as u64)
        .count("settled_over_1s", (slowest > 1000) as u64)
        .seen(fp)
        .sampled(json!({"sql": f.p.query.sql, "endings": hist}))
}

// ---------------------------------------------------------------- C14

fn nrows(b: &[RecordBatch]) -> usize {
    b.iter().map(|x| x.num_rows()).sum()
}

/// A query that stops by itself although t0 (and t1 for some) has no end, and the number of rows
/// it has to give.
fn self_stopping(r: &mut StdRng, w: &World, nb: usize) -> (String, Option<usize>, bool) {
    let _ = w;
    let n = pick(r, &[1usize, 2, 7, 60, 400, 900]);
    let m = r.random_range(1..50);
    match r.random_range(0..8) {
        0 => (format!("SELECT id, k FROM t0 LIMIT {n}"), Some(n), false),
        1 => (format!("SELECT id, k + 1 AS k1 FROM t0 WHERE id >= 0 LIMIT {n} OFFSET {m}"), Some(n), false),
        2 => (format!("SELECT id, k FROM t0 UNION ALL SELECT id, k FROM t1 LIMIT {n}"), Some(n), true),
        3 => (format!("SELECT id FROM (SELECT id FROM t0 LIMIT {n}) x"), Some(n), false),
        4 => (format!("SELECT x.id, b.k FROM (SELECT id FROM t0 LIMIT {n}) x CROSS JOIN t2 b"), Some(n * nb), false),
        5 => (format!("SELECT id, count(*) AS c FROM (SELECT id FROM t0 LIMIT {n}) x GROUP BY id"), None, false),
        6 => (format!("SELECT id FROM t2 WHERE id IN (SELECT id FROM t0 LIMIT {n})"), None, false),
        _ => (format!("(SELECT id, g FROM t0 LIMIT {n}) UNION ALL (SELECT id, g FROM t0 WHERE id >= 0 LIMIT {m})"), Some(n + m), false),
    }
}

async fn c14_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let p = world_query(&ctx, &mut r, |r, _c, q, specs| {
        q.bytes_per_partition = pick(r, &[1, 1, 200, 1000]);
        // A join of big inputs cut into tiny batches computes for seconds within one poll.
        q.batch_size = pick(r, &[8192, 8192, 1024]);
        q.shuffle_batch = pick(r, &[0, 0, 1024, 8192]);
        while specs.len() < 3 {
            specs.push(random_spec(r, &format!("t{}", specs.len()), 120, 4));
        }
        for s in specs.iter_mut() {
            s.parquet = false;
            s.sorted = false;
            s.stats = pick(r, &[StatMode::Inexact, StatMode::Absent]);
            if r.random_bool(0.7) {
                s.hint = Hint::Desired(r.random_range(1..5));
            }
        }
        for i in [0, 1] {
            specs[i].rows = specs[i].rows.max(10);
        }
    })
    .await;
    let p = match p {
        Ok(p) => p,
        Err(e) => return e,
    };
    let w = &p.w;
    let desc = describe(&p);
    let dc = match w.distributed().await {
        Ok(c) => c,
        Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
    };
    // Another user of the same workers, on a table of its own.
    let other = Query { sql: "SELECT k, count(*) AS c, sum(v) AS s, min(id) AS mi FROM t2 GROUP BY k".into(), order: vec![], loose: None, unlimited: None, feats: vec![] };
    let want = match async { collect_df(&w.reference().await?, &other.sql).await }.await {
        Ok(x) => x,
        Err(e) => return CaseResult::inconclusive(format!("reference: {}", err_short(&e))),
    };
    let nb: usize = w.tables.data[2].chunks.iter().flatten().map(|b| b.num_rows()).sum();
    let full = |t: usize| -> Vec<usize> { (0..w.tables.data[t].chunks.len()).filter(|c| w.tables.data[t].chunks[*c].last().is_some_and(|b| b.num_rows() > 0)).collect() };
    let max = Duration::from_secs(15);
    let mut res = CaseResult::ok();
    let mut fp = hash_str(&p.query.sql);
    let rounds = r.random_range(2..6);
    for _ in 0..rounds {
        w.mon.clear();
        for t in &w.tables.data {
            t.faults.lock().unwrap().clear();
        }
        let add = |t: usize, chunk, batch, kind| w.tables.data[t].faults.lock().unwrap().push(Fault { chunk, batch, kind });
        let own = r.random_bool(0.5) && !full(0).is_empty() && !full(1).is_empty();
        let (sql, rows, two) = if own { self_stopping(&mut r, w, nb) } else { (p.query.sql.clone(), None, false) };
        let mut how = String::new();
        if own {
            let (mut a, mut b) = (0, 1);
            if two && r.random_bool(0.5) {
                std::mem::swap(&mut a, &mut b);
            }
            for c in full(a) {
                let last = w.tables.data[a].chunks[c].len();
                add(a, c, last, FaultKind::Endless);
            }
            // whatever the other side does
            if two && !w.q.dynamic && r.random_bool(0.7) {
                for c in full(b) {
                    let at = r.random_range(0..=w.tables.data[b].chunks[c].len());
                    add(b, c, at, FaultKind::Block);
                }
                how = format!("t{a} endless, t{b} blocked");
            } else {
                how = format!("t{a} endless");
            }
        } else {
            let some = r.random_range(1..5);
            for _ in 0..some {
                if let Some((t, c, b)) = any_chunk(&mut r, w) {
                    if t == 2 {
                        continue;
                    }
                    if r.random_bool(0.5) {
                        add(t, c, b, FaultKind::Block);
                        how += &format!(" block({t},{c},{b})");
                    } else {
                        add(t, c, 0, FaultKind::Endless);
                        how += &format!(" endless({t},{c})");
                    }
                }
            }
        }
        let micros = r.random_range(0..40_000u64);
        let stop = match r.random_range(0..6) {
            _ if own && r.random_bool(0.7) => Stop::ReadAll,
            0 | 1 => Stop::DropAfter(r.random_range(0..4)),
            2 => Stop::NeverPolled,
            _ => Stop::AbortAfterUs(micros),
        };
        let what = format!("{sql} | {how} | {stop:?}");
        ctx.note(format!("{what} | {desc}"));
        let limit = if own && stop == Stop::ReadAll { Duration::from_secs(20) } else { Duration::from_millis(r.random_range(1..60)) };
        let slow = r.random_bool(0.5);
        if slow {
            for c in 0..w.tables.data[2].chunks.len() {
                add(2, c, 0, FaultKind::SleepMs(r.random_range(1..30)));
            }
        }
        let neighbour = async {
            if own && sql.contains("t2") {
                return None;
            }
            Some(run_stop(&w.mon, &dc, &other.sql, &Stop::ReadAll).await.got)
        };
        let subject = async {
            let o = tokio::time::timeout(limit, run_stop(&w.mon, &dc, &sql, &stop)).await;
            (o, w.tables.data.iter().map(|t| t.probe.rows.load(Ordering::SeqCst)).sum::<u64>(), live(w))
        };
        let t0 = std::time::Instant::now();
        let (n, (ran, rows0, live0)) = tokio::join!(neighbour, subject);
        let took = t0.elapsed();
        match (&ran, own) {
            (Err(_), true) if stop == Stop::ReadAll => { if ctx.verbose { eprintln!("{}", dump_log(&w.mon.log.lock().unwrap())); } return CaseResult::viol("never-stops", format!("a satisfied query still runs after {limit:?}: {what} | {desc}")) }
            (Ok(Ran { got: Some(Ok(g)), .. }), true) if stop == Stop::ReadAll => {
                if let Some(want) = rows {
                    if nrows(g) != want {
                        return CaseResult::viol("wrong-rows", format!("{} rows instead of {want}: {what} | {desc}", nrows(g)));
                    }
                }
                res = res.count("stopped_by_itself", 1);
            }
            (Ok(Ran { got: Some(Err(e)), .. }), _) => {
                let e = err_short(e);
                if own && stop == Stop::ReadAll {
                    return CaseResult::viol("error-on-stop", format!("{e}: {what} | {desc}"));
                }
                res = res.count("ended_with_error", 1);
            }
            (Err(_), _) => res = res.count("cancelled_while_running", 1),
            _ => res = res.count("stopped_early", 1),
        }
        drop(ran);
        match n {
            None => {}
            Some(Some(Ok(g))) => {
                if let Some(d) = judge(&other, &want, &g, None) {
                    return CaseResult::viol("neighbour-wrong", format!("a concurrent query got wrong rows: {d} | {what} | {desc}"));
                }
                res = res.count("neighbours_fine", 1);
            }
            Some(Some(Err(e))) => return CaseResult::viol("neighbour-fails", format!("a concurrent query failed: {} | {what} | {desc}", err_short(&e))),
            Some(None) => {}
        }
        // Everything has to stop, and soon.
        let t1 = std::time::Instant::now();
        let mut rows1 = rows0;
        let mut told = !ctx.verbose;
        let ok = eventually(max, || {
            if !told && t1.elapsed() > Duration::from_secs(2) {
                told = true;
                eprintln!("{}", dump_log(&w.mon.log.lock().unwrap()));
            }
            ctx.beat.fetch_add(1, Ordering::Relaxed);
            rows1 = w.tables.data.iter().map(|t| t.probe.rows.load(Ordering::SeqCst)).sum::<u64>();
            live(w) == 0
        })
        .await;
        if !ok {
            if ctx.verbose {
                eprintln!("{}", dump_log(&w.mon.log.lock().unwrap()));
            }
            return CaseResult::viol("keeps-running", format!("{} leaf streams are still open {:?} after the end, having produced {} more rows: {what} | {desc}", live(w), t1.elapsed(), rows1 - rows0));
        }
        let v = settled(w, max, false).await;
        let v: Vec<_> = v.into_iter().filter(|x| x.0 == "tasks" || x.0 == "coordinator-channels").collect();
        if !v.is_empty() {
            return CaseResult::viol("keeps-registered", format!("{}: {what} | {desc}", v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("; ")));
        }
        let ms = t1.elapsed().as_millis();
        res = res
            .count("endings", 1)
            .count("ended_with_operators_running", (live0 > 0) as u64)
            .count("stopped_within_100ms", (ms < 100) as u64)
            .count("rows_after_the_end", rows1.saturating_sub(rows0))
            .count("took_over_1s", (took.as_millis() > 1000) as u64);
        fp = mix(fp, mix(hash_str(&what), order_fp(&w.mon.log.lock().unwrap())));
    }
    res.seen(fp).sampled(json!({"sql": p.query.sql}))
}

pub fn c14(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(c14_case(ctx, r))
}
pub fn c11(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    if ctx.idx % 6 == 4 {
        return super::flow::c11_flow(ctx, r);
    }
    Box::pin(c11_case(ctx, r))
}
pub fn c13(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(c13_case(ctx, r))
}
#[allow(unused)]
fn _x(_: TableSpec, _: QCfg) {}
