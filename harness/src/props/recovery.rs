//! C22: workers stop, come back, and lose connections, over real sockets.
use super::faults::*;
use super::query::*;
use super::trace::*;
use crate::cluster::*;
use crate::core::*;
use crate::mon::*;
use crate::oracle::judge;
use crate::qcfg::*;
use crate::world::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::Result;
use datafusion::prelude::SessionContext;
use futures::FutureExt;
use futures::future::BoxFuture;
use rand::Rng;
use rand::rngs::StdRng;
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Hit {
    /// the process is gone, with every socket
    Crash(usize),
    /// finishes the calls in progress, closes its connections, is gone afterwards
    Leave(usize),
    /// its connections are reset, but it stays
    Reset(usize),
    /// does not answer for that many ms
    Freeze(usize, u64),
}
impl Hit {
    fn of(&self) -> usize {
        match self {
            Hit::Crash(i) | Hit::Leave(i) | Hit::Reset(i) | Hit::Freeze(i, _) => *i,
        }
    }
}

#[derive(Clone, Debug)]
enum Step {
    /// that many queries at once, with the workers as they are
    Queries { n: usize, on_another_runtime: bool },
    /// the caller goes away that many microseconds after asking
    Cancelled { us: u64 },
    /// something happens with no query running
    Quiet(Hit),
    /// something happens that many microseconds after queries started
    Amid { n: usize, hit: Hit, us: u64 },
    /// a stopped worker is back, maybe while queries run
    Back { i: usize, amid: bool },
    /// the resolver learns which workers are there
    Resolve,
    /// the resolver names all of them
    ResolveAll,
}

struct Run {
    got: Result<Vec<RecordBatch>>,
    took: Duration,
}

struct Setup {
    p: Prepared,
    dc: SessionContext,
}

async fn go(s: &Setup) -> Run {
    let t0 = Instant::now();
    let got = match plan_of(&s.dc, &s.p.query.sql).await {
        Ok(plan) => run_plan(&s.p.w.mon, &plan, &s.dc).await,
        Err(e) => Err(e),
    };
    Run { got, took: t0.elapsed() }
}

async fn many(s: &Arc<Setup>, n: usize) -> Vec<Run> {
    let mut set = tokio::task::JoinSet::new();
    for _ in 0..n {
        let s = Arc::clone(s);
        set.spawn(async move { go(&s).await });
    }
    let mut out = vec![];
    while let Some(x) = set.join_next().await {
        match x {
            Ok(r) => out.push(r),
            Err(e) => out.push(Run { got: Err(datafusion::common::exec_datafusion_err!("{e}")), took: Duration::ZERO }),
        }
    }
    out
}

/// The same in a runtime that ends afterwards.
async fn elsewhere(s: &Arc<Setup>, n: usize) -> Vec<Run> {
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .thread_name(std::thread::current().name().unwrap_or("w").to_string())
        .thread_stack_size(16 << 20)
        .enable_all()
        .build()
        .unwrap();
    let s2 = Arc::clone(s);
    let h = rt.spawn(async move { many(&s2, n).await });
    let out = h.await;
    let _ = tokio::task::spawn_blocking(move || rt.shutdown_timeout(Duration::from_secs(5))).await;
    out.unwrap_or_default()
}

/// Whether the error names a connection to one of these workers.
fn names(e: &str, w: &Cluster, down: &BTreeSet<usize>) -> bool {
    down.iter().any(|i| e.contains(&format!("127.0.0.1:{}", w.ports[*i])))
}

/// What each caller may still find out about its connection to each worker.
struct Unnoticed {
    /// the outcome of a connection attempt that nobody waited for
    attempts: Vec<usize>,
    /// that a connection it had is closed
    closed: usize,
}
impl Unnoticed {
    /// Whether that error says for the first time that a connection is broken which was.
    fn noticed(&mut self, e: &str, w: &Cluster) -> bool {
        let i = (0..self.attempts.len()).find(|i| self.attempts[*i] > 0 && e.contains(&format!("127.0.0.1:{}", w.ports[*i])));
        if let Some(i) = i {
            self.attempts[i] -= 1;
            return true;
        }
        if self.closed > 0 && ["connection closed", "operation was canceled", "broken pipe", "connection reset"].iter().any(|t| e.to_lowercase().contains(t)) {
            self.closed -= 1;
            return true;
        }
        false
    }
}

/// DataFusion runtimes of this process that asked for a default resolver, at most.
static RUNTIMES: AtomicUsize = AtomicUsize::new(0);

async fn c22_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let p = match world_query(&ctx, &mut r, |r, c, q, specs| {
        c.workers = r.random_range(1..5);
        c.transport = Transport::Tcp;
        c.own_rt = true;
        c.no_shortcut = r.random_bool(0.3);
        c.default_resolver = r.random_bool(0.5);
        if r.random_bool(0.8) {
            q.bytes_per_partition = pick(r, &[1, 1, 200]);
        }
        // A partition that is blocked by a full budget is C15's concern.
        q.budget = 64 << 20;
        if r.random_bool(0.5) {
            specs.truncate(2);
        }
    })
    .await
    {
        Ok(p) => p,
        Err(e) => return e,
    };
    let dc = match p.w.distributed().await {
        Ok(c) => c,
        Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
    };
    let s = Arc::new(Setup { p, dc });
    let w = &s.p.w;
    let mon = &w.mon;
    let nw = w.cluster.cfg.workers;
    let plan = match plan_of(&s.dc, &s.p.query.sql).await {
        Ok(p) => p,
        Err(e) => return CaseResult::inconclusive(format!("planning: {}", err_short(&e).chars().take(80).collect::<String>())),
    };
    let distributed = find_distributed(&plan);
    drop(plan);
    // Whoever connects first might not stay.
    let first_leaves = r.random_bool(0.3);
    let mut moved = first_leaves as u64;
    for k in 0..2 {
        let x = match first_leaves && k == 0 {
            true => elsewhere(&s, 1).await.pop().unwrap_or(Run { got: Err(datafusion::common::exec_datafusion_err!("no result")), took: Duration::ZERO }),
            false => go(&s).await,
        };
        match x.got {
            Err(e) if first_leaves && k > 0 => return CaseResult::viol("fails-although-up-after-runtime", format!("{} | {}", err_short(&e), describe(&s.p))),
            Ok(b) if judge(&s.p.query, &s.p.exp, &b, s.p.unl.as_deref()).is_none() => {}
            Ok(_) => return CaseResult::inconclusive("rows differ without faults, too"),
            Err(e) => return CaseResult::inconclusive(format!("without faults: {}", err_short(&e).chars().take(80).collect::<String>())),
        }
    }
    let mut down: BTreeSet<usize> = BTreeSet::new();
    let mut known: BTreeSet<usize> = (0..nw).collect();
    let mut history: Vec<String> = vec![];
    let text = |h: &Vec<String>| {
        let mut t = format!("default_resolver={} adaptive={} history=[{}] | {}", w.cluster.cfg.default_resolver, w.q.dynamic, h.join("; "), describe(&s.p));
        t.truncate(8000);
        t
    };
    let viol = |h: &Vec<String>, sig: &str, d: String| CaseResult::viol(sig, format!("{d} | {}", text(h)));
    let (mut fine, mut named, mut amid_failed, mut amid_fine, mut back, mut resets, mut reuse, mut without) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut slowest_failure = Duration::ZERO;
    let rows_wrong = |b: &[RecordBatch]| judge(&s.p.query, &s.p.exp, b, s.p.unl.as_deref());
    let steps = r.random_range(4..11);
    // Callers that may each have a connection of their own: the coordinator and every worker.
    let callers = nw + 1;
    // The default resolver remembers the connections of the first 256 DataFusion runtimes of a process.
    let remembered = |more: usize| !w.cluster.cfg.default_resolver || RUNTIMES.fetch_add(more, Ordering::SeqCst) + more <= 200;
    remembered(callers + 1);
    // Up to four queries at once may wait for the same attempt.
    let told = 4 * callers;
    // How many of them might not have noticed yet that theirs to that worker was broken. What a caller
    // was told about a connection attempt nobody waited for is told to the next one that asks.
    let mut unnoticed = Unnoticed { attempts: vec![0; nw], closed: 0 };
    let mut stale = 0u64;
    for n in 0..=steps {
        let up: Vec<usize> = (0..nw).filter(|i| !down.contains(i)).collect();
        let last = n == steps;
        let hit = |r: &mut StdRng, up: &[usize]| {
            let i = pick(r, up);
            match r.random_range(0..7) {
                0..3 => Hit::Crash(i),
                3 => Hit::Leave(i),
                4..6 => Hit::Reset(i),
                _ => Hit::Freeze(i, r.random_range(1..400)),
            }
        };
        let step = if last {
            Step::ResolveAll
        } else {
            match r.random_range(0..16) {
                0..4 => Step::Queries { n: r.random_range(1..5), on_another_runtime: r.random_bool(0.35) },
                4 => Step::Cancelled { us: pick(&mut r, &[0, 50, 300, 1000, 5000]) },
                5..8 if !up.is_empty() => Step::Quiet(hit(&mut r, &up)),
                8..11 if !up.is_empty() => Step::Amid { n: r.random_range(1..4), hit: hit(&mut r, &up), us: pick(&mut r, &[0, 300, 1000, 3000, 10_000, 30_000]) },
                11..14 if !down.is_empty() => Step::Back { i: *down.iter().nth(r.random_range(0..down.len())).unwrap(), amid: r.random_bool(0.4) },
                14 if !up.is_empty() => Step::Resolve,
                15 => Step::ResolveAll,
                _ => Step::Queries { n: r.random_range(1..3), on_another_runtime: false },
            }
        };
        history.push(format!("{step:?}"));
        ctx.note(text(&history));
        mon.tick();
        down.iter().for_each(|i| unnoticed.attempts[*i] = told);
        let stop = |i: usize, graceful: bool| {
            let w = &s.p.w;
            async move {
                if graceful {
                    w.cluster.tcp[i].stop_gracefully();
                    tokio::time::sleep(Duration::from_millis(20)).await;
                }
                w.cluster.crash(i);
            }
        };
        // What may fail, and what was wrong with queries that had no reason to.
        match &step {
            Step::Queries { n, on_another_runtime } => {
                let before: Vec<usize> = w.cluster.tcp.iter().map(|t| t.accepted.load(Ordering::SeqCst)).collect();
                let runs = if *on_another_runtime {
                    moved += 1;
                    elsewhere(&s, *n).await
                } else {
                    many(&s, *n).await
                };
                if *on_another_runtime {
                    unnoticed.attempts.iter_mut().for_each(|a| *a = told);
                }
                let missing: BTreeSet<usize> = known.intersection(&down).copied().collect();
                for x in &runs {
                    match &x.got {
                        Ok(b) => match rows_wrong(b) {
                            Some(d) => return viol(&history, "rows", d),
                            None => {
                                fine += 1;
                                without += !missing.is_empty() as u64;
                            }
                        },
                        Err(e) if missing.is_empty() => {
                            if !unnoticed.noticed(&e.to_string(), &w.cluster) {
                                return viol(&history, if moved > 0 { "fails-although-up-after-runtime" } else { "fails-although-up" }, format!("all workers are up, but: {}", err_short(e)));
                            }
                            stale += 1;
                        }
                        Err(e) => {
                            let e = e.to_string();
                            slowest_failure = slowest_failure.max(x.took);
                            if !names(&e, &w.cluster, &missing) && !unnoticed.noticed(&e, &w.cluster) {
                                return viol(&history, "unnamed-connection", format!("workers {missing:?} (ports {:?}) are down, the error is: {e}", missing.iter().map(|i| w.cluster.ports[*i]).collect::<Vec<_>>()));
                            }
                            named += 1;
                        }
                    }
                }
                // Every caller needs one connection to a worker at most, whatever happened to the one before.
                if missing.is_empty() && !*on_another_runtime && remembered(0) {
                    let opened: Vec<usize> = w.cluster.tcp.iter().zip(&before).map(|(t, b)| t.accepted.load(Ordering::SeqCst) - b).collect();
                    if let Some(o) = opened.iter().find(|o| **o > callers)
                        && remembered(0)
                    {
                        return viol(&history, "connections", format!("{n} queries opened {o} connections to one worker, which has {callers} callers: {opened:?}"));
                    }
                    // Once connected, the same queries need none.
                    let before: Vec<usize> = w.cluster.tcp.iter().map(|t| t.accepted.load(Ordering::SeqCst)).collect();
                    let mut total = 0;
                    for _ in 0..6 {
                        match go(&s).await.got {
                            Ok(b) => {
                                if let Some(d) = rows_wrong(&b) {
                                    return viol(&history, "rows", d);
                                }
                                fine += 1;
                            }
                            Err(e) => {
                                if !unnoticed.noticed(&e.to_string(), &w.cluster) {
                                    return viol(&history, if moved > 0 { "fails-although-up-after-runtime" } else { "fails-although-up" }, format!("all workers are up, but: {}", err_short(&e)));
                                }
                                stale += 1;
                            }
                        }
                        total += 1;
                    }
                    let opened: Vec<usize> = w.cluster.tcp.iter().zip(&before).map(|(t, b)| t.accepted.load(Ordering::SeqCst) - b).collect();
                    if let Some(o) = opened.iter().find(|o| **o > callers)
                        && remembered(0)
                    {
                        return viol(&history, "connections", format!("{total} queries opened {o} connections to one worker, which has {callers} callers: {opened:?}"));
                    }
                    reuse += 1;
                }
            }
            Step::Cancelled { us } => {
                run_stop(mon, &s.dc, &s.p.query.sql, &Stop::AbortAfterUs(*us)).await;
            }
            Step::Quiet(h) => match h {
                _ if { unnoticed.attempts[h.of()] = told; unnoticed.closed += told; false } => {}
                Hit::Crash(i) => {
                    stop(*i, false).await;
                    down.insert(*i);
                    tokio::time::sleep(Duration::from_millis(60)).await;
                }
                Hit::Leave(i) => {
                    stop(*i, true).await;
                    down.insert(*i);
                    tokio::time::sleep(Duration::from_millis(60)).await;
                }
                Hit::Reset(i) => {
                    w.cluster.tcp[*i].reset_all();
                    resets += 1;
                    tokio::time::sleep(Duration::from_millis(100)).await;
                }
                Hit::Freeze(i, ms) => {
                    let ctl = Arc::clone(&w.cluster.tcp[*i]);
                    ctl.freeze(true);
                    let ms = *ms;
                    let thaw = tokio::spawn(async move {
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                        ctl.freeze(false);
                    });
                    let missing = known.intersection(&down).count();
                    let x = go(&s).await;
                    let _ = thaw.await;
                    match x.got {
                        Ok(b) => {
                            if let Some(d) = rows_wrong(&b) {
                                return viol(&history, "rows", d);
                            }
                            fine += 1;
                        }
                        Err(e) if missing == 0 && !unnoticed.noticed(&e.to_string(), &w.cluster) => return viol(&history, "fails-although-slow", err_short(&e)),
                        Err(_) => {}
                    }
                }
            },
            Step::Amid { n, hit, us } => {
                let s2 = Arc::clone(&s);
                let n = *n;
                let running = tokio::spawn(async move { many(&s2, n).await });
                tokio::time::sleep(Duration::from_micros(*us)).await;
                let i = hit.of();
                unnoticed.attempts[i] = told;
                unnoticed.closed += told;
                let harmless = match hit {
                    Hit::Crash(_) | Hit::Leave(_) => {
                        stop(i, matches!(hit, Hit::Leave(_))).await;
                        down.insert(i);
                        false
                    }
                    Hit::Reset(_) => {
                        w.cluster.tcp[i].reset_all();
                        resets += 1;
                        false
                    }
                    Hit::Freeze(_, ms) => {
                        w.cluster.tcp[i].freeze(true);
                        tokio::time::sleep(Duration::from_millis(*ms)).await;
                        w.cluster.tcp[i].freeze(false);
                        known.is_disjoint(&down)
                    }
                };
                for x in running.await.unwrap_or_default() {
                    match &x.got {
                        Ok(b) => match rows_wrong(b) {
                            Some(d) => return viol(&history, "rows", d),
                            None => amid_fine += 1,
                        },
                        Err(e) if harmless && !unnoticed.noticed(&e.to_string(), &w.cluster) => return viol(&history, "fails-although-slow", err_short(e)),
                        Err(_) => {
                            slowest_failure = slowest_failure.max(x.took);
                            amid_failed += 1
                        }
                    }
                }
                // The connections that broke are noticed.
                tokio::time::sleep(Duration::from_millis(100)).await;
            }
            Step::Back { i, amid } => {
                let running = amid.then(|| {
                    let s2 = Arc::clone(&s);
                    tokio::spawn(async move { many(&s2, 2).await })
                });
                w.cluster.restart(*i).await;
                down.remove(i);
                back += 1;
                remembered(1);
                if let Some(x) = running {
                    for x in x.await.unwrap_or_default() {
                        if let Ok(b) = &x.got
                            && let Some(d) = rows_wrong(b)
                        {
                            return viol(&history, "rows", d);
                        }
                    }
                }
                tokio::time::sleep(Duration::from_millis(30)).await;
            }
            Step::Resolve => {
                known = up.iter().copied().collect();
                *w.cluster.resolver_urls.0.lock().unwrap() = known.iter().map(|i| w.cluster.urls[*i].clone()).collect();
            }
            Step::ResolveAll => {
                known = (0..nw).collect();
                *w.cluster.resolver_urls.0.lock().unwrap() = w.cluster.urls.clone();
            }
        }
    }
    // Everybody is back: whatever happened before, the next queries succeed.
    for i in down.clone() {
        unnoticed.attempts[i] = told;
        w.cluster.restart(i).await;
        back += 1;
        remembered(1);
    }
    tokio::time::sleep(Duration::from_millis(30)).await;
    history.push("all back".into());
    let mut in_a_row = 0;
    let mut tries = 0;
    while in_a_row < 3 {
        tries += 1;
        for x in many(&s, if in_a_row == 1 { 3 } else { 1 }).await {
            match x.got {
                Ok(b) => {
                    if let Some(d) = rows_wrong(&b) {
                        if datafusion_disagrees(&s.p).await.is_some() {
                            return CaseResult::inconclusive("plain DataFusion disagrees with itself");
                        }
                        return viol(&history, "rows", d);
                    }
                    fine += 1;
                    in_a_row += 1;
                }
                Err(e) => {
                    if !unnoticed.noticed(&e.to_string(), &w.cluster) {
                        return viol(&history, if moved > 0 { "not-recovered-after-runtime" } else { "not-recovered" }, format!("attempt {tries}: {}", err_short(&e)));
                    }
                    stale += 1;
                    in_a_row = 0;
                }
            }
        }
    }
    // Nothing is left of all that; memory of processes that crashed does not count.
    let left = settled(w, Duration::from_secs(15), true).await;
    if !left.is_empty() {
        return viol(&history, &format!("left: {}", left[0].0), format!("{left:?}"));
    }
    let mut alive: Vec<String> = w.cluster.slots.iter().filter_map(|s| s.lock().unwrap().rt.as_ref().map(|r| r.handle().id().to_string())).collect();
    alive.push(tokio::runtime::Handle::current().id().to_string());
    let open = || {
        let mut v = vec![];
        for t in &w.tables.data {
            v.extend(t.probe.recs.lock().unwrap().iter().filter(|r| !r.dropped && alive.contains(&r.rt)).cloned());
        }
        v
    };
    if !eventually(Duration::from_secs(15), || open().is_empty() && w.coord_pool.used.load(Ordering::SeqCst) == 0).await {
        return viol(&history, "left: operators or memory", format!("{} bytes reserved by the coordinator, streams open: {}", w.coord_pool.used.load(Ordering::SeqCst), dbg_short(&open())));
    }
    let mut res = CaseResult::ok()
        .count("queries_right", fine)
        .count("failures_naming_the_connection", named)
        .count("right_while_some_worker_is_down", without)
        .count("interrupted_failed", amid_failed)
        .count("interrupted_right", amid_fine)
        .count("workers_back", back)
        .count("connection_resets", resets)
        .count("runtimes_gone", moved)
        .count("reuse_checks", reuse)
        .count("stale_failures", stale)
        .count("slowest_failure_ms_sum", slowest_failure.as_millis() as u64);
    if distributed && back + resets + moved > 0 {
        res = res.seen(hash_str(&text(&history))).sampled(json!({"history": history, "workers": nw, "right": fine, "named": named}));
    }
    res
}

pub fn c22(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    c22_case(ctx, r).boxed()
}
