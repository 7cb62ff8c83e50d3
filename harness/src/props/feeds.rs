//! C10: work unit feeds.
use super::faults::*;
use super::query::*;
use super::trace::*;
use crate::cluster::*;
use crate::core::*;
use crate::data::*;
use crate::feed::*;
use crate::mon::*;
use crate::oracle::judge;
use crate::qcfg::*;
use crate::world::*;
use datafusion::execution::SessionStateBuilder;
use datafusion_distributed::*;
use futures::FutureExt;
use futures::future::BoxFuture;
use http::HeaderMap;
use rand::Rng;
use rand::rngs::StdRng;
use std::sync::Arc;
use std::sync::atomic::Ordering;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Rows,
    Fails,
    NoGetters,
    Limit,
    Stops,
    Huge,
}

fn scans(p: &Prepared) -> Vec<Arc<Scan>> {
    p.w.tables.feeds.lock().unwrap().values().flat_map(|f| f.scans.lock().unwrap().clone()).collect()
}
fn forget(p: &Prepared) {
    for f in p.w.tables.feeds.lock().unwrap().values() {
        f.forget();
    }
}
fn open(p: &Prepared) -> i64 {
    p.w.tables.feeds.lock().unwrap().values().map(|f| f.open_sources()).sum()
}
fn check_all(p: &Prepared, ok: bool) -> Option<(String, String)> {
    scans(p).iter().find_map(|s| check_scan(s, ok))
}

/// (units sent, units received remotely, units received locally, remote readers)
fn tally(p: &Prepared) -> (u64, u64, u64, u64) {
    let mut t = (0, 0, 0, 0);
    for s in scans(p) {
        t.0 += s.calls.lock().unwrap().iter().map(|c| c.units.len() as u64).sum::<u64>();
        for r in s.recvs.lock().unwrap().iter() {
            if r.remote {
                t.1 += r.units.len() as u64;
                t.3 += 1;
            } else {
                t.2 += r.units.len() as u64;
            }
        }
    }
    t
}

async fn all_closed(p: &Prepared) -> bool {
    let t0 = std::time::Instant::now();
    loop {
        if open(p) == 0 {
            return true;
        }
        if t0.elapsed() > Duration::from_secs(15) {
            return false;
        }
        p.w.ctx.beat.fetch_add(1, Ordering::Relaxed);
        tokio::time::sleep(Duration::from_millis(3)).await;
    }
}

async fn c10_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let mode = pick(&mut r, &[Mode::Rows, Mode::Rows, Mode::Rows, Mode::Fails, Mode::Fails, Mode::NoGetters, Mode::Limit, Mode::Limit, Mode::Stops, Mode::Huge]);
    let hook: StateHook = Arc::new(|b: SessionStateBuilder, _: &HeaderMap, _| Ok(b.with_distributed_user_codec(FeedCodec)));
    let mut p = match world_query(&ctx, &mut r, |r, c, q, _| {
        c.hook = Some(hook);
        if r.random_bool(0.6) {
            q.bytes_per_partition = pick(r, &[1, 1, 200]);
        }
        if mode == Mode::Limit {
            q.dynamic = false;
        }
    })
    .await
    {
        Ok(p) => p,
        Err(e) => return e,
    };
    let used: Vec<String> = p.w.tables.specs.iter().map(|s| s.name.clone()).filter(|n| p.query.sql.contains(n.as_str())).collect();
    let all: Vec<String> = p.w.tables.specs.iter().map(|s| s.name.clone()).collect();
    let keep = pick(&mut r, &[0.4, 0.8, 1.0]);
    let mut fed: Vec<String> = all.iter().filter(|_| r.random_bool(keep)).cloned().collect();
    if !used.is_empty() && !used.iter().any(|u| fed.contains(u)) {
        fed.push(pick(&mut r, &used));
    }
    for n in &fed {
        let f = FeedShared::random(&mut r, p.w.tables.mon(n));
        p.w.tables.feeds.lock().unwrap().insert(n.clone(), f);
    }
    let getters = mode != Mode::NoGetters;
    p.w.extra = Some(Arc::new(move |b| Ok(feed_session(b, getters))));
    if r.random_bool(0.3) {
        p.w.colocate = Some(r.random_range(0..p.w.cluster.cfg.workers));
    }
    if r.random_bool(0.3) {
        p.w.mon.faults.lock().unwrap().delay = Some((30, pick(&mut r, &[1, 5, 20])));
    }
    if r.random_bool(0.2) {
        p.w.mon.skew.store(pick(&mut r, &[1_000_000, 5_000_000_000, 3_600_000_000_000]), Ordering::Relaxed);
    }
    let shapes: Vec<_> = p.w.tables.feeds.lock().unwrap().iter().map(|(n, f)| (n.clone(), f.scripts.lock().unwrap().iter().map(|s| s.len()).collect::<Vec<_>>(), f.second_type, f.twice)).collect();
    let desc = format!("{mode:?} feeds={shapes:?} home={:?} skew={} {}", p.w.colocate, p.w.mon.skew.load(Ordering::Relaxed), describe(&p));
    ctx.note(desc.clone());
    let res = match mode {
        Mode::Rows => rows(&ctx, &p).await,
        Mode::Huge => {
            // Units beyond the usual message limits arrive as they are.
            let f = p.w.tables.feeds.lock().unwrap().get(&fed[0]).cloned().unwrap();
            let n = f.total();
            let at = r.random_range(0..n);
            let mut ops = vec![];
            for _ in 0..r.random_range(1..4) {
                ops.push(Op::Unit { chunk: -1, payload: r.random_range(1..7) * 1_000_000 });
            }
            f.scripts.lock().unwrap()[at].splice(0..0, ops);
            rows(&ctx, &p).await
        }
        Mode::Fails => fails(&ctx, &mut r, &p, &fed).await,
        Mode::NoGetters => no_getters(&p).await,
        Mode::Limit => limit(&ctx, &mut r, &p, &fed).await,
        Mode::Stops => stops(&ctx, &mut r, &p).await,
    };
    let res = match res.verdict {
        Verdict::Violation(s, d) => return CaseResult::viol(s, format!("{d} | {desc}")),
        Verdict::Inconclusive(_) => return res,
        Verdict::Ok => res,
    };
    if !all_closed(&p).await {
        return CaseResult::viol("feeds-left-open", format!("{} feed streams still open | {desc}", open(&p)));
    }
    let t = tally(&p);
    let fp = mix(hash_str(&format!("{mode:?}{}", p.query.sql)), shape_fp(&p.w.mon.log.lock().unwrap()));
    let mut res = res.count("units_sent", t.0).count("units_received_remotely", t.1).count("units_received_locally", t.2).count("remote_readers", t.3).count(&format!("mode_{mode:?}"), 1);
    res.nontrivial = (t.3 > 1).then_some(fp);
    res
}

async fn rows(ctx: &Arc<CaseCtx>, p: &Prepared) -> CaseResult {
    let res = judge_distributed(ctx, p).await;
    if !matches!(res.verdict, Verdict::Ok) {
        // the sequence of units may say more
        if let (Verdict::Violation(..), Some((s, d))) = (&res.verdict, check_all(p, false)) {
            return CaseResult::viol(s, d);
        }
        return res;
    }
    if let Some((s, d)) = check_all(p, true) {
        return CaseResult::viol(s, d);
    }
    res
}

/// One execution of the query: Ok(rows) or the error or, for a panic, None.
async fn once(p: &Prepared, sql: &str, stop: &Stop) -> Result<Option<Ran>, CaseResult> {
    let dc = p.w.distributed().await.map_err(|e| CaseResult::inconclusive(format!("session: {}", err_short(&e))))?;
    let mut ran = std::panic::AssertUnwindSafe(run_stop(&p.w.mon, &dc, sql, stop)).catch_unwind().await.ok();
    if let Some(r) = &mut ran {
        r.plan = None;
    }
    Ok(ran)
}

async fn fails(ctx: &Arc<CaseCtx>, r: &mut StdRng, p: &Prepared, fed: &[String]) -> CaseResult {
    let mut res = CaseResult::ok();
    for round in 0..3 {
        let f = p.w.tables.feeds.lock().unwrap().get(&pick(r, fed)).cloned().unwrap();
        let n = f.total();
        let at = r.random_range(0..n);
        let old = f.scripts.lock().unwrap()[at].clone();
        let kind = r.random_range(0..5);
        match kind {
            0 => *f.fail_call.lock().unwrap() = Some(at),
            1 => {
                let i = r.random_range(0..=old.len());
                f.scripts.lock().unwrap()[at].insert(i, Op::Panic);
            }
            _ => {
                let i = if kind == 2 { old.len() } else { r.random_range(0..=old.len()) };
                f.scripts.lock().unwrap()[at].insert(i, Op::Err);
            }
        }
        let failed_before = f.failed_calls.load(Ordering::SeqCst);
        ctx.note(format!("{} failing in feed {at} (kind {kind}) | {}", f.table.name, describe(p)));
        let got = match once(p, &p.query.sql, &Stop::ReadAll).await {
            Ok(g) => g,
            Err(e) => return e,
        };
        let failed_call = f.failed_calls.load(Ordering::SeqCst) > failed_before;
        let errored = f.scans.lock().unwrap().iter().flat_map(|s| s.calls.lock().unwrap().clone()).any(|c| c.end == SrcEnd::Errored);
        // readers that saw an end of a feed that had none
        let misled = scans(p).iter().find_map(|s| {
            let calls = s.calls.lock().unwrap();
            s.recvs.lock().unwrap().iter().find(|x| x.ended && x.units.first().is_some_and(|u| calls[u.0 as usize].end == SrcEnd::Errored)).map(|x| format!("{x:?}").chars().take(200).collect::<String>())
        });
        *f.fail_call.lock().unwrap() = None;
        f.scripts.lock().unwrap()[at] = old;
        let what = format!("{} feed {at} kind {kind}, errored={errored} failed_call={failed_call}", f.table.name);
        match got {
            None => {
                if !errored {
                    return CaseResult::viol("spurious-panic", what);
                }
            }
            Some(Ran { got: Some(Ok(g)), .. }) => {
                if failed_call && !p.query.sql.contains("LIMIT") {
                    return CaseResult::viol("feed-failure-lost", format!("the query succeeded although asking for a feed failed ({what})"));
                }
                if let Some(m) = misled {
                    return CaseResult::viol("truncated-feed", format!("the query succeeded although a reader took a failed feed for ended ({what}): {m}"));
                }
                if let Some(d) = judge(&p.query, &p.exp, &g, p.unl.as_deref()) {
                    if datafusion_disagrees(p).await.is_some() {
                        return CaseResult::inconclusive("plain DataFusion disagrees with itself");
                    }
                    return CaseResult::viol("wrong-rows-after-feed-failure", format!("{d} ({what})"));
                }
                res = res.count("failures_without_effect", 1);
            }
            Some(Ran { got: Some(Err(e)), .. }) => {
                if !errored && !failed_call {
                    if datafusion_fails(p, &e).await || !plain_plans_it(p).await {
                        return CaseResult::inconclusive("plain DataFusion cannot run this query with these options");
                    }
                    return CaseResult::viol("spurious-error", format!("{} ({what})", err_short(&e)));
                }
                // what a panic said does not survive in the text of a join error
                if !e.to_string().contains("injected") && kind != 1 {
                    return CaseResult::viol("feed-error-lost", format!("{} ({what})", err_short(&e)));
                }
                res = res.count("feed_errors_reported", 1);
            }
            Some(_) => return CaseResult::inconclusive("no result"),
        }
        if let Some((s, d)) = check_all(p, false) {
            return CaseResult::viol(s, format!("{d} ({what})"));
        }
        if !all_closed(p).await {
            return CaseResult::viol("feeds-left-open", format!("{} feed streams still open ({what})", open(p)));
        }
        if round < 2 {
            forget(p);
        }
    }
    // and then without
    forget(p);
    let again = rows(ctx, p).await;
    match again.verdict {
        Verdict::Ok => res,
        _ => again,
    }
}

/// Workers without anyone to feed them must say so.
async fn no_getters(p: &Prepared) -> CaseResult {
    let got = match once(p, &p.query.sql, &Stop::ReadAll).await {
        Ok(g) => g,
        Err(e) => return e,
    };
    let remote = p.w.mon.log.lock().unwrap().coord.iter().any(|c| c.plan.as_deref().is_some_and(|s| s.contains("FeedExec")));
    match got {
        None => CaseResult::viol("panic-without-getters", "panicked"),
        Some(Ran { got: Some(Ok(g)), .. }) => {
            if let Some(d) = judge(&p.query, &p.exp, &g, p.unl.as_deref()) {
                if datafusion_disagrees(p).await.is_some() {
                    return CaseResult::inconclusive("plain DataFusion disagrees with itself");
                }
                return CaseResult::viol("wrong-rows-without-getters", d);
            }
            let read = scans(p).iter().any(|s| s.recvs.lock().unwrap().iter().any(|r| r.remote && !r.units.is_empty()));
            if read {
                return CaseResult::viol("units-without-getters", "units came from nowhere");
            }
            CaseResult::ok().count("fine_without_getters", 1)
        }
        Some(Ran { got: Some(Err(e)), .. }) => {
            if !remote && p.w.colocate.is_none() {
                if datafusion_fails(p, &e).await || !plain_plans_it(p).await {
                    return CaseResult::inconclusive("plain DataFusion cannot run this query with these options");
                }
                return CaseResult::viol("spurious-error", err_short(&e));
            }
            CaseResult::ok().count("missing_getters_reported", 1)
        }
        Some(_) => CaseResult::inconclusive("no result"),
    }
}

/// A satisfiable LIMIT over feeds that never end.
async fn limit(ctx: &Arc<CaseCtx>, r: &mut StdRng, p: &Prepared, fed: &[String]) -> CaseResult {
    let a = pick(r, fed);
    let b = pick(r, fed);
    let mut total = 0;
    let union = r.random_bool(0.3);
    for n in if union { vec![&a, &b] } else { vec![&a] } {
        total += p.w.tables.mon(n).total_rows();
    }
    for n in [&a, &b] {
        let f = p.w.tables.feeds.lock().unwrap().get(n).cloned().unwrap();
        let mut s = f.scripts.lock().unwrap();
        let every = r.random_bool(0.5);
        for x in s.iter_mut() {
            if every || r.random_bool(0.5) {
                x.push(match r.random_range(0..4) {
                    0 => Op::Endless,
                    1 | 2 => Op::Block,
                    _ => Op::WaitUs(40_000_000),
                });
            }
        }
    }
    if total == 0 {
        return CaseResult::ok();
    }
    let n = r.random_range(1..=total);
    let sql = if union { format!("SELECT id, k FROM (SELECT id, k FROM {a} UNION ALL SELECT id, k FROM {b}) LIMIT {n}") } else { format!("SELECT id, k FROM {a} LIMIT {n}") };
    ctx.note(format!("{sql} | {}", describe(p)));
    let t0 = std::time::Instant::now();
    let got = match tokio::time::timeout(Duration::from_secs(15), once(p, &sql, &Stop::ReadAll)).await {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => return e,
        Err(_) => return CaseResult::viol("limit-waits-for-feeds", format!("{sql} did not end within 15 s although its rows are there; {} of {:?} units read", tally(p).1, scans(p).iter().map(|s| s.recvs.lock().unwrap().iter().map(|r| (r.partition, r.units.len(), r.ended)).collect::<Vec<_>>()).collect::<Vec<_>>())),
    };
    match got {
        Some(Ran { got: Some(Ok(g)), .. }) => {
            let m: usize = g.iter().map(|b| b.num_rows()).sum();
            if m != n {
                return CaseResult::viol("limit-rows", format!("{m} rows for {sql}"));
            }
        }
        Some(Ran { got: Some(Err(e)), .. }) => return CaseResult::viol("limit-fails", format!("{} for {sql}", err_short(&e))),
        _ => return CaseResult::viol("limit-panics", sql),
    }
    if let Some((s, d)) = check_all(p, true) {
        return CaseResult::viol(s, d);
    }
    CaseResult::ok().count("limits_over_endless_feeds", 1).count("limit_ms", t0.elapsed().as_millis() as u64)
}

async fn stops(ctx: &Arc<CaseCtx>, r: &mut StdRng, p: &Prepared) -> CaseResult {
    let mut res = CaseResult::ok();
    // now and then with feeds that never end
    if r.random_bool(0.5) {
        for f in p.w.tables.feeds.lock().unwrap().values() {
            for x in f.scripts.lock().unwrap().iter_mut() {
                if r.random_bool(0.3) {
                    let i = r.random_range(0..=x.len());
                    x.insert(i, pick(r, &[Op::Endless, Op::Block]));
                }
            }
        }
        res = res.count("stops_with_endless_feeds", 1);
    }
    let endless = res.counters.iter().any(|c| c.0 == "stops_with_endless_feeds");
    for _ in 0..4 {
        let x = Extent { exec: 1, coord: 1, batch: 1, sessions: 1, rewrites: 1, bytes: 0, micros: 4000 };
        let s = match random_stop(r, &x) {
            // would wait for ever
            Stop::ReadAll | Stop::DropAfter(_) if endless => Stop::AbortAfterUs(r.random_range(0..8000)),
            s => s,
        };
        ctx.note(format!("{s:?} | {}", describe(p)));
        let got = match once(p, &p.query.sql, &s).await {
            Ok(g) => g,
            Err(e) => return e,
        };
        let Some(ran) = got else {
            return CaseResult::viol("panics-when-stopped", format!("{s:?}"));
        };
        if let Some(Err(e)) = &ran.got {
            if datafusion_fails(p, e).await || !plain_plans_it(p).await {
                return CaseResult::inconclusive("plain DataFusion cannot run this query with these options");
            }
            return CaseResult::viol("fails-when-stopped", format!("{} with {s:?}", err_short(e)));
        }
        if s == Stop::ReadAll
            && let Some(Ok(g)) = &ran.got
            && let Some(d) = judge(&p.query, &p.exp, g, p.unl.as_deref())
        {
            if datafusion_disagrees(p).await.is_some() {
                return CaseResult::inconclusive("plain DataFusion disagrees with itself");
            }
            return CaseResult::viol("wrong-rows", format!("{d} with {s:?}"));
        }
        drop(ran);
        if !all_closed(p).await {
            return CaseResult::viol("feeds-left-open", format!("{} feed streams still open after {s:?}", open(p)));
        }
        let v = settled(&p.w, Duration::from_secs(15), false).await;
        if !v.is_empty() {
            return CaseResult::viol(format!("left-{}", v[0].0), format!("{v:?} after {s:?}"));
        }
        if let Some((sg, d)) = check_all(p, s == Stop::ReadAll) {
            return CaseResult::viol(sg, format!("{d} after {s:?}"));
        }
        res = res.count("endings", 1);
    }
    res
}

pub fn c10(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(c10_case(ctx, r))
}
