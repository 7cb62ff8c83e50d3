//! C21: queries running at once, and plans that run again and again.
use super::faults::*;
use super::query::*;
use super::trace::*;
use crate::cluster::*;
use crate::core::*;
use crate::qcfg::*;
use crate::mon::*;
use crate::oracle::judge;
use crate::world::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::Result;
use datafusion::physical_plan::execution_plan::reset_plan_states;
use datafusion::physical_plan::{ExecutionPlan, execute_stream};
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use futures::FutureExt;
use futures::StreamExt;
use futures::future::BoxFuture;
use http::{HeaderMap, HeaderValue};
use rand::Rng;
use rand::rngs::StdRng;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::Ordering;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    /// planned again
    Fresh,
    /// the very same plan object, or a reset copy of it, as DataFusion wants for those keeping state
    Shared,
}

#[derive(Clone, Debug)]
enum What {
    Full,
    /// casts a text with this number in it to an integer
    Fails(usize),
    Stopped(Stop),
}

#[derive(Clone, Debug)]
struct Step {
    q: usize,
    session: usize,
    via: Via,
    what: What,
    wait_us: u64,
    n: usize,
}

/// What of a plan runs in the coordinator, outside of network boundaries.
fn head(p: &Arc<dyn ExecutionPlan>, f: &mut dyn FnMut(&Arc<dyn ExecutionPlan>)) {
    f(p);
    if !p.is_network_boundary() {
        p.children().into_iter().for_each(|c| head(c, f));
    }
}

/// Whether plain DataFusion operators of the head stage can run again: `Some(true)` right away,
/// `Some(false)` once their state is reset.
fn runs_again(p: &Arc<dyn ExecutionPlan>) -> Option<bool> {
    let (mut leaf, mut keeps) = (false, false);
    head(p, &mut |n| {
        leaf |= n.children().is_empty() && !n.is_network_boundary();
        keeps |= !n.is_network_boundary()
            && match n.name() {
                "DistributedExec" | "ProjectionExec" | "FilterExec" | "CoalescePartitionsExec" | "SortPreservingMergeExec" | "GlobalLimitExec" | "LocalLimitExec" | "AggregateExec" => false,
                "SortExec" => n.fetch().is_some(),
                _ => true,
            };
    });
    if leaf { None } else { Some(!keeps) }
}

struct Setup {
    p: Prepared,
    others: Vec<Answered>,
    sessions: Vec<SessionContext>,
    plans: BTreeMap<usize, (Arc<dyn ExecutionPlan>, bool)>,
}
impl Setup {
    fn q(&self, i: usize) -> (&crate::sqlgen::Query, &[RecordBatch], Option<&[RecordBatch]>) {
        match i {
            0 => (&self.p.query, &self.p.exp, self.p.unl.as_deref()),
            _ => {
                let x = &self.others[i - 1];
                (&x.0, &x.1, x.2.as_deref())
            }
        }
    }
    fn sql(&self, s: &Step) -> String {
        let (q, exp, _) = self.q(s.q);
        match s.what {
            What::Fails(n) => {
                let c = exp[0].schema().field(0).name().clone();
                format!("SELECT CAST(concat('boom{n}-', CAST(\"{c}\" AS VARCHAR)) AS BIGINT) AS x FROM ({}) zz", q.sql)
            }
            _ => q.sql.clone(),
        }
    }
}

struct Outcome {
    got: Option<Result<Vec<RecordBatch>>>,
    plan: Option<Arc<dyn ExecutionPlan>>,
}

async fn step(s: &Setup, st: &Step) -> Outcome {
    tokio::time::sleep(Duration::from_micros(st.wait_us)).await;
    let dc = &s.sessions[st.session];
    let mon = &s.p.w.mon;
    if let (Via::Shared, Some((plan, raw))) = (st.via, s.plans.get(&st.q)) {
        let plan = match raw {
            true => Arc::clone(plan),
            false => match reset_plan_states(Arc::clone(plan)) {
                Ok(p) => p,
                Err(e) => return Outcome { got: Some(Err(e)), plan: None },
            },
        };
        let got = match &st.what {
            What::Stopped(Stop::DropAfter(n)) => match execute_stream(Arc::clone(&plan), dc.task_ctx()) {
                Ok(mut x) => {
                    for _ in 0..*n {
                        if x.next().await.is_none() {
                            break;
                        }
                    }
                    None
                }
                Err(e) => Some(Err(e)),
            },
            What::Stopped(Stop::AbortAfterUs(us)) => {
                let _ = tokio::time::timeout(Duration::from_micros(*us), run_plan(mon, &plan, dc)).await;
                None
            }
            _ => Some(run_plan(mon, &plan, dc).await),
        };
        return Outcome { got, plan: Some(plan) };
    }
    let stop = match &st.what {
        What::Stopped(x) => x.clone(),
        _ => Stop::ReadAll,
    };
    let ran = run_stop(mon, dc, &s.sql(st), &stop).await;
    Outcome { got: ran.got, plan: ran.plan }
}

/// What is wrong with how a step ended.
fn judge_step(s: &Setup, st: &Step, o: &Outcome) -> Option<(String, String)> {
    match (&st.what, &o.got) {
        (What::Full, Some(Ok(b))) => {
            let (q, exp, unl) = s.q(st.q);
            judge(q, exp, b, unl).map(|d| ("rows".to_string(), d))
        }
        (What::Full, Some(Err(e))) => Some(("error".into(), err_short(e))),
        (What::Full, None) => Some(("no-result".into(), "nothing".into())),
        (What::Fails(n), Some(Err(e))) => {
            let e = e.to_string();
            let others: Vec<&str> = e.match_indices("boom").map(|(i, _)| &e[i..]).filter(|t| !t.starts_with(&format!("boom{n}-"))).collect();
            if !others.is_empty() {
                Some(("error-of-another".into(), format!("failing query {n} reports {}", others[0].chars().take(120).collect::<String>())))
            } else if !e.contains(&format!("boom{n}-")) {
                Some(("error-replaced".into(), format!("failing query {n} reports {}", e.chars().take(300).collect::<String>())))
            } else {
                None
            }
        }
        (What::Fails(n), Some(Ok(_))) => Some(("failure-lost".into(), format!("failing query {n} succeeds"))),
        (What::Fails(_), None) => None,
        (What::Stopped(_), Some(Err(e))) => Some(("error".into(), err_short(e))),
        (What::Stopped(_), _) => None,
    }
}

async fn c21_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let mut names = vec![];
    let p = match world_query(&ctx, &mut r, |r, c, q, specs| {
        c.hook = Some(Arc::new(|b, h: &HeaderMap, _| {
            // What workers ask of each other is marked with whom it is for, too.
            let mut m = HeaderMap::new();
            if let Some(v) = h.get("x-who") {
                m.insert("x-who", v.clone());
            }
            b.with_distributed_passthrough_headers(m)
        }));
        if r.random_bool(0.4) {
            c.workers = r.random_range(1..4);
        }
        if r.random_bool(0.6) {
            q.bytes_per_partition = pick(r, &[1, 1, 200]);
        }
        if r.random_bool(0.5) {
            specs.truncate(2);
        }
        names = specs.iter().map(|s| s.name.clone()).collect();
    })
    .await
    {
        Ok(p) => p,
        Err(e) => return e,
    };
    let mut others = vec![];
    for _ in 0..r.random_range(0..3) {
        let depth = r.random_range(1..3);
        let prof = pick(&mut r, &[Profile::General, Profile::Joins, Profile::Order, Profile::Unions]);
        match another_query(&ctx, &mut r, prof, depth, &p.w, &names).await {
            Ok(Some(q)) => others.push(q),
            Ok(None) => {}
            Err(e) => return e,
        }
    }
    let mut s = Setup { p, others, sessions: vec![], plans: Default::default() };
    let nq = 1 + s.others.len();
    let ns = r.random_range(1..4);
    for i in 0..ns {
        let mut h = HeaderMap::new();
        h.insert("x-who", HeaderValue::from_str(&format!("s{i}")).unwrap());
        match s.p.w.distributed_with(&move |b| b.with_distributed_passthrough_headers(h.clone())).await {
            Ok(c) => s.sessions.push(c),
            Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
        }
    }
    // Every query alone, with a plan that is going to be shared.
    for q in 0..nq {
        let (query, exp, unl) = s.q(q);
        let plan = match plan_of(&s.sessions[0], &query.sql).await {
            Ok(p) => p,
            Err(e) => return CaseResult::inconclusive(format!("planning: {}", err_short(&e).chars().take(80).collect::<String>())),
        };
        if !find_distributed(&plan) {
            continue;
        }
        let again = runs_again(&plan);
        match run_plan(&s.p.w.mon, &plan, &s.sessions[0]).await {
            Ok(b) if judge(query, exp, &b, unl).is_none() => {}
            Ok(_) => return CaseResult::inconclusive("rows differ alone, too"),
            Err(e) => return CaseResult::inconclusive(format!("alone: {}", err_short(&e).chars().take(80).collect::<String>())),
        }
        if let Some(raw) = again {
            s.plans.insert(q, (plan, raw));
        }
    }
    let left = settled(&s.p.w, Duration::from_secs(15), true).await;
    if !left.is_empty() {
        return CaseResult::viol(format!("left-alone: {}", left[0].0), format!("{left:?} | {}", describe(&s.p)));
    }
    s.p.w.mon.clear();
    if r.random_bool(0.6) {
        s.p.w.mon.faults.lock().unwrap().delay = Some((pick(&mut r, &[5, 30, 60]), pick(&mut r, &[1, 3, 10])));
    }
    // The program: lanes of steps at once.
    let lanes_n = r.random_range(2..9);
    let mostly = pick(&mut r, &[Via::Fresh, Via::Shared]);
    let mut n = 0;
    let lanes: Vec<Vec<Step>> = (0..lanes_n)
        .map(|_| {
            (0..r.random_range(1..4))
                .map(|_| {
                    n += 1;
                    let q = if r.random_bool(0.5) { 0 } else { r.random_range(0..nq) };
                    let via = if r.random_bool(0.75) && s.plans.contains_key(&q) { mostly } else { Via::Fresh };
                    let some = s.q(q).1.iter().any(|b| b.num_rows() > 0);
                    let what = match r.random_range(0..10) {
                        0..2 if some && via == Via::Fresh => What::Fails(n),
                        2..5 => What::Stopped(match r.random_range(0..4) {
                            0 if via == Via::Fresh => Stop::NeverPolled,
                            1 => Stop::DropAfter(r.random_range(0..3)),
                            _ => Stop::AbortAfterUs(pick(&mut r, &[0, 300, 2000, 10_000, 50_000])),
                        }),
                        _ => What::Full,
                    };
                    Step { q, session: r.random_range(0..ns), via, what, wait_us: pick(&mut r, &[0, 0, 0, 200, 3000]), n }
                })
                .collect()
        })
        .collect();
    let text = {
        let mut t = format!("adaptive={} lanes={lanes:?} | others={:?} | shared={:?} | {}", s.p.w.q.dynamic, s.others.iter().map(|o| &o.0.sql).collect::<Vec<_>>(), s.plans.iter().map(|p| (p.0, p.1.1)).collect::<Vec<_>>(), describe(&s.p));
        t.truncate(9000);
        t
    };
    ctx.note(text.clone());
    let s = Arc::new(s);
    let mut set = tokio::task::JoinSet::new();
    for lane in lanes.clone() {
        let s = Arc::clone(&s);
        set.spawn(async move {
            let mut out = vec![];
            for st in lane {
                let o = step(&s, &st).await;
                out.push((st, o));
            }
            out
        });
    }
    let mut all: Vec<(Step, Outcome)> = vec![];
    while let Some(x) = set.join_next().await {
        match x {
            Ok(v) => all.extend(v),
            Err(e) => return CaseResult::viol("panic", format!("{e} | {text}")),
        }
    }
    s.p.w.mon.faults.lock().unwrap().delay = None;
    let mut bad = None;
    for (st, o) in &all {
        if let Some((sig, d)) = judge_step(&s, st, o) {
            bad = Some((st.clone(), sig, d));
            break;
        }
    }
    // Who spoke of which task.
    let mut crossed = None;
    let (mut tasks, mut reads, mut collisions) = (0u64, 0u64, 0u64);
    {
        let log = s.p.w.mon.log.lock().unwrap();
        let mut owner: BTreeMap<String, Vec<&HeaderValue>> = BTreeMap::new();
        for c in &log.coord {
            tasks += 1;
            let o = owner.entry(format!("{:?}", c.key)).or_default();
            collisions += !o.is_empty() as u64;
            match c.headers.get("x-who") {
                Some(h) => o.push(h),
                None => crossed = Some(("unmarked".to_string(), format!("task {:?} was sent without its session's header", c.key))),
            }
        }
        for e in &log.exec {
            reads += 1;
            let Some(o) = owner.get(&format!("{:?}", e.key)) else {
                // Whoever is stopped early might have asked before the task was sent.
                if e.parts.iter().any(|p| p.batches > 0) {
                    crossed = Some(("unknown-task".into(), format!("{:?} reads task {:?}, which nobody sent", e.caller, e.key)));
                }
                continue;
            };
            if let Some(h) = e.headers.get("x-who")
                && !o.contains(&h)
            {
                crossed = Some(("another-session".into(), format!("{:?} asked for task {:?} of {o:?} in the name of {h:?}", e.caller, e.key)));
            }
        }
    }
    if let Some((st, sig, d)) = bad {
        // Only what happens together counts here: the same steps one after another, from a clean slate.
        settled(&s.p.w, Duration::from_secs(15), true).await;
        for _ in 0..4 {
            let mut alone = st.clone();
            alone.via = Via::Fresh;
            let o = step(&s, &alone).await;
            if judge_step(&s, &alone, &o).is_some() {
                return CaseResult::inconclusive(format!("{sig} alone, too"));
            }
        }
        if st.q == 0 && datafusion_disagrees(&s.p).await.is_some() {
            return CaseResult::inconclusive("plain DataFusion disagrees with itself");
        }
        if st.via == Via::Shared && alone_twice_is_wrong(&s, &st).await {
            return CaseResult::viol(format!("again-{sig}"), format!("step {st:?}: {d} | {text}"));
        }
        return CaseResult::viol(format!("together-{sig}"), format!("step {st:?}: {d} | {text}"));
    }
    if let Some((sig, d)) = crossed {
        return CaseResult::viol(sig, format!("{d} | {text}"));
    }
    let full = all.iter().filter(|x| matches!(x.0.what, What::Full)).count() as u64;
    let failed = all.iter().filter(|x| matches!((&x.0.what, &x.1.got), (What::Fails(_), Some(Err(_))))).count() as u64;
    let stopped = all.iter().filter(|x| matches!(x.0.what, What::Stopped(_))).count() as u64;
    let shared = all.iter().filter(|x| x.0.via == Via::Shared && matches!(x.0.what, What::Full)).count() as u64;
    let marked = all.iter().filter_map(|x| x.1.plan.as_ref()).filter(|p| find_distributed(p)).count() as u64;
    drop(all);
    let kept = !s.plans.is_empty();
    let left = settled(&s.p.w, Duration::from_secs(15), kept).await;
    if !left.is_empty() {
        return CaseResult::viol(format!("left: {}", left[0].0), format!("{left:?} | {text}"));
    }
    // And afterwards, everything is as before.
    for q in 0..nq {
        let via = if s.plans.contains_key(&q) && r.random_bool(0.5) { Via::Shared } else { Via::Fresh };
        let st = Step { q, session: r.random_range(0..ns), via, what: What::Full, wait_us: 0, n: 0 };
        let o = step(&s, &st).await;
        if let Some((sig, d)) = judge_step(&s, &st, &o) {
            if q == 0 && datafusion_disagrees(&s.p).await.is_some() {
                return CaseResult::inconclusive("plain DataFusion disagrees with itself");
            }
            let plan = s.plans.get(&q).map(|p| plan_str(&p.0)).unwrap_or_default();
            return CaseResult::viol(format!("after-{sig}"), format!("step {st:?}: {d} | {text} | plan:\n{plan}"));
        }
    }
    let log = s.p.w.mon.log.lock().unwrap();
    let mut res = CaseResult::ok()
        .count("full_results_compared", full)
        .count("failures_compared", failed)
        .count("stopped", stopped)
        .count("plans_run_again", shared)
        .count("queries_distributed", marked)
        .count("tasks_dispatched", tasks)
        .count("remote_reads", reads)
        .count("lanes", lanes_n as u64)
        .count("keys_used_again", collisions);
    if marked > 1 && tasks > 2 {
        res = res.seen(mix(hash_str(&text), order_fp(&log))).sampled(json!({"lanes": format!("{lanes:?}").chars().take(600).collect::<String>(), "tasks": tasks, "order_fp": format!("{:x}", order_fp(&log))}));
    }
    let _ = ctx.beat.load(Ordering::Relaxed);
    res
}

/// Whether running the plan twice in a row, with nothing else going on, is enough to see it.
async fn alone_twice_is_wrong(s: &Setup, st: &Step) -> bool {
    let st = Step { what: What::Full, wait_us: 0, ..st.clone() };
    for _ in 0..3 {
        let o = step(s, &st).await;
        if judge_step(s, &st, &o).is_some() {
            return true;
        }
    }
    false
}

pub fn c21(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    c21_case(ctx, r).boxed()
}
