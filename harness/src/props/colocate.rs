//! C23: the coordinator inside a worker process.
use super::faults::*;
use super::query::*;
use super::session::dump_cfg;
use super::trace::*;
use crate::cluster::*;
use crate::core::*;
use crate::data::*;
use crate::mon::*;
use crate::oracle::judge;
use crate::qcfg::*;
use crate::world::*;
use datafusion::common::extensions_options;
use datafusion::config::ConfigExtension;
use datafusion::execution::SessionStateBuilder;
use datafusion_distributed::*;
use futures::FutureExt;
use futures::future::BoxFuture;
use http::{HeaderMap, HeaderValue};
use rand::Rng;
use rand::rngs::StdRng;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

extensions_options! {
    pub struct TagExt {
        pub tag: String, default = "none".to_string()
    }
}
impl ConfigExtension for TagExt {
    const PREFIX: &'static str = "tagged";
}

#[derive(Clone, Debug)]
struct Built {
    worker: usize,
    tag: Option<String>,
    cfg: BTreeMap<String, Option<String>>,
    task: (usize, usize),
}

async fn c23_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let built: Arc<Mutex<Vec<Built>>> = Default::default();
    let b2 = Arc::clone(&built);
    let arm_ = Arm::new();
    let inner = arm_.hook();
    let hook: StateHook = Arc::new(move |b: SessionStateBuilder, h: &HeaderMap, i: usize| {
        let b = inner(b, h, i)?;
        let mut b = b.with_distributed_option_extension_from_headers::<TagExt>(h)?;
        let c = b.config().clone().unwrap();
        let t = c.get_extension::<DistributedTaskContext>().map(|t| (t.task_index, t.task_count)).unwrap_or((usize::MAX, 0));
        b2.lock().unwrap().push(Built { worker: i, tag: h.get("x-tag").and_then(|v| v.to_str().ok()).map(|s| s.to_string()), cfg: dump_cfg(&c), task: t });
        Ok(b)
    });
    let mode = pick(&mut r, &[0, 0, 0, 1, 1, 2]);
    let mut p = match world_query(&ctx, &mut r, |r, c, q, specs| {
        c.hook = Some(hook);
        if r.random_bool(0.4) {
            c.workers = r.random_range(1..3);
        }
        if r.random_bool(0.5) {
            q.max_tasks = pick(r, &[3, 4, 7, 11]);
        }
        if r.random_bool(0.6) {
            q.bytes_per_partition = pick(r, &[1, 1, 200]);
        }
        if mode == 1 {
            for s in specs.iter_mut() {
                s.parquet = false;
            }
        }
    })
    .await
    {
        Ok(p) => p,
        Err(e) => return e,
    };
    let home = r.random_range(0..p.w.cluster.cfg.workers);
    let tag = format!("tag-{}", r.random_range(0..1_000_000));
    let t2 = tag.clone();
    p.w.extra = Some(Arc::new(move |b: SessionStateBuilder| {
        let mut h = HeaderMap::new();
        h.insert("x-tag", HeaderValue::from_str(&t2).unwrap());
        let mut e = TagExt::default();
        e.tag = t2.clone();
        b.with_distributed_option_extension(e).with_distributed_passthrough_headers(h)
    }));
    p.w.colocate = Some(home);
    if r.random_bool(0.3) {
        p.w.mon.faults.lock().unwrap().delay = Some((30, pick(&mut r, &[1, 5])));
    }
    let desc = format!("home={home} style={} mode={mode} {}", p.w.cluster.cfg.url_style, describe(&p));
    ctx.note(desc.clone());
    // Rows.
    let mut res = judge_distributed(&ctx, &p).await;
    match res.verdict {
        Verdict::Ok => {}
        Verdict::Violation(s, d) => return CaseResult::viol(format!("colocated-{s}"), format!("{d} | {desc}")),
        _ => return res,
    }
    if let Some((s, d)) = check_trace(&p.w, &built, home, &tag, true) {
        return CaseResult::viol(s, format!("{d} | {desc}\n{}", dump_log(&p.w.mon.log.lock().unwrap())));
    }
    let local = built.lock().unwrap().iter().filter(|b| b.worker == home).count() as u64;
    res = res.count("local_tasks", local).count("remote_tasks", p.w.mon.log.lock().unwrap().coord.len() as u64);
    if mode == 1 {
        // The same mishap with and without the shortcut.
        let dc = match p.w.distributed().await {
            Ok(c) => c,
            Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
        };
        p.w.colocate = None;
        let rc = match p.w.distributed().await {
            Ok(c) => c,
            Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
        };
        p.w.colocate = Some(home);
        for _ in 0..3 {
            let x = Extent { exec: 1, coord: 1, batch: 1, sessions: local + 2, rewrites: local + 2, bytes: 0, micros: 0 };
            let m = loop {
                let m = random_mishap(&mut r, &p.w, &x);
                if matches!(m, Mishap::None | Mishap::LeafError(..) | Mishap::LeafStart(..) | Mishap::LeafPanic(..) | Mishap::LeafSlow(..) | Mishap::Session(_) | Mishap::Rewrite(_)) {
                    break m;
                }
            };
            ctx.note(format!("{m:?} | {desc}"));
            let mut outs = vec![];
            let mut panics = vec![];
            for c in [&dc, &rc] {
                let before = fired(&p.w, &arm_);
                arm(&p.w, &arm_, &m);
                let ran = std::panic::AssertUnwindSafe(run_stop(&p.w.mon, c, &p.query.sql, &Stop::ReadAll)).catch_unwind().await;
                let Ok(ran) = ran else {
                    // in the head stage, or not distributed at all
                    disarm(&p.w, &arm_, &m).await;
                    panics.push(outs.len());
                    outs.push((true, None));
                    continue;
                };
                let hit = fired(&p.w, &arm_) > before;
                disarm(&p.w, &arm_, &m).await;
                match ran.got {
                    Some(Ok(g)) => {
                        if let Some(d) = judge(&p.query, &p.exp, &g, p.unl.as_deref()) {
                            return CaseResult::viol("wrong-rows-with-mishap", format!("{d} with {m:?}, hit={hit} | {desc}"));
                        }
                        outs.push((hit, None));
                    }
                    Some(Err(e)) => outs.push((hit, Some(e))),
                    None => return CaseResult::inconclusive("no result"),
                }
            }
            res = res.count("mishaps", 1);
            if panics.len() == 1 && outs[1 - panics[0]].1.is_some() {
                return CaseResult::viol("panics-differ", format!("{m:?} makes only the {} run panic | {desc}", ["co-located", "remote"][panics[0]]));
            }
            for (i, (hit, e)) in outs.iter().enumerate() {
                let who = ["co-located", "remote"][i];
                match e {
                    Some(e) if !hit => return CaseResult::viol(format!("spurious-{who}-error"), format!("{} although nothing went wrong ({m:?}) | {desc}", err_short(e))),
                    Some(e) if !e.to_string().contains("injected") => return CaseResult::viol(format!("cause-lost-{who}"), format!("{m:?} reported as {} | {desc}", err_short(e))),
                    _ => {}
                }
            }
            if let (Some(a), Some(b)) = (&outs[0].1, &outs[1].1) {
                res = res.count("errors_compared", 1);
                if !matches!(m, Mishap::LeafPanic(..)) && std::mem::discriminant(a.find_root()) != std::mem::discriminant(b.find_root()) {
                    return CaseResult::viol("error-kind-differs", format!("co-located {:?}, remote {:?} with {m:?} | {desc}", a.find_root(), b.find_root()));
                }
            }
        }
    }
    if mode == 2 {
        let dc = match p.w.distributed().await {
            Ok(c) => c,
            Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
        };
        let x = Extent { exec: 1, coord: 1, batch: 1, sessions: 1, rewrites: 1, bytes: 0, micros: 3000 };
        for _ in 0..4 {
            let s = random_stop(&mut r, &x);
            ctx.note(format!("{s:?} | {desc}"));
            let ran = run_stop(&p.w.mon, &dc, &p.query.sql, &s).await;
            if let Some(Err(e)) = &ran.got {
                return CaseResult::viol("fails-when-repeated", format!("{} with {s:?} | {desc}", err_short(e)));
            }
            if s == Stop::ReadAll
                && let Some(Ok(g)) = &ran.got
                && let Some(d) = judge(&p.query, &p.exp, g, p.unl.as_deref())
            {
                return CaseResult::viol("wrong-rows-when-repeated", format!("{d} | {desc}"));
            }
            drop(ran);
            let v = settled(&p.w, Duration::from_secs(15), false).await;
            if !v.is_empty() {
                return CaseResult::viol(format!("left-{}", v[0].0), format!("{v:?} after {s:?} | {desc}"));
            }
            res = res.count("endings", 1);
        }
    }
    if let Some((s, d)) = check_trace(&p.w, &built, home, &tag, false) {
        return CaseResult::viol(s, format!("{d} | {desc}"));
    }
    res.nontrivial = res.nontrivial.filter(|_| local > 0);
    res
}

fn check_trace(w: &World, built: &Mutex<Vec<Built>>, home: usize, tag: &str, complete: bool) -> Option<(String, String)> {
    let built = built.lock().unwrap();
    let log = w.mon.log.lock().unwrap();
    let url = &w.cluster.urls[home];
    if let Some(b) = built.iter().find(|b| b.tag.as_deref() != Some(tag)) {
        return Some(("header-lost".into(), format!("{b:?} without the header {tag}")));
    }
    if let Some(b) = built.iter().find(|b| b.cfg.get("tagged.tag") != Some(&Some(tag.into()))) {
        return Some(("option-lost".into(), format!("{b:?} without the option {tag}")));
    }
    if let Some(b) = built.iter().find(|b| b.task.0 >= b.task.1) {
        return Some(("task-context".into(), format!("{b:?}")));
    }
    if w.colocate.is_none() || !complete {
        return None;
    }
    if let Some(c) = log.coord.iter().find(|c| c.url == *url) {
        return Some(("remote-plan-to-own-worker".into(), format!("{:?} sent to {} over the network", c.key, c.url)));
    }
    if let Some(e) = log.exec.iter().find(|e| e.caller == Caller::Coordinator && e.url == *url) {
        return Some(("remote-read-from-own-worker".into(), format!("{:?} read from {} over the network", e.key, e.url)));
    }
    // What was sent elsewhere was built there, and nothing but that.
    for i in 0..w.cluster.cfg.workers {
        if i != home {
            let sent = log.coord.iter().filter(|c| c.url == w.cluster.urls[i]).count();
            let accepted = log.coord.iter().filter(|c| c.url == w.cluster.urls[i] && c.accepted == Some(true)).count();
            let have = built.iter().filter(|b| b.worker == i).count();
            if have > sent || have < accepted {
                return Some(("tasks-elsewhere".into(), format!("{sent} tasks sent to worker {i}, which built {have} sessions")));
            }
        }
    }
    // Remote tasks read from the tasks of the coordinator's worker through the network, or are there
    // themselves; either way, they find the same task count.
    let first = built.first().map(|b| &b.cfg);
    if let Some(b) = built.iter().find(|b| Some(&b.cfg) != first) {
        return Some(("options-differ".into(), format!("{:?} | {:?}", b.cfg, first)));
    }
    None
}

pub fn c23(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(c23_case(ctx, r))
}
