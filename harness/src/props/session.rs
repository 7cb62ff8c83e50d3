//! C19, C20, C23: what a worker's session is made of, handlers, and co-located workers.
use super::query::*;
use super::trace::*;
use crate::cluster::*;
use crate::core::*;
use crate::data::*;
use crate::leaf::*;
use crate::mon::*;
use crate::qcfg::*;
use crate::world::*;
use datafusion::common::extensions_options;
use datafusion::common::{DataFusionError, Result, exec_datafusion_err, plan_err};
use datafusion::config::{ConfigEntry, ConfigExtension, ExtensionOptions};
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::ExecutionPlan;
use datafusion_distributed::*;
use futures::future::BoxFuture;
use http::{HeaderMap, HeaderName, HeaderValue};
use rand::Rng;
use rand::rngs::StdRng;
use std::any::Any;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;
use std::sync::{Arc, Mutex};

const CONF: &str = "x-datafusion-distributed-config-";

// ---------------------------------------------------------------- C19

extensions_options! {
    pub struct TypedExt {
        pub text: String, default = "dflt".to_string()
        pub n: usize, default = 7
        pub flag: bool, default = true
        pub f: f64, default = 0.5
        pub maybe: Option<usize>, default = None
        pub preset: Option<usize>, default = Some(5)
        pub words: Option<String>, default = None
        pub text2: String, default = String::new()
    }
}
impl ConfigExtension for TypedExt {
    const PREFIX: &'static str = "typed";
}

/// Extensions written by hand: free text under given keys.
macro_rules! text_ext {
    ($name:ident, $prefix:literal, $keys:expr) => {
        #[derive(Clone, Debug)]
        pub struct $name(pub BTreeMap<&'static str, String>);
        impl Default for $name {
            fn default() -> Self {
                $name($keys.into_iter().map(|k: &'static str| (k, format!("default of {k}"))).collect())
            }
        }
        impl ExtensionOptions for $name {
            fn as_any(&self) -> &dyn Any {
                self
            }
            fn as_any_mut(&mut self) -> &mut dyn Any {
                self
            }
            fn cloned(&self) -> Box<dyn ExtensionOptions> {
                Box::new(self.clone())
            }
            fn set(&mut self, key: &str, value: &str) -> Result<()> {
                match self.0.iter_mut().find(|(k, _)| **k == key) {
                    Some((_, v)) => *v = value.to_string(),
                    None => return plan_err!("no option {key}"),
                }
                Ok(())
            }
            fn entries(&self) -> Vec<ConfigEntry> {
                self.0.iter().map(|(k, v)| ConfigEntry { key: k.to_string(), value: Some(v.clone()), description: "" }).collect()
            }
        }
        impl ConfigExtension for $name {
            const PREFIX: &'static str = $prefix;
        }
    };
}
text_ext!(DeepExt, "opt", ["a", "opt.a", "opt.opt.a", "deep.key.x", "opta", "x-y_z"]);
text_ext!(CapsExt, "MyOpt", ["alpha", "BetaGamma", "myopt.alpha"]);
text_ext!(NearExt, "opt2", ["a", "opt.a"]);

fn free_text(r: &mut StdRng) -> String {
    let pool = [
        "", " ", "  lead", "trail  ", "a\tb", "\t", "%41%", "a,b;c=d", "\"quoted\"", "back\\slash", "0", "false", "null", "None", "default of a", "x-datafusion-distributed-config-opt.a", "opt.a", "~!@#$^&*()_+{}|:<>?`-=[]';./",
    ];
    match r.random_range(0..10) {
        0 => "x".repeat(r.random_range(1..1500)),
        1..=6 => pick(r, &pool).to_string(),
        _ => (0..r.random_range(1..30)).map(|_| r.random_range(32u8..127) as char).collect(),
    }
}
/// Text no HTTP header can carry.
fn awkward(r: &mut StdRng) -> String {
    pick(r, &["é", "line\nbreak", "\u{0}", "bell\u{7}", "日本", "cr\r", "\u{7f}"]).to_string()
}

/// Everything a session says about the extensions and the distributed options.
pub fn dump_cfg(c: &datafusion::prelude::SessionConfig) -> BTreeMap<String, Option<String>> {
    let mut m = BTreeMap::new();
    for (p, e) in c.options().extensions.iter() {
        for en in e.entries() {
            m.insert(format!("{p}.{}", en.key), en.value);
        }
    }
    m
}

#[derive(Clone, Debug)]
struct Seen {
    worker: usize,
    headers: HeaderMap,
    cfg: BTreeMap<String, Option<String>>,
    batch_size: usize,
}

#[derive(Clone, Debug, Default)]
struct Sent {
    tag: String,
    typed: Option<TypedExt>,
    deep: Option<DeepExt>,
    caps: Option<CapsExt>,
    near: Option<NearExt>,
    pass: HeaderMap,
    transportable: bool,
    preset_unset: bool,
    q: Option<QCfg>,
    colocated: bool,
    sql: String,
}

fn header_values(h: &HeaderMap, n: &HeaderName) -> Vec<Vec<u8>> {
    h.get_all(n).iter().map(|v| v.as_bytes().to_vec()).collect()
}

fn random_sent(r: &mut StdRng, i: usize, base: &QCfg) -> Sent {
    let mut s = Sent { tag: format!("q{i}-{}", r.random_range(0..1_000_000)), transportable: true, ..Default::default() };
    let bad = r.random_bool(0.12);
    if r.random_bool(0.85) {
        let mut t = TypedExt::default();
        if r.random_bool(0.7) {
            t.text = free_text(r);
        }
        t.n = pick(r, &[0, 1, 7, usize::MAX, 123456]);
        t.flag = r.random_bool(0.5);
        t.f = pick(r, &[0.5, -0.0, 1e300, f64::MIN_POSITIVE, f64::INFINITY, 0.1 + 0.2, -3.5]);
        t.maybe = pick(r, &[None, Some(0), Some(99)]);
        if r.random_bool(0.06) {
            t.preset = None;
            s.preset_unset = true;
        } else {
            t.preset = Some(r.random_range(0..20));
        }
        if r.random_bool(0.5) {
            t.words = Some(free_text(r));
        }
        t.text2 = free_text(r);
        if bad {
            let a = awkward(r);
            if r.random_bool(0.5) { t.text = a } else { t.words = Some(a) }
            s.transportable = false;
        }
        s.typed = Some(t);
    }
    fn fill(r: &mut StdRng, m: &mut BTreeMap<&'static str, String>) {
        for v in m.values_mut() {
            if r.random_bool(0.7) {
                *v = free_text(r);
            }
        }
    }
    if r.random_bool(0.5) {
        let mut d = DeepExt::default();
        fill(r, &mut d.0);
        s.deep = Some(d);
    }
    if r.random_bool(0.3) {
        let mut d = CapsExt::default();
        fill(r, &mut d.0);
        s.caps = Some(d);
    }
    if r.random_bool(0.3) {
        let mut d = NearExt::default();
        fill(r, &mut d.0);
        s.near = Some(d);
    }
    s.pass.insert("x-tag", HeaderValue::from_str(&s.tag).unwrap());
    for _ in 0..r.random_range(0..5) {
        let n = pick(r, &["x-request-id", "authorization", "x-multi", "traceparent", "x-data-bin", "x-datafusion-distributed-conf", "x-datafusion-distributed", "cookie", "x-opt.a", "opt.a"]);
        let v = match r.random_range(0..6) {
            0 => HeaderValue::from_bytes(&[0x80, 0xff, b'a', 0xc3, 0xa9]).unwrap(),
            1 => HeaderValue::from_static(""),
            _ => HeaderValue::from_str(&free_text(r)).unwrap(),
        };
        // Binary metadata must be base64 text.
        let v = if n.ends_with("-bin") { HeaderValue::from_static("AAEC/w") } else { v };
        if n == "x-multi" { s.pass.append(n, v) } else { s.pass.insert(HeaderName::from_str(n).unwrap(), v).is_some() };
    }
    let mut q = QCfg::random(r);
    q.budget = pick(r, &[64 << 20, (64 << 20) + 1, 100 << 20]);
    if r.random_bool(0.25) {
        q.dynamic = true;
        q.dyn_bytes = pick(r, &[1, 200, 50_000]);
    }
    q.df = base.df.clone();
    s.q = Some(q);
    s
}

fn session_sql(r: &mut StdRng) -> String {
    pick(
        r,
        &[
            "SELECT k, count(*) AS c, sum(v) AS s FROM t0 GROUP BY k",
            "SELECT a.id, b.id FROM t0 a JOIN t1 b ON a.k = b.k",
            "SELECT id FROM t0 UNION ALL SELECT id FROM t1",
            "SELECT g, count(*) FROM (SELECT g, k FROM t0 UNION ALL SELECT g, k FROM t1) u GROUP BY g",
            "SELECT id, v FROM t0 ORDER BY id LIMIT 7",
            "SELECT a.g, count(*) FROM t0 a JOIN t1 b ON a.k = b.k GROUP BY a.g ORDER BY 1",
        ],
    )
    .to_string()
}

async fn c19_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let seen: Arc<Mutex<Vec<Seen>>> = Default::default();
    let mut ccfg = random_cluster(&mut r);
    let forward = r.random_bool(0.5);
    let seen2 = Arc::clone(&seen);
    ccfg.hook = Some(Arc::new(move |b: SessionStateBuilder, h: &HeaderMap, i: usize| {
        let mut b = b
            .with_distributed_option_extension_from_headers::<TypedExt>(h)?
            .with_distributed_option_extension_from_headers::<DeepExt>(h)?
            .with_distributed_option_extension_from_headers::<CapsExt>(h)?
            .with_distributed_option_extension_from_headers::<NearExt>(h)?;
        if forward {
            let mut f = HeaderMap::new();
            if let Some(v) = h.get("x-tag") {
                f.insert("x-tag", v.clone());
            }
            b = b.with_distributed_passthrough_headers(f)?;
        }
        let c = b.config().clone().unwrap();
        seen2.lock().unwrap().push(Seen { worker: i, headers: h.clone(), cfg: dump_cfg(&c), batch_size: c.batch_size() });
        Ok(b)
    }));
    let base = QCfg::random(&mut r);
    let n = pick(&mut r, &[1usize, 1, 2, 3]);
    let specs: Vec<TableSpec> = (0..2).map(|i| random_spec(&mut r, &format!("t{i}"), 100, ccfg.workers + 2)).collect();
    let mut sents: Vec<Sent> = (0..n).map(|i| random_sent(&mut r, i, &base)).collect();
    for s in sents.iter_mut() {
        s.sql = session_sql(&mut r);
        s.colocated = r.random_bool(0.2);
    }
    let reserved = {
        let mut h = HeaderMap::new();
        h.insert("x-fine", HeaderValue::from_static("1"));
        let n = pick(&mut r, &["x-datafusion-distributed-config-opt.a", "X-DataFusion-Distributed-Config-", "x-datafusion-distributed-config-distributed.compression", "x-datafusion-distributed-config-x"]);
        h.insert(HeaderName::from_str(n).unwrap(), HeaderValue::from_static("1"));
        h
    };
    let w = World::new(&ctx, &mut r, specs, ccfg, base).await;
    let desc = format!("workers={} transport={:?} no_shortcut={} forward={forward} sent={sents:?}", w.cluster.cfg.workers, w.cluster.cfg.transport, w.cluster.cfg.no_shortcut);
    ctx.note(desc.clone());
    if SessionStateBuilder::new().with_distributed_passthrough_headers(reserved.clone()).is_ok() {
        return CaseResult::viol("reserved-header-accepted", format!("{reserved:?}"));
    }
    let mut runs = vec![];
    for s in &sents {
        let build: BuilderHook<'_> = &|b| {
            let mut b = s.q.as_ref().unwrap().apply(b)?.with_distributed_passthrough_headers(s.pass.clone())?;
            if let Some(t) = &s.typed {
                b = b.with_distributed_option_extension(t.clone());
            }
            if let Some(t) = &s.deep {
                b = b.with_distributed_option_extension(t.clone());
            }
            if let Some(t) = &s.caps {
                b = b.with_distributed_option_extension(t.clone());
            }
            if let Some(t) = &s.near {
                b = b.with_distributed_option_extension(t.clone());
            }
            if s.colocated {
                b = b.with_distributed_local_worker_context(w.cluster.workers()[0].to_local_worker_context(w.cluster.urls[0].clone()));
            }
            Ok(b)
        };
        let dc = match w.distributed_with(build).await {
            Ok(c) => c,
            Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
        };
        let plan = match plan_of(&dc, &s.sql).await {
            Ok(p) => p,
            Err(e) => return CaseResult::viol(format!("planning-failed: {}", s.sql), format!("{} | {desc}", err_short(&e))),
        };
        runs.push((dc, plan));
    }
    let outs = futures::future::join_all(runs.iter().map(|(dc, plan)| run_plan(&w.mon, plan, dc))).await;
    let log = w.mon.log.lock().unwrap();
    let seen = seen.lock().unwrap().clone();
    let tag_of = |h: &HeaderMap| h.get("x-tag").and_then(|v| v.to_str().ok()).map(|s| s.to_string());
    let mut res = CaseResult::ok();
    let mut fp = 0;
    for ((s, (dc, plan)), out) in sents.iter().zip(&runs).zip(&outs) {
        let dist = find_distributed(plan);
        let mine: Vec<&Seen> = seen.iter().filter(|x| tag_of(&x.headers).as_deref() == Some(&s.tag)).collect();
        let coords: Vec<&CoordRec> = log.coord.iter().filter(|c| tag_of(&c.headers).as_deref() == Some(&s.tag)).collect();
        let state = dc.state();
        let want = dump_cfg(state.config());
        match out {
            // (an adaptive query may turn out not to need any worker)
            Ok(_) if !s.transportable && dist && !(coords.is_empty() && mine.is_empty()) => {
                return CaseResult::viol("value-that-cannot-travel-accepted", format!("{} {:?} | {desc}", s.sql, s.typed));
            }
            Err(e) if s.transportable => {
                return CaseResult::viol(format!("query-failed: {}", s.sql), format!("{} | {desc}", err_short(e)));
            }
            Err(_) => {
                res = res.count("values_that_cannot_travel", 1);
                continue;
            }
            Ok(_) => {}
        }
        if !dist {
            continue;
        }
        if !s.colocated && mine.len() != coords.len() || mine.len() < coords.len() {
            return CaseResult::viol("sessions-missing", format!("{} sessions were built with this query's headers, {} tasks dispatched | {} | {desc}\n{}", mine.len(), coords.len(), s.tag, dump_log(&log)));
        }
        for m in &mine {
            for (k, v) in &want {
                let have = m.cfg.get(k);
                let ours = [("typed.", s.typed.is_some()), ("opt.", s.deep.is_some()), ("MyOpt.", s.caps.is_some()), ("opt2.", s.near.is_some()), ("distributed.", true)].iter().any(|(p, on)| *on && k.starts_with(p));
                if ours && have != Some(v) {
                    let sig = if s.preset_unset && k == "typed.preset" { "unset-option-reverts-to-default: typed.preset".to_string() } else { format!("option-differs: {k}") };
                    return CaseResult::viol(sig, format!("{k}: coordinator {v:?}, worker {} {have:?} | {} | {desc}", m.worker, s.tag));
                }
            }
            // Extensions this query did not set have their defaults.
            let defaults: [(&str, bool, Vec<ConfigEntry>); 4] = [
                ("typed", s.typed.is_none(), TypedExt::default().entries()),
                ("opt", s.deep.is_none(), DeepExt::default().entries()),
                ("MyOpt", s.caps.is_none(), CapsExt::default().entries()),
                ("opt2", s.near.is_none(), NearExt::default().entries()),
            ];
            for (p, on, es) in defaults {
                for e in es {
                    if on && m.cfg.get(&format!("{p}.{}", e.key)) != Some(&e.value) {
                        return CaseResult::viol(format!("option-leaked: {p}.{}", e.key), format!("{:?} on worker {}, not set by query {} | {desc}", m.cfg.get(&format!("{p}.{}", e.key)), m.worker, s.tag));
                    }
                }
            }
            let sb = s.q.as_ref().unwrap().shuffle_batch;
            if sb != 0 && m.batch_size != sb {
                return CaseResult::viol("shuffle-batch-size", format!("batch size {} on worker {}, asked for {sb} | {desc}", m.batch_size, m.worker));
            }
            for n in s.pass.keys() {
                if header_values(&s.pass, n) != header_values(&m.headers, n) {
                    return CaseResult::viol(format!("header-differs: {n}"), format!("sent {:?}, worker {} has {:?} | {} | {desc}", s.pass.get_all(n).iter().collect::<Vec<_>>(), m.worker, m.headers.get_all(n).iter().collect::<Vec<_>>(), s.tag));
                }
            }
            // No other header than those chosen, the options and what the transport itself adds.
            for n in m.headers.keys() {
                let t = n.as_str();
                if !s.pass.contains_key(n) && !t.starts_with(CONF) && !["te", "content-type", "user-agent", "grpc-timeout", "grpc-encoding", "grpc-accept-encoding"].contains(&t) {
                    return CaseResult::viol(format!("header-appeared: {n}"), format!("worker {} has {:?} | {} | {desc}", m.worker, m.headers.get(n), s.tag));
                }
            }
            res = res.count("sessions_compared", 1);
            fp = mix(fp, hash_str(&format!("{:?}", m.cfg)));
        }
        for c in &coords {
            for n in c.headers.keys() {
                if !s.pass.contains_key(n) && !n.as_str().starts_with(CONF) {
                    return CaseResult::viol(format!("header-forwarded: {n}"), format!("{} | {desc}", s.tag));
                }
            }
        }
        for e in log.exec.iter().filter(|e| e.caller == Caller::Coordinator && tag_of(&e.headers).as_deref() == Some(&s.tag)) {
            if e.headers.len() != s.pass.len() || s.pass.keys().any(|n| header_values(&s.pass, n) != header_values(&e.headers, n)) {
                return CaseResult::viol("data-request-headers", format!("{:?} instead of {:?} | {desc}", e.headers, s.pass));
            }
            res = res.count("data_requests_compared", 1);
        }
    }
    for e in &log.exec {
        let tag = tag_of(&e.headers);
        let bad = match e.caller {
            Caller::Coordinator => tag.is_none(),
            Caller::Worker(_) => {
                let owner = log.coord.iter().find(|c| c.key.query_id == e.key.query_id).and_then(|c| tag_of(&c.headers));
                let local_only = owner.is_none();
                if forward { !local_only && tag != owner || e.headers.len() != 1 } else { !e.headers.is_empty() }
            }
        };
        if bad {
            return CaseResult::viol("data-request-headers", format!("{:?} asks {:?} with {:?}, forward={forward} | {desc}", e.caller, e.key, e.headers));
        }
    }
    let multi = log.coord.len() > 1;
    res = res.count("queries", n as u64).count("queries_together", (n > 1) as u64);
    if multi { res.seen(fp) } else { res }
}

pub fn c19(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(c19_case(ctx, r))
}

#[allow(dead_code)]
fn _unused(_: &dyn ExecutionPlan, _: &HashMap<u8, u8>, _: DataFusionError, _: MonCodec) {
    let _ = exec_datafusion_err!("x");
    let _: Option<Prepared> = None;
    let _ = describe;
}
