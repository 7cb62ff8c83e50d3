//! C20: handlers are consulted in order, and their answers are applied.
use super::query::Prepared;
use super::trace::*;
use crate::cluster::*;
use crate::core::*;
use crate::leaf::*;
use crate::mon::*;
use crate::oracle::*;
use crate::qcfg::*;
use crate::world::*;
use async_trait::async_trait;
use dashmap::DashMap;
use datafusion::catalog::memory::DataSourceExec;
use datafusion::common::tree_node::{Transformed, TreeNode, TreeNodeRecursion};
use datafusion::common::{DataFusionError, Result, exec_datafusion_err, internal_err};
use datafusion::config::ConfigOptions;
use datafusion::datasource::physical_plan::FileScanConfig;
use datafusion::execution::{SendableRecordBatchStream, SessionStateBuilder, TaskContext};
use datafusion::physical_optimizer::PhysicalOptimizerRule;
use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode};
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, EmptyRecordBatchStream, ExecutionPlan, PlanProperties};
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::future::BoxFuture;
use rand::Rng;
use rand::rngs::StdRng;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, LazyLock, Mutex};
use url::Url;

static PROGRAMS: LazyLock<DashMap<u64, Arc<Program>>> = LazyLock::new(DashMap::new);
static NEXT: AtomicU64 = AtomicU64::new(1);

// ---- nodes ----

/// A mark in a plan. Rewriting handlers leave their trail in it.
#[derive(Debug, Clone)]
struct MarkExec {
    input: Arc<dyn ExecutionPlan>,
    id: u64,
    case: u64,
    trail: Vec<usize>,
}
/// What a scaling handler makes of a leaf in one task.
#[derive(Debug, Clone)]
struct TagExec {
    input: Arc<dyn ExecutionPlan>,
    h: usize,
    variant: usize,
    empty: bool,
}
impl DisplayAs for MarkExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "MarkExec: id={}", self.id)
    }
}
impl DisplayAs for TagExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "TagExec: by={} variant={} empty={}", self.h, self.variant, self.empty)
    }
}
impl ExecutionPlan for MarkExec {
    fn name(&self) -> &str {
        "MarkExec"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        self.input.properties()
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![&self.input]
    }
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(MarkExec { input: Arc::clone(&c[0]), ..(*self).clone() }))
    }
    fn maintains_input_order(&self) -> Vec<bool> {
        vec![true]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn datafusion::physical_expr::PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn execute(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        if let Some(pr) = PROGRAMS.get(&self.case) {
            pr.executed.lock().unwrap().entry(self.id).or_default().insert(self.trail.clone());
        }
        self.input.execute(p, c)
    }
}
impl ExecutionPlan for TagExec {
    fn name(&self) -> &str {
        "TagExec"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        self.input.properties()
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![&self.input]
    }
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(TagExec { input: Arc::clone(&c[0]), ..(*self).clone() }))
    }
    fn maintains_input_order(&self) -> Vec<bool> {
        vec![true]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn datafusion::physical_expr::PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn execute(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        if self.empty {
            return Ok(Box::pin(EmptyRecordBatchStream::new(self.schema())));
        }
        self.input.execute(p, c)
    }
}
#[derive(Debug, Clone)]
struct MarkCodec;
impl PhysicalExtensionCodec for MarkCodec {
    fn try_decode(&self, buf: &[u8], inputs: &[Arc<dyn ExecutionPlan>], _: &TaskContext, _: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> {
        let v: serde_json::Value = serde_json::from_slice(buf).map_err(|e| DataFusionError::External(Box::new(e)))?;
        let input = || Arc::clone(&inputs[0]);
        if let (Some(id), Some(case)) = (v["mark"].as_u64(), v["case"].as_u64()) {
            return Ok(Arc::new(MarkExec { input: input(), id, case, trail: vec![] }));
        }
        if let (Some(h), Some(variant), Some(empty)) = (v["tag"].as_u64(), v["variant"].as_u64(), v["empty"].as_bool()) {
            return Ok(Arc::new(TagExec { input: input(), h: h as usize, variant: variant as usize, empty }));
        }
        internal_err!("not a mark")
    }
    fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, _: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        let v = if let Some(m) = node.downcast_ref::<MarkExec>() {
            json!({"mark": m.id, "case": m.case})
        } else if let Some(t) = node.downcast_ref::<TagExec>() {
            json!({"tag": t.h, "variant": t.variant, "empty": t.empty})
        } else {
            return internal_err!("not a mark: {}", node.name());
        };
        buf.extend_from_slice(v.to_string().as_bytes());
        Ok(())
    }
}
/// Marks every leaf and some other nodes.
#[derive(Debug)]
struct Marks(u64);
impl PhysicalOptimizerRule for Marks {
    fn optimize(&self, plan: Arc<dyn ExecutionPlan>, _: &ConfigOptions) -> Result<Arc<dyn ExecutionPlan>> {
        let mut id = 0;
        plan.transform_up(|p| {
            if p.children().is_empty() || ["FilterExec", "ProjectionExec", "HashJoinExec"].contains(&p.name()) {
                id += 1;
                if p.children().is_empty()
                    && let Some(pr) = PROGRAMS.get(&self.0)
                {
                    pr.leaves.lock().unwrap().insert(ptr(&p), (id, Arc::clone(&p)));
                }
                return Ok(Transformed::yes(Arc::new(MarkExec { input: p, id, case: self.0, trail: vec![] }) as _));
            }
            Ok(Transformed::no(p))
        })
        .map(|t| t.data)
    }
    fn name(&self) -> &str {
        "marks"
    }
    fn schema_check(&self) -> bool {
        true
    }
}
fn ptr(p: &Arc<dyn ExecutionPlan>) -> usize {
    Arc::as_ptr(p) as *const () as usize
}
/// Nodes of a stage, without those of the stages below.
fn stage_nodes(p: &Arc<dyn ExecutionPlan>, out: &mut Vec<Arc<dyn ExecutionPlan>>) {
    out.push(Arc::clone(p));
    if p.is_network_boundary() {
        return;
    }
    p.children().into_iter().for_each(|c| stage_nodes(c, out));
}
fn marks_of(p: &Arc<dyn ExecutionPlan>) -> BTreeSet<u64> {
    let mut v = vec![];
    stage_nodes(p, &mut v);
    v.iter().filter_map(|n| n.downcast_ref::<MarkExec>().map(|m| m.id)).collect()
}
fn boundaries_of(p: &Arc<dyn ExecutionPlan>) -> BTreeSet<usize> {
    let mut v = vec![];
    stage_nodes(p, &mut v);
    v.iter().filter_map(|n| n.as_network_boundary().map(|b| b.input_stage().num())).collect()
}
fn is_file_scan(p: &Arc<dyn ExecutionPlan>) -> bool {
    p.downcast_ref::<DataSourceExec>().is_some_and(|d| d.data_source().downcast_ref::<FileScanConfig>().is_some())
}

// ---- handlers ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Kind {
    Size,
    Scale,
    Route,
    Rewrite,
}
#[derive(Clone, Debug, PartialEq)]
enum Ans {
    Decline,
    Desired(usize),
    Maximum(usize),
    Scaled,
    Urls(Vec<Url>),
    WrongUrls,
    Fail(String),
}
#[derive(Clone, Debug)]
struct Call {
    kind: Kind,
    h: usize,
    ptr: usize,
    what: String,
    tasks: usize,
    marks: BTreeSet<u64>,
    bounds: BTreeSet<usize>,
    ans: Ans,
}
#[derive(Debug)]
struct Program {
    seed: u64,
    /// how many handlers stand before and after the ones of the tables
    pre: BTreeMap<Kind, usize>,
    all: BTreeMap<Kind, usize>,
    decline_all: bool,
    answer: u64,
    fail: u64,
    urls: Mutex<Vec<Url>>,
    calls: Mutex<Vec<Call>>,
    keep: Mutex<Vec<Arc<dyn ExecutionPlan>>>,
    leaves: Mutex<HashMap<usize, (u64, Arc<dyn ExecutionPlan>)>>,
    executed: Mutex<BTreeMap<u64, BTreeSet<Vec<usize>>>>,
    rewrites: AtomicU64,
    wrong: Mutex<Vec<(String, String)>>,
}
/// What the session of this case's coordinator or worker is known by.
struct Cookie(String);

impl Program {
    fn rnd(&self, kind: Kind, h: usize, what: &str, salt: u64) -> u64 {
        mix(mix(self.seed, hash_str(what)), mix(kind as u64 * 64 + h as u64, salt))
    }
    fn failure(&self, kind: Kind, h: usize, what: &str) -> Option<Ans> {
        (self.rnd(kind, h, what, 7) % 1000 < self.fail).then(|| Ans::Fail(format!("handler {kind:?} {h} refused {what}")))
    }
    fn wrong(&self, sig: &str, d: String) {
        self.wrong.lock().unwrap().push((sig.into(), d));
    }
    fn node_key(p: &Arc<dyn ExecutionPlan>) -> String {
        match (p.downcast_ref::<MonExec>(), p.downcast_ref::<MarkExec>()) {
            (Some(m), _) => format!("MonExec {}", m.table.name),
            (_, Some(m)) => format!("MarkExec {}", m.id),
            _ => p.name().to_string(),
        }
    }
    fn size(&self, h: usize, p: &Arc<dyn ExecutionPlan>) -> Ans {
        let what = Self::node_key(p);
        if self.decline_all {
            return Ans::Decline;
        }
        if let Some(f) = self.failure(Kind::Size, h, &what) {
            return f;
        }
        let leaf = p.children().is_empty();
        if leaf && !p.is::<MonExec>() && !is_file_scan(p) {
            // It holds the same rows in every task.
            return Ans::Decline;
        }
        let x = self.rnd(Kind::Size, h, &what, 0);
        let odds = if leaf { self.answer } else { self.answer / 6 };
        if x % 100 >= odds {
            return Ans::Decline;
        }
        let n = 1 + (x / 100 % 9) as usize;
        if x / 1000 % 3 == 0 { Ans::Maximum(n) } else { Ans::Desired(n) }
    }
    fn scale(&self, h: usize, p: &Arc<dyn ExecutionPlan>) -> Ans {
        let what = Self::node_key(p);
        if self.decline_all {
            return Ans::Decline;
        }
        if let Some(f) = self.failure(Kind::Scale, h, &what) {
            return f;
        }
        if self.rnd(Kind::Scale, h, &what, 0) % 100 < self.answer { Ans::Scaled } else { Ans::Decline }
    }
    fn route(&self, h: usize, what: &str, tasks: usize) -> Ans {
        if self.decline_all {
            return Ans::Decline;
        }
        if let Some(f) = self.failure(Kind::Route, h, what) {
            return if self.rnd(Kind::Route, h, what, 8) % 3 == 0 { Ans::WrongUrls } else { f };
        }
        let x = self.rnd(Kind::Route, h, what, 0);
        if x % 100 >= self.answer {
            return Ans::Decline;
        }
        let urls = self.urls.lock().unwrap();
        Ans::Urls((0..tasks).map(|i| urls[(mix(x, i as u64) % urls.len() as u64) as usize].clone()).collect())
    }
    fn note(&self, kind: Kind, h: usize, p: &Arc<dyn ExecutionPlan>, tasks: usize, ans: Ans) -> Ans {
        self.keep.lock().unwrap().push(Arc::clone(p));
        let call = Call { kind, h, ptr: ptr(p), what: Self::node_key(p), tasks, marks: marks_of(p), bounds: boundaries_of(p), ans: ans.clone() };
        self.calls.lock().unwrap().push(call);
        ans
    }
    fn cookie(&self, kind: Kind, cfg: &datafusion::prelude::SessionConfig) {
        match cfg.get_extension::<Cookie>() {
            Some(c) if c.0 == format!("coordinator {}", self.seed) => {}
            c => self.wrong("wrong-session", format!("{kind:?} handlers see the session {:?}", c.map(|c| c.0.clone()))),
        }
    }
    fn on_size(&self, h: usize, ev: &DesiredTaskCountEvent) -> Option<Result<DesiredTaskCountEventResponse>> {
        self.cookie(Kind::Size, ev.session_config);
        match self.note(Kind::Size, h, ev.plan, 0, self.size(h, ev.plan)) {
            Ans::Desired(n) => Some(Ok(DesiredTaskCountEventResponse::desired(n))),
            Ans::Maximum(n) => Some(Ok(DesiredTaskCountEventResponse::maximum(n))),
            Ans::Fail(e) => Some(Err(exec_datafusion_err!("{e}"))),
            _ => None,
        }
    }
    fn on_scale(&self, h: usize, ev: &ScaleUpLeafNodeEvent) -> Option<Result<ScaleUpLeafNodeEventResponse>> {
        self.cookie(Kind::Scale, ev.session_config);
        if !ev.plan.children().is_empty() {
            self.wrong("scaled-inner-node", format!("{} is no leaf", ev.plan.name()));
        }
        match self.note(Kind::Scale, h, ev.plan, ev.task_count, self.scale(h, ev.plan)) {
            Ans::Scaled => {
                let full = (self.rnd(Kind::Scale, h, &Self::node_key(ev.plan), 1) % ev.task_count.max(1) as u64) as usize;
                let tag = |variant| Arc::new(TagExec { input: Arc::clone(ev.plan), h, variant, empty: variant != full }) as Arc<dyn ExecutionPlan>;
                if ev.task_count == 1 && self.seed % 2 == 0 {
                    return Some(Ok(ScaleUpLeafNodeEventResponse::new(tag(0))));
                }
                Some(DistributedLeafExec::try_new(Arc::clone(ev.plan), (0..ev.task_count).map(tag)).map(|l| ScaleUpLeafNodeEventResponse::new(Arc::new(l))))
            }
            Ans::Fail(e) => Some(Err(exec_datafusion_err!("{e}"))),
            _ => None,
        }
    }
    fn on_route(&self, h: usize, ev: &RouteTasksEvent) -> Option<Result<RouteTasksEventResponse>> {
        self.cookie(Kind::Route, ev.task_ctx.session_config());
        let what = format!("{:?} {:?} {}", marks_of(ev.plan), boundaries_of(ev.plan), ev.task_count);
        match self.note(Kind::Route, h, ev.plan, ev.task_count, self.route(h, &what, ev.task_count)) {
            Ans::Urls(u) => Some(Ok(RouteTasksEventResponse::new(u))),
            Ans::WrongUrls => {
                let urls = self.urls.lock().unwrap();
                let n = if self.seed % 2 == 0 { ev.task_count + 1 } else { ev.task_count - 1 };
                Some(Ok(RouteTasksEventResponse::new((0..n).map(|i| urls[i % urls.len()].clone()).collect())))
            }
            Ans::Fail(e) => Some(Err(exec_datafusion_err!("{e}"))),
            _ => None,
        }
    }
    fn on_rewrite(&self, h: usize, worker: usize, ev: WorkerPlanRewriteEvent) -> Result<WorkerPlanRewriteEventResponse> {
        self.rewrites.fetch_add(1, Ordering::Relaxed);
        match ev.session_config.get_extension::<Cookie>() {
            Some(c) if c.0 == format!("worker {worker} {}", self.seed) => {}
            c => self.wrong("wrong-session", format!("rewriting handlers of worker {worker} see the session {:?}", c.map(|c| c.0.clone()))),
        }
        let task = ev.session_config.get_extension::<DistributedTaskContext>().map(|d| d.task_index).unwrap_or(999);
        let what = format!("{:?} {:?} task {task}", marks_of(&ev.plan), boundaries_of(&ev.plan));
        let want: Vec<usize> = (0..h).collect();
        let ans = if self.decline_all { Ans::Decline } else { self.failure(Kind::Rewrite, h, &what).unwrap_or(Ans::Decline) };
        let ans = self.note(Kind::Rewrite, h, &ev.plan, 0, ans);
        let mut trails = vec![];
        ev.plan.apply(|n| {
            if let Some(m) = n.downcast_ref::<MarkExec>() {
                trails.push(m.trail.clone());
            }
            Ok(TreeNodeRecursion::Continue)
        })?;
        if let Some(t) = trails.iter().find(|t| **t != want) {
            self.wrong("rewrite-order", format!("rewriting handler {h} of worker {worker} is given a plan rewritten by {t:?}"));
        }
        if let Ans::Fail(e) = ans {
            return Err(exec_datafusion_err!("{e}"));
        }
        let plan = ev.plan.transform_up(|n| match n.downcast_ref::<MarkExec>() {
            Some(m) => {
                let mut m = m.clone();
                m.trail.push(h);
                Ok(Transformed::yes(Arc::new(m) as _))
            }
            None => Ok(Transformed::no(n)),
        })?;
        Ok(WorkerPlanRewriteEventResponse::new(plan.data))
    }
    /// The answer this program gives for the task count of a node.
    fn sized(&self, p: &Arc<dyn ExecutionPlan>) -> Option<Ans> {
        let pre = self.pre[&Kind::Size];
        let mine = |range: std::ops::Range<usize>| range.map(|h| self.size(h, p)).find(|a| *a != Ans::Decline);
        mine(0..pre)
            .or_else(|| match p.downcast_ref::<MonExec>().map(|m| &m.table.hint) {
                Some(Hint::Desired(n)) => Some(Ans::Desired(*n)),
                Some(Hint::Maximum(n)) => Some(Ans::Maximum(*n)),
                _ => None,
            })
            .or_else(|| mine(pre..self.all[&Kind::Size]))
    }
    /// Which of the handlers scales a leaf, if any of them does.
    fn scaled(&self, p: &Arc<dyn ExecutionPlan>) -> Option<usize> {
        let pre = self.pre[&Kind::Scale];
        let mine = |mut range: std::ops::Range<usize>| range.find(|h| self.scale(*h, p) != Ans::Decline);
        mine(0..pre).or_else(|| if p.is::<MonExec>() { None } else { mine(pre..self.all[&Kind::Scale]) })
    }
    fn others_answer(&self, kind: Kind, p: &Arc<dyn ExecutionPlan>) -> bool {
        match (kind, p.downcast_ref::<MonExec>()) {
            (Kind::Size, Some(m)) => !matches!(m.table.hint, Hint::None),
            (Kind::Scale, Some(_)) => true,
            _ => false,
        }
    }
}

/// Thinks before it answers.
struct Slow(Arc<Program>, usize);
#[async_trait]
impl DesiredTaskCountHandler for Slow {
    async fn handle(&self, ev: DesiredTaskCountEvent<'_>) -> Option<Result<DesiredTaskCountEventResponse>> {
        for _ in 0..self.0.rnd(Kind::Size, self.1, ev.plan.name(), 3) % 4 {
            tokio::task::yield_now().await;
        }
        self.0.on_size(self.1, &ev)
    }
}
/// Registers handlers on anything that takes them.
fn register<E: DistributedExt>(e: &mut E, pr: &Arc<Program>, kind: Kind, h: usize) {
    let p = Arc::clone(pr);
    match kind {
        Kind::Size => match p.rnd(kind, h, "", 5) % 3 {
            0 => e.set_distributed_desired_task_count_handler(move |ev: DesiredTaskCountEvent<'_>| p.on_size(h, &ev)),
            1 => e.set_distributed_desired_task_count_handler(Slow(p, h)),
            _ => e.set_distributed_desired_task_count_handler(Arc::new(Slow(p, h)) as Arc<dyn DesiredTaskCountHandler>),
        },
        Kind::Scale => e.set_distributed_scale_up_leaf_node_handler(move |ev: ScaleUpLeafNodeEvent<'_>| p.on_scale(h, &ev)),
        Kind::Route => e.set_distributed_route_tasks_handler(move |ev: RouteTasksEvent<'_>| p.on_route(h, &ev)),
        Kind::Rewrite => {}
    }
}
const KINDS: [Kind; 3] = [Kind::Size, Kind::Scale, Kind::Route];

fn neutral(n: &Arc<dyn ExecutionPlan>) -> bool {
    if n.fetch().is_some() {
        return false;
    }
    match n.name() {
        "MonExec" | "FilterExec" | "ProjectionExec" | "CoalesceBatchesExec" | "CooperativeExec" | "RepartitionExec" | "BroadcastExec" | "MarkExec" | "TagExec" => true,
        "AggregateExec" => n.downcast_ref::<AggregateExec>().is_some_and(|a| *a.mode() == AggregateMode::Partial),
        _ => false,
    }
}

/// Handlers of one kind were asked in order, until one answered.
fn check_rounds(pr: &Program, kind: Kind, failed: bool) -> Result<u64, (String, String)> {
    let calls = pr.calls.lock().unwrap();
    let keep = pr.keep.lock().unwrap();
    let nodes: HashMap<usize, &Arc<dyn ExecutionPlan>> = keep.iter().map(|p| (ptr(p), p)).collect();
    let (pre, all) = (pr.pre[&kind], pr.all[&kind]);
    let mut rounds = 0;
    let mut by: BTreeMap<usize, Vec<&Call>> = BTreeMap::new();
    calls.iter().filter(|c| c.kind == kind).for_each(|c| by.entry(c.ptr).or_default().push(c));
    for (p, cs) in by {
        let others = pr.others_answer(kind, nodes[&p]);
        // The handler to be asked next.
        let mut next = 0;
        for c in &cs {
            if c.h != next {
                let order: Vec<_> = cs.iter().map(|c| (c.h, &c.ans)).collect();
                return Err((format!("order: {kind:?}"), format!("for {}: handlers asked: {order:?}, {} of {all} stand before the tables' own, which answers: {others}", c.what, pre)));
            }
            let done = c.ans != Ans::Decline || c.h + 1 == all || (c.h + 1 == pre && others);
            next = if done { 0 } else { c.h + 1 };
            rounds += done as u64;
        }
        if next != 0 && !failed {
            return Err((format!("not-asked: {kind:?}"), format!("for {}: handler {next} was not asked though nobody before it answered", cs[0].what)));
        }
    }
    Ok(rounds)
}

async fn c20_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let case = NEXT.fetch_add(1, Ordering::Relaxed);
    struct Forget(u64);
    impl Drop for Forget {
        fn drop(&mut self) {
            PROGRAMS.remove(&self.0);
        }
    }
    let _forget = Forget(case);
    let rewriters = r.random_range(0..4);
    let mut pre = BTreeMap::new();
    let mut all = BTreeMap::new();
    for k in KINDS {
        let a = r.random_range(0..3);
        pre.insert(k, a);
        all.insert(k, a + r.random_range(0..3));
    }
    let decline_all = r.random_bool(0.12);
    let pr = Arc::new(Program {
        seed: r.random(),
        pre,
        all,
        decline_all,
        answer: pick(&mut r, &[15, 40, 70]),
        fail: if r.random_bool(0.3) { pick(&mut r, &[10, 40, 120]) } else { 0 },
        urls: Default::default(),
        calls: Default::default(),
        keep: Default::default(),
        leaves: Default::default(),
        executed: Default::default(),
        rewrites: Default::default(),
        wrong: Default::default(),
    });
    PROGRAMS.insert(case, Arc::clone(&pr));
    let hook: StateHook = {
        let pr = Arc::clone(&pr);
        Arc::new(move |b, _, i| {
            let mut b = b.with_distributed_user_codec(MarkCodec);
            let cfg = b.config().get_or_insert_default();
            cfg.set_extension(Arc::new(Cookie(format!("worker {i} {}", pr.seed))));
            for h in 0..rewriters {
                let p = Arc::clone(&pr);
                let f = move |ev: WorkerPlanRewriteEvent<'_>| p.on_rewrite(h, i, ev);
                if h % 2 == 0 {
                    b = b.with_distributed_worker_plan_rewrite_handler(f);
                } else {
                    b.config().get_or_insert_default().set_distributed_worker_plan_rewrite_handler(f);
                }
            }
            Ok(b)
        })
    };
    let mut p = match world_query(&ctx, &mut r, |r, c, q, _s| {
        c.hook = Some(hook.clone());
        if r.random_bool(0.4) {
            q.max_tasks = r.random_range(1..9);
        }
        if decline_all {
            q.dynamic = false;
        }
    })
    .await
    {
        Ok(p) => p,
        Err(e) => return e,
    };
    *pr.urls.lock().unwrap() = p.w.cluster.urls.clone();
    let desc = format!("case {case} before={:?} all={:?} rewriters={rewriters} decline={decline_all} answer={} fail={} | {}", pr.pre, pr.all, pr.answer, pr.fail, describe(&p));
    ctx.note(desc.clone());
    p.w.pre = Some({
        let pr = Arc::clone(&pr);
        Arc::new(move |mut b: SessionStateBuilder| {
            for k in KINDS {
                (0..pr.pre[&k]).for_each(|h| register(&mut b, &pr, k, h));
            }
            Ok(b)
        })
    });
    // Some of the later ones are added when the session is there already.
    let late: BTreeMap<Kind, usize> = KINDS.iter().map(|k| (*k, if r.random_bool(0.5) { pr.all[k] } else { r.random_range(pr.pre[k]..=pr.all[k]) })).collect();
    let on_config = r.random_bool(0.5);
    let coord = {
        let (pr, late) = (Arc::clone(&pr), late.clone());
        move |mut b: SessionStateBuilder| {
            for k in KINDS {
                for h in pr.pre[&k]..late[&k] {
                    if on_config {
                        register(b.config().get_or_insert_default(), &pr, k, h);
                    } else {
                        register(&mut b, &pr, k, h);
                    }
                }
            }
            b.config().get_or_insert_default().set_extension(Arc::new(Cookie(format!("coordinator {}", pr.seed))));
            Ok(b.with_distributed_user_codec(MarkCodec).with_physical_optimizer_rule(Arc::new(Marks(case))))
        }
    };
    let mut dc: SessionContext = match p.w.distributed_with(&coord).await {
        Ok(c) => c,
        Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
    };
    for k in KINDS {
        (late[&k]..pr.all[&k]).for_each(|h| register(&mut dc, &pr, k, h));
    }
    p.w.mon.clear();
    let plan = plan_of(&dc, &p.query.sql).await;
    let outcome = match &plan {
        Ok(plan) => run_plan(&p.w.mon, plan, &dc).await,
        Err(e) => Err(exec_datafusion_err!("{}", err_short(e))),
    };
    let text = plan.as_ref().map(plan_str).unwrap_or_default();
    let calls = pr.calls.lock().unwrap().clone();
    let log_text = || {
        let cs: Vec<String> = pr.calls.lock().unwrap().iter().map(|c| format!("{:?} {} {} tasks={} {:?}", c.kind, c.h, c.what, c.tasks, c.ans)).collect();
        format!("{desc}\n{text}\ncalls:\n{}\n{}", cs.join("\n"), dump_log(&p.w.mon.log.lock().unwrap()))
    };
    if let Some((sig, d)) = pr.wrong.lock().unwrap().first().cloned() {
        return CaseResult::viol(sig, format!("{d} | {}", log_text()));
    }
    let refused: Vec<&Call> = calls.iter().filter(|c| matches!(c.ans, Ans::Fail(_) | Ans::WrongUrls)).collect();
    let mut rounds = 0;
    for k in KINDS {
        match check_rounds(&pr, k, !refused.is_empty()) {
            Ok(n) => rounds += n,
            Err((sig, d)) => return CaseResult::viol(sig, format!("{d} | {}", log_text())),
        }
    }
    let mut res = CaseResult::ok().count("handlers_asked", calls.len() as u64).count("rounds_checked", rounds);
    // What the same query does without any handlers.
    let without = async |p: &mut Prepared| -> Result<Vec<datafusion::arrow::array::RecordBatch>> {
        let sql = p.query.sql.clone();
        p.w.pre = None;
        let c = p.w.distributed().await?;
        // The workers go on rewriting.
        collect_df(&c, &sql).await
    };
    // ---- refusals ----
    let got = match outcome {
        Err(e) => {
            let e = err_short(&e);
            if !refused.is_empty() {
                let told = refused.iter().any(|c| match &c.ans {
                    Ans::Fail(m) => e.contains(m.as_str()),
                    _ => e.contains("was not equal to number of urls"),
                });
                if !told {
                    return CaseResult::viol(format!("refusal-not-told: {:?}", refused[0].kind), format!("{e} instead of {:?} | {}", refused[0].ans, log_text()));
                }
                return res.count("refusals_reported", 1).count("queries_distributed", 1).seen(mix(hash_str(&e), hash_str(&text)));
            }
            let d = log_text();
            return match without(&mut p).await {
                Ok(_) => CaseResult::viol("fails-with-handlers", format!("{e} | {d}")),
                Err(_) => CaseResult::inconclusive(format!("query: {}", e.chars().take(80).collect::<String>())),
            };
        }
        Ok(g) => g,
    };
    if let Some(c) = refused.iter().find(|c| c.kind != Kind::Rewrite) {
        return CaseResult::viol(format!("refusal-ignored: {:?}", c.kind), format!("{:?} | {}", c.ans, log_text()));
    }
    let drains = !["limit", "fetch", "join", "topk", "window", "union"].iter().any(|w| format!("{text} {}", p.query.sql).to_lowercase().contains(w));
    if !refused.is_empty() && drains && !p.w.q.dynamic {
        return CaseResult::viol("refusal-ignored: Rewrite", format!("{:?} | {}", refused[0].ans, log_text()));
    }
    if let Some(d) = judge(&p.query, &p.exp, &got, p.unl.as_deref()) {
        let t = log_text();
        return match without(&mut p).await {
            Ok(g) if judge(&p.query, &p.exp, &g, p.unl.as_deref()).is_none() => CaseResult::viol("rows", format!("{d} | {t}")),
            _ => CaseResult::inconclusive("rows differ without handlers, too"),
        };
    }
    // ---- answers ----
    let limit = if p.w.q.max_tasks == 0 { p.w.cluster.cfg.workers } else { p.w.q.max_tasks };
    let dynamic = p.w.q.dynamic;
    let (mut sized, mut scaled, mut routed, mut trails) = (0u64, 0u64, 0u64, 0u64);
    let verdict = (|| -> Option<(String, String)> {
        let log = p.w.mon.log.lock().unwrap();
        let views = stage_views(&log);
        let leaves = pr.leaves.lock().unwrap();
        // Every leaf is asked for.
        if !dynamic && pr.all[&Kind::Size] > 0 && find_distributed(plan.as_ref().unwrap()) {
            for (k, (id, leaf)) in leaves.iter() {
                let first_mine = pr.pre[&Kind::Size] > 0 || !pr.others_answer(Kind::Size, leaf);
                if first_mine && !calls.iter().any(|c| c.kind == Kind::Size && c.ptr == *k) {
                    return Some(("leaf-not-asked: Size".into(), format!("leaf {} of mark {id}", leaf.name())));
                }
            }
        }
        for s in views.values() {
            let node = &s.tasks.values().next().unwrap().0;
            // Routing.
            let urls: Vec<Url> = s.tasks.values().map(|t| t.1.clone()).collect();
            let asked: Vec<&Call> = calls
                .iter()
                .filter(|c| c.kind == Kind::Route && c.tasks == s.count && if s.has_union { c.marks.is_superset(&marks_of(node)) } else { c.marks == marks_of(node) })
                .collect();
            if pr.all[&Kind::Route] > 0 && asked.is_empty() {
                return Some(("stage-not-routed".into(), format!("no routing handler was asked about stage {} ({} tasks)", s.id, s.count)));
            }
            if !s.has_union && s.tasks.len() == s.count {
                let decided: Vec<&&Call> = asked.iter().filter(|c| c.ans != Ans::Decline && c.bounds == boundaries_of(node)).collect();
                if decided.len() == 1 {
                    routed += 1;
                    if decided[0].ans != Ans::Urls(urls.clone()) {
                        return Some(("routed-elsewhere".into(), format!("stage {} went to {urls:?}, its handler said {:?}", s.id, decided[0].ans)));
                    }
                }
            }
            // Scaling.
            for (t, (n, _)) in &s.tasks {
                let mut ns = vec![];
                stage_nodes(n, &mut ns);
                for m in ns.iter().filter_map(|n| n.downcast_ref::<MarkExec>()) {
                    let Some((_, leaf)) = leaves.values().find(|l| l.0 == m.id) else { continue };
                    if m.input.name() == "EmptyExec" && leaf.name() != "EmptyExec" {
                        continue;
                    }
                    let want = pr.scaled(leaf);
                    let tag = m.input.downcast_ref::<TagExec>();
                    if want != tag.map(|t| t.h) {
                        return Some(("scaled-by-another".into(), format!("leaf {} of stage {} task {t}: handler {want:?} answers, the one applied is {:?}", Program::node_key(leaf), s.id, tag.map(|t| t.h))));
                    }
                    if let Some(tag) = tag {
                        scaled += 1;
                        if !s.has_union && tag.variant != *t {
                            return Some(("another-variant".into(), format!("task {t} of stage {} has variant {} of leaf {}", s.id, tag.variant, Program::node_key(leaf))));
                        }
                    }
                    if !s.has_union && !dynamic {
                        let asked: BTreeSet<usize> = calls.iter().filter(|c| c.kind == Kind::Scale && leaves.get(&c.ptr).is_some_and(|l| l.0 == m.id)).map(|c| c.tasks).collect();
                        if asked.iter().any(|a| *a != s.count) {
                            return Some(("scaled-to-another-size".into(), format!("leaf {} of stage {} ({} tasks) was scaled to {asked:?}", Program::node_key(leaf), s.id, s.count)));
                        }
                    }
                }
            }
            // Sizes.
            // An EmptyExec is not among the nodes of a view, but it is a leaf.
            let mut ns = vec![];
            stage_nodes(node, &mut ns);
            if !s.has_union && !ns.iter().any(|n| n.name() == "EmptyExec") && s.at.values().all(|v| neutral(&v[0].1)) {
                let mut desired = 1;
                let mut cap: Option<usize> = None;
                for v in s.at.values() {
                    let n = &v[0].1;
                    if n.is::<TagExec>() {
                        continue;
                    }
                    match pr.sized(n) {
                        Some(Ans::Desired(n)) => desired = desired.max(n),
                        Some(Ans::Maximum(n)) => cap = Some(cap.map_or(n, |c| c.min(n))),
                        _ if n.children().is_empty() => cap = Some(1),
                        _ => {}
                    }
                }
                let want = cap.unwrap_or(desired).min(limit);
                sized += 1;
                let ok = if dynamic && cap.is_none() { s.count >= want } else { s.count == want };
                if !ok {
                    return Some(("sized-otherwise".into(), format!("stage {} has {} tasks, the handlers ask for {want} (limit {limit}, adaptive {dynamic})", s.id, s.count)));
                }
            }
            // Rewriting.
            for m in marks_of(node) {
                for t in pr.executed.lock().unwrap().get(&m).into_iter().flatten() {
                    trails += 1;
                    if t.len() != rewriters {
                        return Some(("rewrite-lost".into(), format!("mark {m} of stage {} ran after the rewrites {t:?} of {rewriters}", s.id)));
                    }
                }
            }
        }
        None
    })();
    if let Some((sig, d)) = verdict {
        return CaseResult::viol(sig, format!("{d} | {}", log_text()));
    }
    if decline_all {
        // As if they were not there.
        let bare = |b: SessionStateBuilder| Ok(b.with_distributed_user_codec(MarkCodec).with_physical_optimizer_rule(Arc::new(Marks(0))));
        p.w.pre = None;
        let Ok(c) = p.w.distributed_with(&bare).await else { return CaseResult::inconclusive("session") };
        let mut same = false;
        let mut last = String::new();
        for _ in 0..40 {
            let (Ok(a), Ok(b)) = (plan_of(&dc, &p.query.sql).await, plan_of(&c, &p.query.sql).await) else { return CaseResult::inconclusive("planning again") };
            last = plan_str(&b);
            if plan_str(&a) == last {
                same = true;
                break;
            }
        }
        if !same {
            return CaseResult::viol("decliners-change-plans", format!("{last}\ninstead of | {}", log_text()));
        }
        res = res.count("declining_plans_compared", 1);
    }
    let fp = mix(hash_str(&text), shape_fp(&p.w.mon.log.lock().unwrap()));
    let dist = !p.w.mon.log.lock().unwrap().coord.is_empty();
    let res = res
        .count("queries_distributed", dist as u64)
        .count("sizes_checked", sized)
        .count("scaled_leaves_checked", scaled)
        .count("routings_checked", routed)
        .count("rewritten_marks_run", trails)
        .count("rewrites", pr.rewrites.load(Ordering::Relaxed));
    if dist { res.seen(fp).sampled(json!({"sql": p.query.sql.chars().take(200).collect::<String>(), "calls": calls.len()})) } else { res }
}
pub fn c20(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(c20_case(ctx, r))
}
