//! C07, C08, C09, C17: monitors over plans and over the recorded dispatch trace of random queries.
use super::query::*;
use crate::cluster::*;
use crate::core::*;
use crate::data::*;
use crate::leaf::*;
use crate::mon::*;
use crate::qcfg::*;
use crate::world::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::JoinType;
use datafusion::common::{DataFusionError, Result, exec_datafusion_err};
use datafusion::physical_expr::{Distribution, Partitioning};
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode};
use datafusion::physical_plan::joins::{HashJoinExec, NestedLoopJoinExec, PartitionMode};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use futures::future::BoxFuture;
use rand::Rng;
use rand::rngs::StdRng;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use url::Url;

pub struct Obs {
    pub dc: SessionContext,
    pub plan: Arc<dyn ExecutionPlan>,
    pub got: Result<Vec<RecordBatch>>,
    pub dist: bool,
}

pub async fn observe(w: &World, sql: &str, hook: BuilderHook<'_>) -> Result<Obs, CaseResult> {
    let dc = w.distributed_with(hook).await.map_err(|e| CaseResult::inconclusive(format!("session: {}", err_short(&e))))?;
    let plan = plan_of(&dc, sql).await.map_err(|e| CaseResult::inconclusive(format!("planning: {}", err_short(&e).chars().take(80).collect::<String>())))?;
    let dist = find_distributed(&plan);
    let got = run_plan(&w.mon, &plan, &dc).await;
    Ok(Obs { dc, plan, got, dist })
}

/// Random world and query. Budgets are ample (finding F1 has its own scenario).
pub async fn world_query(ctx: &Arc<CaseCtx>, r: &mut StdRng, tweak: impl FnOnce(&mut StdRng, &mut ClusterCfg, &mut QCfg, &mut Vec<TableSpec>)) -> Result<Prepared, CaseResult> {
    let mut ccfg = random_cluster(r);
    let mut q = QCfg::random(r);
    q.budget = 64 << 20;
    if r.random_bool(0.25) {
        q.dynamic = true;
        q.dyn_bytes = pick(r, &[1, 16, 200, 2000, 50_000, 16 << 20]);
    }
    let p = pick(r, &[Profile::General, Profile::Joins, Profile::Order, Profile::Unions, Profile::Unions]);
    let nt = r.random_range(2..5);
    let mut specs: Vec<TableSpec> = (0..nt).map(|i| random_spec(r, &format!("t{i}"), 120, ccfg.workers + 3)).collect();
    tweak(r, &mut ccfg, &mut q, &mut specs);
    let names = specs.iter().map(|s| s.name.clone()).collect();
    let depth = r.random_range(1..5);
    prepare_with(ctx, r, p, depth, ccfg, q, specs, names).await
}

pub fn describe(p: &Prepared) -> String {
    format!(
        "sql={} | workers={} transport={:?} no_shortcut={} cfg={:?} tables={:?}",
        p.query.sql, p.w.cluster.cfg.workers, p.w.cluster.cfg.transport, p.w.cluster.cfg.no_shortcut, p.w.q, p.w.tables.specs
    )
}

pub fn each_node(p: &Arc<dyn ExecutionPlan>, path: &mut Vec<usize>, f: &mut dyn FnMut(&Arc<dyn ExecutionPlan>, &[usize])) {
    f(p, path);
    for (i, c) in p.children().into_iter().enumerate() {
        path.push(i);
        each_node(c, path, f);
        path.pop();
    }
}

type Path = Vec<usize>;
/// What was dispatched for one stage: for every position in the plan, the tasks having it.
pub struct StageView {
    pub id: usize,
    pub tasks: BTreeMap<usize, (Arc<dyn ExecutionPlan>, Url)>,
    pub count: usize,
    pub at: BTreeMap<Path, Vec<(usize, Arc<dyn ExecutionPlan>)>>,
    pub has_union: bool,
}

pub fn stage_views(log: &Log) -> BTreeMap<usize, StageView> {
    let mut m: BTreeMap<usize, StageView> = BTreeMap::new();
    for c in &log.coord {
        let Some(n) = &c.node else { continue };
        let s = m.entry(c.key.stage_id).or_insert_with(|| StageView { id: c.key.stage_id, tasks: Default::default(), count: c.task_count, at: Default::default(), has_union: false });
        s.tasks.insert(c.key.task_number, (Arc::clone(n), c.url.clone()));
    }
    for s in m.values_mut() {
        for (t, (n, _)) in s.tasks.clone() {
            each_node(&n, &mut vec![], &mut |p, path| {
                if p.name() == "DistributedUnionExec" || p.name().contains("IsolatorUnion") {
                    s.has_union = true;
                }
                if p.name() != "EmptyExec" {
                    s.at.entry(path.to_vec()).or_default().push((t, Arc::clone(p)));
                }
            });
        }
    }
    m
}

// ---------------------------------------------------------------- C07

/// Leaves of the stage under `p` that hold only a part of the data in each task.
fn split_leaf(p: &Arc<dyn ExecutionPlan>) -> Option<String> {
    if p.is_network_boundary() {
        let n = p.name();
        return (n != "NetworkBroadcastExec").then(|| n.to_string());
    }
    if p.children().is_empty() {
        return (p.name() == "MonExec" || p.name() == "DataSourceExec" || p.name() == "DistributedLeafExec").then(|| p.name().to_string());
    }
    p.children().into_iter().find_map(split_leaf)
}

fn left_emitting(j: &JoinType) -> bool {
    matches!(j, JoinType::Left | JoinType::Full | JoinType::LeftSemi | JoinType::LeftAnti | JoinType::LeftMark)
}

/// Violation of the "must see everything in one place" rule for node `n` running in `eff` > 1 tasks.
fn not_single(n: &Arc<dyn ExecutionPlan>) -> Option<String> {
    if let Some(j) = n.downcast_ref::<HashJoinExec>() {
        if j.mode == PartitionMode::CollectLeft {
            if left_emitting(j.join_type()) {
                return Some(format!("CollectLeft {:?} join", j.join_type()));
            }
            if let Some(l) = split_leaf(n.children()[0]) {
                return Some(format!("join collecting a build side split in tasks ({l})"));
            }
        }
    }
    if let Some(j) = n.downcast_ref::<NestedLoopJoinExec>() {
        if left_emitting(j.join_type()) {
            return Some(format!("nested loop {:?} join", j.join_type()));
        }
        if let Some(l) = split_leaf(n.children()[0]) {
            return Some(format!("nested loop join collecting a side split in tasks ({l})"));
        }
    }
    if n.name() == "CrossJoinExec" {
        if let Some(l) = split_leaf(n.children()[0]) {
            return Some(format!("cross join collecting a side split in tasks ({l})"));
        }
    }
    if n.name() == "GlobalLimitExec" {
        if let Some(l) = split_leaf(n.children()[0]) {
            return Some(format!("GlobalLimitExec over {l}"));
        }
    }
    if let Some(a) = n.downcast_ref::<AggregateExec>() {
        let fin = matches!(a.mode(), AggregateMode::Final | AggregateMode::Single);
        if fin && a.group_expr().is_empty() {
            if let Some(l) = split_leaf(n.children()[0]) {
                return Some(format!("global aggregation over {l}"));
            }
        }
    }
    for (d, c) in n.input_distribution_requirements().per_child_distributions().zip(n.children()) {
        if matches!(d, Distribution::SinglePartition) {
            if let Some(l) = split_leaf(c) {
                return Some(format!("{} needs a single partition, over {l}", n.name()));
            }
        }
    }
    None
}

/// Nodes that neither merge partitions nor restrict the task count of a stage.
fn neutral(n: &Arc<dyn ExecutionPlan>) -> bool {
    if n.fetch().is_some() {
        return false;
    }
    match n.name() {
        "MonExec" | "FilterExec" | "ProjectionExec" | "CoalesceBatchesExec" | "CooperativeExec" | "RepartitionExec" | "BroadcastExec" | "BufferExec" => true,
        "SortExec" => n.output_partitioning_count() > 1,
        "AggregateExec" => n.downcast_ref::<AggregateExec>().is_some_and(|a| *a.mode() == AggregateMode::Partial),
        _ => false,
    }
}
trait PartCount {
    fn output_partitioning_count(&self) -> usize;
}
impl PartCount for Arc<dyn ExecutionPlan> {
    fn output_partitioning_count(&self) -> usize {
        self.properties().output_partitioning().partition_count()
    }
}

fn check_sizes(log: &Log, limit: usize, dynamic: bool) -> (Option<(String, String)>, u64, u64, u64) {
    let views = stage_views(log);
    let (mut hard, mut exact, mut multi) = (0, 0, 0);
    for s in views.values() {
        if s.count == 0 || s.count > limit {
            return (Some(("limit".into(), format!("stage {} has {} tasks, limit {limit}", s.id, s.count))), hard, exact, multi);
        }
        multi += (s.count > 1) as u64;
        for (path, v) in &s.at {
            let eff = v.iter().map(|x| x.0).collect::<HashSet<_>>().len();
            let n = &v[0].1;
            if let Some(m) = n.downcast_ref::<MonExec>() {
                let max = match m.table.hint {
                    Hint::Maximum(x) => Some(x),
                    Hint::None => Some(1),
                    _ => None,
                };
                if let Some(x) = max {
                    hard += 1;
                    if eff > x {
                        return (
                            Some(("leaf-maximum".into(), format!("leaf {} (at most {x} tasks) runs in {eff} tasks of stage {} ({} tasks) at {path:?}", m.table.name, s.id, s.count))),
                            hard,
                            exact,
                            multi,
                        );
                    }
                }
            }
            if eff > 1 {
                if let Some(why) = not_single(n) {
                    return (Some(("one-place".into(), format!("stage {}: {why} runs in {eff} tasks", s.id))), hard, exact, multi);
                }
            }
        }
        // Stages made just of hinted leaves and of neutral operators: the size is determined.
        if !s.has_union && s.at.values().all(|v| neutral(&v[0].1)) {
            let mut des = 0;
            let mut cap: Option<usize> = None;
            for v in s.at.values() {
                if let Some(m) = v[0].1.downcast_ref::<MonExec>() {
                    match m.table.hint {
                        Hint::Desired(n) => des = des.max(n),
                        Hint::Maximum(n) => cap = Some(cap.map_or(n, |c| c.min(n))),
                        Hint::None => cap = Some(1),
                    }
                }
            }
            let want = cap.unwrap_or(des.max(1)).min(limit);
            exact += 1;
            let ok = if dynamic && cap.is_none() { s.count >= want } else { s.count == want };
            if !ok {
                return (
                    Some(("desired".into(), format!("stage {} has {} tasks, hints ask for {want} (limit {limit}, adaptive {dynamic})", s.id, s.count))),
                    hard,
                    exact,
                    multi,
                );
            }
        }
    }
    (None, hard, exact, multi)
}

async fn c07_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let p = match world_query(&ctx, &mut r, |r, _, q, specs| {
        for s in specs.iter_mut() {
            s.parquet = r.random_bool(0.15);
        }
        if r.random_bool(0.4) {
            q.max_tasks = r.random_range(1..9);
        }
    })
    .await
    {
        Ok(p) => p,
        Err(e) => return e,
    };
    let desc = describe(&p);
    ctx.note(desc.clone());
    let o = match observe(&p.w, &p.query.sql, &|b| Ok(b)).await {
        Ok(o) => o,
        Err(e) => return e,
    };
    let limit = if p.w.q.max_tasks == 0 { p.w.cluster.cfg.workers } else { p.w.q.max_tasks };
    let log = p.w.mon.log.lock().unwrap();
    let (v, hard, exact, multi) = check_sizes(&log, limit, p.w.q.dynamic);
    if let Some((sig, d)) = v {
        return CaseResult::viol(format!("{sig}: {}", p.query.sql), format!("{d} | {desc} | plan:\n{}\n{}", plan_str(&o.plan), dump_log(&log)));
    }
    // Also the plan as it was built (even the stages that were not executed).
    let mut bad = None;
    if !p.w.q.dynamic {
        each_node(&o.plan, &mut vec![], &mut |n, _| {
            if let Some(b) = n.as_network_boundary() {
                let t = b.input_stage().task_count();
                if t == 0 || t > limit {
                    bad = Some(format!("stage {} planned with {t} tasks, limit {limit}", b.input_stage().num()));
                }
            }
        });
    }
    if let Some(d) = bad {
        return CaseResult::viol(format!("limit: {}", p.query.sql), format!("{d} | {desc} | plan:\n{}", plan_str(&o.plan)));
    }
    let res = CaseResult::ok()
        .count("queries_distributed", o.dist as u64)
        .count("stages_seen", stage_views(&log).len() as u64)
        .count("multi_task_stages", multi)
        .count("hard_maximum_checks", hard)
        .count("exact_size_checks", exact)
        .count("adaptive", (p.w.q.dynamic && o.dist) as u64);
    if multi > 0 {
        return res.seen(mix(hash_str(&plan_str(&o.plan)), shape_fp(&log))).sampled(json!({"sql": p.query.sql, "limit": limit,
            "stages": stage_views(&log).values().map(|s| (s.id, s.count)).collect::<Vec<_>>()}));
    }
    res
}

// ---------------------------------------------------------------- C08

/// Walks a statically planned distributed plan. `tasks`: tasks of the enclosing stage.
fn check_plan(plan: &Arc<dyn ExecutionPlan>, tasks: usize, seen: &mut HashSet<usize>, query: &mut Option<uuid::Uuid>, in_union: bool) -> Option<(String, String)> {
    if let Some(b) = plan.as_network_boundary() {
        let st = b.input_stage();
        if !seen.insert(st.num()) {
            return Some(("stage-number".into(), format!("stage number {} used twice", st.num())));
        }
        match query {
            None => *query = Some(st.query_id()),
            Some(q) if *q != st.query_id() => return Some(("query-id".into(), "stages of one plan carry different query ids".into())),
            _ => {}
        }
        if st.task_count() == 0 {
            return Some(("no-tasks".into(), format!("stage {} has no tasks", st.num())));
        }
        if !in_union && tasks == 1 && st.task_count() == 1 {
            return Some(("one-to-one".into(), format!("boundary of stage {} links one task to one task", st.num())));
        }
        let Some(inner) = st.local_plan() else {
            return Some(("not-local".into(), format!("stage {} has no plan", st.num())));
        };
        if inner.schema().fields() != plan.schema().fields() {
            return Some(("schema".into(), format!("stage {} produces {:?}, its boundary declares {:?}", st.num(), inner.schema(), plan.schema())));
        }
        let parts = plan.properties().output_partitioning().partition_count();
        let prod = inner.properties().output_partitioning().partition_count();
        match plan.name() {
            "NetworkShuffleExec" => {
                // A partial reduction may sit on top of the repartition.
                let mut top = inner;
                while top.downcast_ref::<AggregateExec>().is_some() {
                    top = top.children()[0];
                }
                let Some(rp) = top.downcast_ref::<RepartitionExec>() else {
                    return Some(("shuffle-head".into(), format!("stage {} below a shuffle has {} on top", st.num(), inner.name())));
                };
                match (rp.partitioning(), plan.properties().output_partitioning()) {
                    (Partitioning::Hash(e, n), Partitioning::Hash(ce, c)) => {
                        if e.len() != ce.len() || !e.iter().zip(ce).all(|(x, y)| x.to_string() == y.to_string()) {
                            return Some(("shuffle-keys".into(), format!("stage {} hashes by {e:?}, its consumers claim {ce:?}", st.num())));
                        }
                        if !in_union && *n != c * tasks {
                            return Some(("shuffle-partitions".into(), format!("stage {} makes {n} partitions for {tasks} consumers of {c}", st.num())));
                        }
                    }
                    (a, b) => return Some(("shuffle-partitioning".into(), format!("stage {}: {a:?} vs {b:?}", st.num()))),
                }
            }
            "NetworkBroadcastExec" => {
                if !in_union && prod != parts * tasks {
                    return Some(("broadcast-partitions".into(), format!("stage {} makes {prod} partitions for {tasks} consumers of {parts}", st.num())));
                }
            }
            "NetworkCoalesceExec" => {
                if !in_union && parts * tasks < prod * st.task_count() {
                    return Some(("coalesce-partitions".into(), format!("stage {} makes {} x {prod} partitions, {tasks} consumers read {parts} each", st.num(), st.task_count())));
                }
            }
            _ => {}
        }
        return check_plan(inner, st.task_count(), seen, query, false);
    }
    if let Some(l) = plan.downcast_ref::<DistributedLeafExec>() {
        if !in_union && l.variants().len() != tasks {
            return Some(("leaf-variants".into(), format!("leaf has {} variants, its stage {tasks} tasks", l.variants().len())));
        }
        let n = plan.properties().output_partitioning().partition_count();
        for v in l.variants() {
            if v.properties().output_partitioning().partition_count() != n || v.schema() != plan.schema() {
                return Some(("leaf-variant-shape".into(), format!("leaf exposes {n} partitions, a variant {}", v.properties().output_partitioning().partition_count())));
            }
        }
    }
    let u = in_union || plan.name().contains("IsolatorUnion") || plan.name().contains("DistributedUnion");
    plan.children().into_iter().find_map(|c| check_plan(c, tasks, seen, query, u))
}

async fn c08_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let p = match world_query(&ctx, &mut r, |r, _, q, specs| {
        q.dynamic = r.random_bool(0.1);
        if r.random_bool(0.25) {
            // mostly not distributable
            for s in specs.iter_mut() {
                s.hint = pick(r, &[Hint::None, Hint::Maximum(1), Hint::Desired(1)]);
                s.parquet = false;
            }
        }
    })
    .await
    {
        Ok(p) => p,
        Err(e) => return e,
    };
    let w = &p.w;
    let sql = &p.query.sql;
    let desc = describe(&p);
    ctx.note(desc.clone());
    let dc = match w.distributed().await {
        Ok(c) => c,
        Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
    };
    // The distributed planner turns this option off, on purpose, in any session it is added to.
    let mut plain_q = w.q.clone();
    plain_q.df.push(("datafusion.optimizer.enable_physical_uncorrelated_scalar_subquery", "false".into()));
    let plain = match w.undistributed_with(&plain_q).await {
        Ok(c) => c,
        Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
    };
    let pp = match plan_of(&plain, sql).await {
        Ok(p) => p,
        Err(_) => return CaseResult::inconclusive("plain planning failed"),
    };
    let mut res = CaseResult::ok();
    // 1. no workers: plain plan or a clear error
    {
        let saved: Vec<Url> = std::mem::take(&mut *w.cluster.resolver_urls.0.lock().unwrap());
        let q = plan_of(&dc, sql).await;
        let out = match &q {
            Ok(q) if find_distributed(q) || boundaries(q) > 0 => {
                // Explicit per-stage maximum: planning may go on, but execution must fail clearly.
                match tokio::time::timeout(std::time::Duration::from_secs(20), run_plan(&w.mon, q, &dc)).await {
                    Ok(Err(_)) => None,
                    Ok(Ok(_)) if w.q.dynamic && p.w.mon.log.lock().unwrap().coord.is_empty() => None,
                    Ok(Ok(_)) => Some("query over zero workers claims to have been distributed and succeeds".to_string()),
                    Err(_) => Some("query over zero workers hangs".to_string()),
                }
            }
            Ok(q) => (!same_plan(q, &pp) && !varies(&plain, sql, q).await).then(|| format!("plan over zero workers differs from the plain one:\n{}\n--- plain:\n{}", plan_str(q), plan_str(&pp))),
            Err(_) => None,
        };
        *w.cluster.resolver_urls.0.lock().unwrap() = saved;
        if let Some(d) = out {
            return CaseResult::viol(format!("no-workers: {sql}"), format!("{d} | {desc}"));
        }
        res = res.count("zero_worker_plans", 1);
    }
    w.mon.clear();
    let plan = match plan_of(&dc, sql).await {
        Ok(p) => p,
        Err(e) => return CaseResult::inconclusive(format!("planning: {}", err_short(&e).chars().take(60).collect::<String>())),
    };
    let fp = hash_str(&plan_str(&plan));
    match plan.downcast_ref::<DistributedExec>() {
        None => {
            if find_distributed(&plan) || boundaries(&plan) > 0 {
                return CaseResult::viol(format!("half-distributed: {sql}"), format!("boundaries without a DistributedExec on top | {desc} | plan:\n{}", plan_str(&plan)));
            }
            if !same_plan(&plan, &pp) && !varies(&plain, sql, &plan).await {
                return CaseResult::viol(
                    format!("not-plain: {sql}"),
                    format!("nothing to distribute, but the plan changed | {desc} | plan:\n{}\n--- plain:\n{}", plan_str(&plan), plan_str(&pp)),
                );
            }
            return res.count("left_plain", 1).seen(fp);
        }
        Some(_) if !w.q.dynamic => {
            let head = plan.children()[0];
            if boundaries(head) == 0 {
                return CaseResult::viol(format!("no-boundary: {sql}"), format!("DistributedExec without any boundary | {desc} | plan:\n{}", plan_str(&plan)));
            }
            if head.properties().output_partitioning().partition_count() != 1 {
                return CaseResult::viol(format!("head-partitions: {sql}"), format!("head stage has several partitions | {desc}"));
            }
            let mut q = None;
            if let Some((s, d)) = check_plan(head, 1, &mut HashSet::new(), &mut q, false) {
                return CaseResult::viol(format!("{s}: {sql}"), format!("{d} | {desc} | plan:\n{}", plan_str(&plan)));
            }
            if plan.schema().fields() != pp.schema().fields() {
                return CaseResult::viol(format!("plan-schema: {sql}"), format!("{:?} vs {:?} | {desc}", plan.schema(), pp.schema()));
            }
            res = res.count("static_plans_checked", 1).count("boundaries_checked", boundaries(head) as u64);
        }
        Some(_) => res = res.count("adaptive_plans", 1),
    }
    // Rendering a plan is part of what the user sees: it never fails or panics.
    let txt = display_plan_ascii(plan.as_ref(), false);
    if txt.is_empty() {
        return CaseResult::viol(format!("render: {sql}"), "empty rendering".to_string());
    }
    // The same traffic: ranges asked from each stage agree with what its head produces.
    let got = run_plan(&w.mon, &plan, &dc).await;
    if got.is_err() {
        return CaseResult::inconclusive("execution failed");
    }
    let log = w.mon.log.lock().unwrap();
    if let Some((s, d)) = check_ranges(&log) {
        return CaseResult::viol(format!("{s}: {sql}"), format!("{d} | {desc} | plan:\n{}\n{}", plan_str(&plan), dump_log(&log)));
    }
    res.count("reads_checked", log.exec.len() as u64).seen(mix(fp, shape_fp(&log))).sampled(json!({"sql": sql, "boundaries": boundaries(&plan)}))
}

fn head_count(h: &str) -> Option<usize> {
    // "broadcast(N)" or "repartition(Hash([..], N))"
    let t = h.trim_end_matches(')');
    if h.starts_with("broadcast(") {
        return t.trim_start_matches("broadcast(").parse().ok();
    }
    if h.starts_with("repartition(") {
        return t.rsplit(", ").next().and_then(|x| x.parse().ok());
    }
    None
}

/// Ranges requested from one stage by its consumers.
fn check_ranges(log: &Log) -> Option<(String, String)> {
    let mut by_stage: BTreeMap<usize, Vec<&ExecRec>> = BTreeMap::new();
    for e in &log.exec {
        by_stage.entry(e.key.stage_id).or_default().push(e);
    }
    for (s, v) in by_stage {
        let h = &v[0].head;
        if v.iter().any(|e| e.head != *h) {
            return Some(("heads-differ".into(), format!("consumers of stage {s} ask for different outputs: {:?}", v.iter().map(|e| e.head.clone()).collect::<HashSet<_>>())));
        }
        if let Some(n) = head_count(h) {
            let width = v[0].end - v[0].start;
            for e in &v {
                if e.end > n || e.end <= e.start {
                    return Some(("range".into(), format!("stage {s} has {n} partitions, {}..{} asked", e.start, e.end)));
                }
                if e.end - e.start != width || e.start % width != 0 || n % width != 0 {
                    return Some(("range-width".into(), format!("stage {s}: {n} partitions, ranges {:?}", v.iter().map(|e| (e.start, e.end)).collect::<HashSet<_>>())));
                }
            }
        } else {
            for e in &v {
                let have = log.coord.iter().find(|c| c.key == e.key).map(|c| c.plan_partitions);
                if let Some(n) = have {
                    if e.end > n {
                        return Some(("range".into(), format!("task {:?} has {n} partitions, {}..{} asked", e.key, e.start, e.end)));
                    }
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Copy, Debug, PartialEq)]
enum Routing {
    Default,
    Declines,
    Fixed,
    Subset,
    Short,
    Long,
    Error,
}

fn check_readers(log: &Log, urls: &[Url]) -> Option<(String, String)> {
    let views = stage_views(log);
    // stage -> (consumer stage or head, consumer tasks in order)
    let mut consumers: HashMap<usize, (usize, Vec<usize>, &'static str)> = HashMap::new();
    for s in views.values() {
        for v in s.at.values() {
            if let Some(b) = v[0].1.as_network_boundary() {
                let kind = match v[0].1.name() {
                    "NetworkShuffleExec" => "shuffle",
                    "NetworkBroadcastExec" => "broadcast",
                    _ => "coalesce",
                };
                let mut t: Vec<usize> = v.iter().map(|x| x.0).collect();
                t.sort();
                consumers.insert(b.input_stage().num(), (s.id, t, kind));
            }
        }
    }
    for e in &log.exec {
        let width = e.end - e.start;
        let expect = match consumers.get(&e.key.stage_id) {
            None => Caller::Coordinator,
            Some((cs, tasks, kind)) => {
                let i = match *kind {
                    "coalesce" if tasks.len() == 1 => 0,
                    "coalesce" => continue,
                    _ => e.start / width.max(1),
                };
                let Some(t) = tasks.get(i) else {
                    return Some(("reader-out-of-range".into(), format!("task {:?} {}..{} read as consumer {i} of {}", e.key, e.start, e.end, tasks.len())));
                };
                let u = &views[cs].tasks[t].1;
                Caller::Worker(urls.iter().position(|x| x == u).unwrap_or(usize::MAX))
            }
        };
        if e.caller != expect {
            return Some(("wrong-reader".into(), format!("task {:?} partitions {}..{} are for {expect:?} but read by {:?}", e.key, e.start, e.end, e.caller)));
        }
    }
    None
}

async fn c09_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let p = match world_query(&ctx, &mut r, |r, c, _, _| {
        c.no_shortcut = r.random_bool(0.75);
        c.workers = r.random_range(1..7);
    })
    .await
    {
        Ok(p) => p,
        Err(e) => return e,
    };
    if r.random_bool(0.25) {
        p.w.mon.faults.lock().unwrap().delay = Some((40, pick(&mut r, &[1, 5])));
    }
    let routing = pick(&mut r, &[Routing::Default, Routing::Default, Routing::Declines, Routing::Fixed, Routing::Fixed, Routing::Subset, Routing::Short, Routing::Long, Routing::Error]);
    let seed: u64 = r.random();
    let urls = p.w.cluster.urls.clone();
    let desc = format!("routing={routing:?} {}", describe(&p));
    ctx.note(desc.clone());
    // what the handler answered, per call: (task_count, urls)
    let answers: Arc<std::sync::Mutex<Vec<(usize, Vec<Url>)>>> = Default::default();
    let a2 = Arc::clone(&answers);
    let u2 = urls.clone();
    let hook = move |b: datafusion::execution::SessionStateBuilder| -> Result<datafusion::execution::SessionStateBuilder> {
        if routing == Routing::Default {
            return Ok(b);
        }
        let a = Arc::clone(&a2);
        let urls = u2.clone();
        Ok(b.with_distributed_route_tasks_handler(move |ev: RouteTasksEvent| {
            let mut a = a.lock().unwrap();
            let k = mix(seed, a.len() as u64);
            let pickv = |i: usize| urls[(mix(k, i as u64) % urls.len() as u64) as usize].clone();
            let v: Vec<Url> = match routing {
                Routing::Declines | Routing::Default => {
                    a.push((ev.task_count, vec![]));
                    return None;
                }
                Routing::Fixed => (0..ev.task_count).map(pickv).collect(),
                Routing::Subset => (0..ev.task_count).map(|_| urls[0].clone()).collect(),
                Routing::Short => (0..ev.task_count - 1).map(pickv).collect(),
                Routing::Long => (0..ev.task_count + 1).map(pickv).collect(),
                Routing::Error => {
                    a.push((ev.task_count, vec![]));
                    return Some(Err(exec_datafusion_err!("routing refused on purpose")));
                }
            };
            a.push((ev.task_count, v.clone()));
            Some(Ok(RouteTasksEventResponse::new(v)))
        }))
    };
    let o = match observe(&p.w, &p.query.sql, &hook).await {
        Ok(o) => o,
        Err(e) => return e,
    };
    let log = p.w.mon.log.lock().unwrap();
    let ans = answers.lock().unwrap();
    let bad = |s: &str, d: String| CaseResult::viol(format!("{s}: {}", p.query.sql), format!("{d} | {desc} | plan:\n{}\n{}", plan_str(&o.plan), dump_log(&log)));
    if matches!(routing, Routing::Short | Routing::Long | Routing::Error) && !ans.is_empty() {
        let e = match &o.got {
            Ok(_) => return bad("bad-routing-accepted", format!("routing answer {ans:?} was accepted")),
            Err(e) => e.to_string(),
        };
        if routing == Routing::Error && !e.contains("routing refused on purpose") {
            return bad("routing-error-lost", format!("error of the routing handler became: {e}"));
        }
        return CaseResult::ok().count("bad_routings_rejected", 1).count("queries_distributed", 1).seen(mix(hash_str(&p.query.sql), routing as u64));
    }
    if let Err(e) = &o.got {
        return CaseResult::inconclusive(format!("execution failed: {}", err_short(e).chars().take(60).collect::<String>()));
    }
    if let Some((s, d)) = check_dispatch(&log, &urls, true, p.w.q.dynamic) {
        return bad(&s, d);
    }
    if let Some((s, d)) = check_readers(&log, &urls) {
        return bad(&s, d);
    }
    if let Some((s, d)) = check_ranges(&log) {
        return bad(&s, d);
    }
    let views = stage_views(&log);
    // Every stage of the executed plan got its tasks (static plans show which stages exist).
    if !p.w.q.dynamic && o.dist {
        let mut missing = None;
        each_node(&o.plan, &mut vec![], &mut |n, _| {
            if let Some(b) = n.as_network_boundary() {
                let (num, t) = (b.input_stage().num(), b.input_stage().task_count());
                if views.get(&num).map(|v| v.tasks.len()) != Some(t) {
                    missing = Some(format!("stage {num} of {t} tasks: dispatched {:?}", views.get(&num).map(|v| v.tasks.len())));
                }
            }
        });
        if let Some(d) = missing {
            return bad("stage-not-dispatched", d);
        }
    }
    let mut routed = 0;
    match routing {
        Routing::Fixed | Routing::Subset => {
            let mut left: Vec<Vec<Url>> = ans.iter().map(|a| a.1.clone()).collect();
            for v in views.values() {
                let u: Vec<Url> = v.tasks.values().map(|x| x.1.clone()).collect();
                match left.iter().position(|a| *a == u) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => return bad("routing-not-followed", format!("stage {} went to {u:?}, not among the answers {ans:?}", v.id)),
                }
                routed += 1;
            }
        }
        _ => {
            for v in views.values() {
                let u: HashSet<&Url> = v.tasks.values().map(|x| &x.1).collect();
                let want = v.count.min(urls.len());
                if u.len() != want {
                    return bad("not-spread", format!("stage {} of {} tasks runs on {} of {} workers", v.id, v.count, u.len(), urls.len()));
                }
            }
        }
    }
    let res = CaseResult::ok()
        .count("queries_distributed", o.dist as u64)
        .count("tasks_dispatched", log.coord.len() as u64)
        .count("reads_checked", log.exec.len() as u64)
        .count("stages_custom_routed", routed)
        .count("adaptive", (p.w.q.dynamic && o.dist) as u64);
    if log.coord.len() > 1 {
        return res.seen(mix(shape_fp(&log), order_fp(&log))).sampled(json!({"sql": p.query.sql, "routing": format!("{routing:?}"), "tasks": log.coord.len(), "reads": log.exec.len()}));
    }
    res
}

pub fn c07(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(c07_case(ctx, r))
}
pub fn c08(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(c08_case(ctx, r))
}
pub fn c09(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(c09_case(ctx, r))
}

#[allow(dead_code)]
fn _t(_: DataFusionError) {}

/// Which files are left in a scan that stops listing files once it has enough rows for a limit
/// depends on the order in which the listing completes, in plain DataFusion too.
fn same_plan(a: &Arc<dyn ExecutionPlan>, b: &Arc<dyn ExecutionPlan>) -> bool {
    mask_files(&plan_str(a)) == mask_files(&plan_str(b))
}
/// Plain plans of files under a limit depend on the order in which their listing came in: `got` is
/// plain as well if planning again yields it, and not comparable if plain plans keep differing.
async fn varies(plain: &datafusion::prelude::SessionContext, sql: &str, got: &Arc<dyn ExecutionPlan>) -> bool {
    if plan_str(got).lines().any(|l| l.contains("file_groups=") && l.contains("limit=")) {
        return true;
    }
    let mut first: Option<String> = None;
    for _ in 0..100 {
        let Ok(p) = plan_of(plain, sql).await else { return true };
        if same_plan(&p, got) {
            return true;
        }
        let s = mask_files(&plan_str(&p));
        if first.get_or_insert_with(|| s.clone()) != &s {
            return true;
        }
    }
    false
}
fn mask_files(plan: &str) -> String {
    plan.lines()
        .map(|l| match (l.contains("limit="), l.find("file_groups="), l.find("projection=")) {
            (true, Some(a), Some(b)) if a < b => format!("{}{}\n", &l[..a], &l[b..]),
            _ => format!("{l}\n"),
        })
        .collect()
}
