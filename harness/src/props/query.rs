//! C01-C05: random queries, distributed vs. single node.
use crate::cluster::*;
use crate::core::*;
use crate::data::*;
use crate::leaf::*;
use crate::mon::*;
use crate::oracle::*;
use crate::qcfg::*;
use crate::sqlgen::*;
use crate::world::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion_distributed::DistributedExt;
use futures::future::BoxFuture;
use rand::Rng;
use rand::rngs::StdRng;
use serde_json::json;
use datafusion::physical_plan::repartition::RepartitionExec;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile {
    General,
    Joins,
    Order,
    Unions,
    Adaptive,
}

pub fn weights(p: Profile) -> Weights {
    let mut w = Weights::all();
    match p {
        Profile::General | Profile::Adaptive => {}
        Profile::Joins => {
            w.join = 14;
            w.semi = 6;
            w.sort_limit = 3;
        }
        Profile::Order => {
            w.sort_limit = 12;
            w.window = 3;
        }
        Profile::Unions => {
            w.union = 14;
        }
    }
    w
}

pub fn random_cluster(r: &mut StdRng) -> ClusterCfg {
    let mut c = ClusterCfg::new(r.random_range(1..7));
    c.transport = match r.random_range(0..8) {
        0 => Transport::Tcp,
        1 => Transport::Duplex(512),
        _ => Transport::Duplex(64 * 1024),
    };
    c.no_shortcut = r.random_bool(0.5);
    c.url_style = pick(r, &[0, 0, 1, 2, 3]);
    c
}

pub struct Prepared {
    pub w: World,
    pub query: Query,
    pub exp: Vec<RecordBatch>,
    pub unl: Option<Vec<RecordBatch>>,
}

/// Builds a world and a query whose single-node answer is known.
pub async fn prepare(ctx: &Arc<CaseCtx>, r: &mut StdRng, p: Profile, depth: u32) -> Result<Prepared, CaseResult> {
    let ccfg = random_cluster(r);
    let mut q = QCfg::random(r);
    if p == Profile::Adaptive {
        q.dynamic = true;
        // Known finding F1 again: sampled partitions wait without being read.
        q.budget = 64 << 20;
        q.dyn_bytes = pick(r, &[1, 16, 200, 2000, 50_000, 16 << 20]);
        q.isolate = r.random_bool(0.9);
    }
    if p == Profile::Unions {
        q.isolate = r.random_bool(0.9);
    }
    let nt = r.random_range(2..5);
    let specs: Vec<TableSpec> = (0..nt).map(|i| random_spec(r, &format!("t{i}"), 220, ccfg.workers + 2)).collect();
    if specs.iter().any(|s| s.hive) && r.random_bool(0.6) {
        q.df.push(("datafusion.optimizer.preserve_file_partitions", pick(r, &["1", "1", "2", "4"]).into()));
        q.df.push(("datafusion.optimizer.subset_repartition_threshold", pick(r, &["1", "4"]).into()));
    }
    let names = specs.iter().map(|s| s.name.clone()).collect();
    prepare_with(ctx, r, p, depth, ccfg, q, specs, names).await
}

#[allow(clippy::too_many_arguments)]
pub async fn prepare_with(
    ctx: &Arc<CaseCtx>,
    r: &mut StdRng,
    p: Profile,
    depth: u32,
    ccfg: ClusterCfg,
    q: QCfg,
    specs: Vec<TableSpec>,
    names: Vec<String>,
) -> Result<Prepared, CaseResult> {
    let w = World::new(ctx, r, specs, ccfg, q).await;
    match another_query(ctx, r, p, depth, &w, &names).await? {
        Some((query, exp, unl)) => Ok(Prepared { w, query, exp, unl }),
        None => Err(CaseResult::inconclusive("no usable query generated")),
    }
}

pub type Answered = (Query, Vec<RecordBatch>, Option<Vec<RecordBatch>>);

/// A query over the tables of a world, with its single-node answer.
pub async fn another_query(ctx: &Arc<CaseCtx>, r: &mut StdRng, p: Profile, depth: u32, w: &World, names: &[String]) -> Result<Option<Answered>, CaseResult> {
    let refc = w.reference().await.map_err(|e| CaseResult::inconclusive(format!("reference setup: {e}")))?;
    for _ in 0..6 {
        let query = {
            let mut g = Gen::new(r, names.to_vec(), weights(p));
            g.query(depth)
        };
        ctx.note(format!("reference: {}", query.sql));
        if let Ok(u) = w.undistributed().await
            && let Ok(plan) = plan_of(&u, &query.sql).await
            && (topk_below_window(&plan, 0) || ordered_grouping_sets(&plan) || mixes_file_partitions(&plan) || filtered_outer_merge_join(&plan))
        {
            continue;
        }
        ctx.beat.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let exp = match tokio::time::timeout(Duration::from_secs(8), collect_df(&refc, &query.sql)).await {
            Ok(Ok(e)) => e,
            Ok(Err(e)) => {
                if ctx.verbose {
                    eprintln!("[reference error] {} :: {}", err_short(&e), query.sql);
                }
                continue;
            }
            Err(_) => continue,
        };
        if exp.iter().map(|b| b.num_rows()).sum::<usize>() > 6000 {
            continue;
        }
        let unl = match &query.unlimited {
            Some(u) if query.loose.is_some() => match tokio::time::timeout(Duration::from_secs(8), collect_df(&refc, u)).await {
                Ok(Ok(e)) => Some(e),
                _ => continue,
            },
            _ => None,
        };
        return Ok(Some((query, exp, unl)));
    }
    Ok(None)
}

/// DataFusion pushes the fetch of a LIMIT over a window function below the hash repartition feeding
/// it, where rows of other window partitions crowd out the ones needed: wrong rows, depending on how
/// they are spread. Nothing can be judged on such queries.
fn topk_below_window(plan: &Arc<dyn datafusion::physical_plan::ExecutionPlan>, state: u8) -> bool {
    let name = plan.name();
    let is_hash = plan.downcast_ref::<RepartitionExec>().is_some_and(|r| matches!(r.partitioning(), datafusion::physical_plan::Partitioning::Hash(_, _)));
    let state = match state {
        _ if name.contains("WindowAggExec") => 1,
        1 if is_hash => 2,
        2 if plan.fetch().is_some() => return true,
        s if plan.children().len() == 1 => s,
        _ => 0,
    };
    plan.children().into_iter().any(|c| topk_below_window(c, state))
}

/// DataFusion keeps its input's ordering on the output of a grouping-sets aggregation, although the
/// null-extended grouping columns are not ordered: groups split when such streams are merged.
fn ordered_grouping_sets(plan: &Arc<dyn datafusion::physical_plan::ExecutionPlan>) -> bool {
    plan.downcast_ref::<datafusion::physical_plan::aggregates::AggregateExec>()
        .is_some_and(|a| a.group_expr().groups().len() > 1 && datafusion::physical_plan::ExecutionPlan::properties(a).output_ordering().is_some())
        || plan.children().into_iter().any(ordered_grouping_sets)
}

/// DataFusion's sort-merge join loses track of unmatched rows of its right side when a filter spans batch
/// boundaries: nulls in columns that have none, or batches that do not fit their schema, now and then.
fn filtered_outer_merge_join(plan: &Arc<dyn datafusion::physical_plan::ExecutionPlan>) -> bool {
    use datafusion::common::JoinType;
    plan.downcast_ref::<datafusion::physical_plan::joins::SortMergeJoinExec>()
        .is_some_and(|j| j.filter().is_some() && matches!(j.join_type(), JoinType::Full | JoinType::Right))
        || plan.children().into_iter().any(filtered_outer_merge_join)
}

/// Whether plain DataFusion can plan the query with subqueries turned into joins, as the distributed
/// planner documents it needs them.
pub async fn plain_plans_it(p: &Prepared) -> bool {
    let mut q = p.w.q.clone();
    q.df.push(("datafusion.optimizer.enable_physical_uncorrelated_scalar_subquery", "false".into()));
    match p.w.undistributed_with(&q).await {
        Ok(c) => plan_of(&c, &p.query.sql).await.is_ok(),
        Err(_) => false,
    }
}

/// DataFusion takes a scan of partition directories for hash-partitioned, and joins it partition by
/// partition with real hash partitions, or with other directories grouped differently: rows do not
/// meet, or do by chance.
fn mixes_file_partitions(plan: &Arc<dyn datafusion::physical_plan::ExecutionPlan>) -> bool {
    fn origins(p: &Arc<dyn datafusion::physical_plan::ExecutionPlan>, bad: &mut bool) -> std::collections::BTreeSet<String> {
        use datafusion::catalog::memory::DataSourceExec;
        use datafusion::datasource::physical_plan::FileScanConfig;
        use datafusion::physical_plan::Partitioning;
        let mut out: std::collections::BTreeSet<String> = Default::default();
        for c in p.children() {
            out.extend(origins(c, bad));
        }
        if out.len() > 1 && (p.name() == "InterleaveExec" || p.name() == "SortMergeJoinExec" || p.downcast_ref::<datafusion::physical_plan::joins::HashJoinExec>().is_some_and(|j| j.mode == datafusion::physical_plan::joins::PartitionMode::Partitioned)) {
            *bad |= out.iter().any(|o| o != "hash");
        }
        if p.downcast_ref::<RepartitionExec>().is_some() {
            out.clear();
            if matches!(p.properties().partitioning, Partitioning::Hash(_, _)) {
                out.insert("hash".into());
            }
        } else if p.properties().partitioning.partition_count() == 1 {
            out.clear();
        } else if let Some(d) = p.downcast_ref::<DataSourceExec>()
            && let Some(f) = d.data_source().downcast_ref::<FileScanConfig>()
            && matches!(p.properties().partitioning, Partitioning::Hash(_, _))
        {
            let groups: Vec<Vec<String>> = f
                .file_groups
                .iter()
                .map(|g| {
                    let mut v: Vec<String> = g.files().iter().map(|f| format!("{:?}", f.partition_values)).collect();
                    v.dedup();
                    v
                })
                .collect();
            out.insert(format!("{groups:?}"));
        }
        out
    }
    let mut bad = false;
    origins(plan, &mut bad);
    bad
}

/// DataFusion's plan serialization forgets that a union made its inputs' columns nullable (the target
/// field of a cast): whichever batch comes first then decides whether nulls are allowed after it.
fn forgets_nullability(p: &Prepared, e: &datafusion::common::DataFusionError) -> bool {
    p.query.sql.contains("UNION") && err_short(e).contains("is declared as non-nullable but contains null values")
}

/// Whether it is DataFusion itself that fails with this error.
pub async fn datafusion_fails(p: &Prepared, e: &datafusion::common::DataFusionError) -> bool {
    forgets_nullability(p, e) || datafusion_disagrees(p).await.is_some()
}

/// Whether plain DataFusion, with the same tables and options, already disagrees with the reference.
/// Batch sizes and an early stop change which of its own defects show, so a few variants are tried.
pub async fn datafusion_disagrees(p: &Prepared) -> Option<String> {
    for batch in [None, Some(8192usize), Some(64), Some(7), (p.w.q.shuffle_batch > 0).then_some(p.w.q.shuffle_batch)] {
        let mut q = p.w.q.clone();
        if let Some(b) = batch {
            q.batch_size = b;
        }
        let c = p.w.undistributed_with(&q).await.ok()?;
        match tokio::time::timeout(Duration::from_secs(30), collect_df(&c, &p.query.sql)).await {
            Ok(Ok(b)) => {
                if let Some(d) = judge(&p.query, &p.exp, &b, p.unl.as_deref()) {
                    return Some(d);
                }
            }
            Ok(Err(e)) => return Some(err_short(&e)),
            Err(_) => return Some("timeout".into()),
        }
        // Nothing is stopped early without the outermost LIMIT.
        if let Some(i) = p.query.sql.rfind(" LIMIT ")
            && !p.query.sql[i..].contains(')')
            && let Ok(Err(e)) = tokio::time::timeout(Duration::from_secs(30), collect_df(&c, &p.query.sql[..i])).await
        {
            return Some(err_short(&e));
        }
    }
    None
}

pub async fn query_case(ctx: Arc<CaseCtx>, mut r: StdRng, p: Profile) -> CaseResult {
    let depth = r.random_range(1..5);
    let prep = match prepare(&ctx, &mut r, p, depth).await {
        Ok(p) => p,
        Err(e) => return e,
    };
    if r.random_bool(0.3) {
        prep.w.mon.faults.lock().unwrap().delay = Some((30, pick(&mut r, &[1, 5, 20])));
    }
    judge_distributed(&ctx, &prep).await
}

pub async fn judge_distributed(ctx: &Arc<CaseCtx>, prep: &Prepared) -> CaseResult {
    let w = &prep.w;
    let desc = format!("sql={} | workers={} transport={:?} no_shortcut={} cfg={:?} tables={:?}", prep.query.sql, w.cluster.cfg.workers, w.cluster.cfg.transport, w.cluster.cfg.no_shortcut, w.q, w.tables.specs);
    ctx.note(desc.clone());
    let dc = match w.distributed().await {
        Ok(c) => c,
        Err(e) => return CaseResult::inconclusive(format!("session: {e}")),
    };
    let plan = match plan_of(&dc, &prep.query.sql).await {
        Ok(p) => p,
        Err(e) => {
            if datafusion_disagrees(prep).await.is_some() || !plain_plans_it(prep).await {
                return CaseResult::inconclusive("plain DataFusion cannot plan/run this query with these options");
            }
            return CaseResult::viol(format!("planning-failed: {}", prep.query.sql), format!("distributed planning failed although single-node works: {} | {desc}", err_short(&e)));
        }
    };
    // Known finding F1: a sorted merge over a connection whose byte budget is smaller than the data
    // deadlocks. It has its own directed scenario; here such queries run with an ample budget.
    let (dc, plan) = if w.q.budget < (1 << 20) && merges_sorted(&plan) {
        let big = |b: datafusion::execution::SessionStateBuilder| b.with_distributed_worker_connection_buffer_budget_bytes(64 << 20);
        let c = match w.distributed_with(&big).await {
            Ok(c) => c,
            Err(e) => return CaseResult::inconclusive(format!("session: {e}")),
        };
        match plan_of(&c, &prep.query.sql).await {
            Ok(p) => (c, p),
            Err(e) => return CaseResult::inconclusive(format!("replanning: {e}")),
        }
    } else {
        (dc, plan)
    };
    let dist = find_distributed(&plan);
    if ctx.verbose {
        eprintln!("{}", plan_str(&plan));
        if let Ok(u) = w.undistributed().await
            && let Ok(p) = plan_of(&u, &prep.query.sql).await
        {
            eprintln!("UNDISTRIBUTED\n{}", plan_str(&p));
        }
    }
    let got = match run_plan(&w.mon, &plan, &dc).await {
        Ok(g) => g,
        Err(e) => {
            if ctx.verbose {
                eprintln!("{}", crate::mon::dump_log(&w.mon.log.lock().unwrap()));
            }
            if datafusion_fails(prep, &e).await {
                return CaseResult::inconclusive("plain DataFusion cannot run this query with these options");
            }
            return CaseResult::viol(format!("execution-failed: {}", prep.query.sql), format!("{} | {desc} | plan:\n{}", err_short(&e), plan_str(&plan)));
        }
    };
    // Schema of what was returned.
    let ps = plan.schema();
    for b in &got {
        for (x, y) in b.schema().fields().iter().zip(ps.fields()) {
            if x.data_type() != y.data_type() || x.name() != y.name() {
                return CaseResult::viol(format!("schema: {}", prep.query.sql), format!("batch field {x:?} but plan says {y:?} | {desc}"));
            }
        }
        if b.num_columns() != ps.fields().len() {
            return CaseResult::viol(format!("schema: {}", prep.query.sql), format!("batch has {} columns, plan {} | {desc}", b.num_columns(), ps.fields().len()));
        }
    }
    if let Some(d) = judge(&prep.query, &prep.exp, &got, prep.unl.as_deref()) {
        if let Some(x) = datafusion_disagrees(prep).await {
            return CaseResult::inconclusive(format!("plain DataFusion disagrees with itself: {}", x.chars().take(60).collect::<String>()));
        }
        return CaseResult::viol(format!("rows: {}", prep.query.sql), format!("{d} | {desc} | plan:\n{}", plan_str(&plan)));
    }
    let log = w.mon.log.lock().unwrap();
    let tasks = log.coord.len() as u64;
    let execs = log.exec.len() as u64;
    let rows: usize = got.iter().map(|b| b.num_rows()).sum();
    let fp = mix(hash_str(&prep.query.sql), shape_fp(&log));
    let mut res = CaseResult::ok()
        .count("queries_compared", 1)
        .count("queries_distributed", dist as u64)
        .count("tasks_dispatched", tasks)
        .count("remote_reads", execs)
        .count("rows_compared", rows as u64)
        .count("leaf_streams", w.tables.streams() as u64)
        .count("nonempty_results", (rows > 0) as u64);
    if p_adaptive(w) {
        let li: usize = log.coord.iter().map(|c| c.load_infos.len()).sum();
        res = res.count("load_reports", li as u64);
    }
    for f in &prep.query.feats {
        res = res.count(&format!("feature_{f}"), 1);
    }
    if dist && tasks > 1 && rows > 0 {
        res = res.seen(fp).sampled(json!({"sql": prep.query.sql, "workers": w.cluster.cfg.workers, "tasks": tasks, "rows": rows,
            "order_fp": format!("{:x}", order_fp(&log))}));
    }
    res
}

pub fn merges_sorted(plan: &Arc<dyn datafusion::physical_plan::ExecutionPlan>) -> bool {
    let s = plan_str(plan);
    s.contains("SortPreservingMerge") || s.contains("preserve_order=true")
}

fn p_adaptive(w: &World) -> bool {
    w.q.dynamic
}

pub fn c01(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(query_case(ctx, r, Profile::General))
}
pub fn c02(ctx: Arc<CaseCtx>, mut r: StdRng) -> BoxFuture<'static, CaseResult> {
    if r.random_bool(0.25) {
        return Box::pin(limited_build(ctx, r));
    }
    Box::pin(query_case(ctx, r, Profile::Joins))
}

/// Limits in the middle of a query, without an order: any rows may come, but as many as asked for.
async fn limited_inside(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let ccfg = random_cluster(&mut r);
    let mut q = QCfg::random(&mut r);
    q.budget = 64 << 20;
    let specs: Vec<TableSpec> = (0..2).map(|i| random_spec(&mut r, &format!("t{i}"), 120, ccfg.workers + 2)).collect();
    let w = World::new(&ctx, &mut r, specs, ccfg, q).await;
    let sizes: Vec<usize> = w.tables.data.iter().map(|t| t.chunks.iter().flatten().map(|b| b.num_rows()).sum()).collect();
    let lim = |r: &mut StdRng, rows: usize| {
        let n = pick(r, &[0usize, 1, 2, 3, 7, 20, 60, 500]);
        let m = if r.random_bool(0.4) { r.random_range(1..30usize) } else { 0 };
        (n, m, n.min(rows.saturating_sub(m)))
    };
    let (n, m, s) = lim(&mut r, sizes[0]);
    let src = match r.random_range(0..4) {
        0 => "SELECT id, k FROM t0".to_string(),
        1 => "SELECT id, k FROM t0 WHERE id >= 0".to_string(),
        2 => "SELECT id, min(k) AS k FROM t0 GROUP BY id".to_string(),
        _ => format!("SELECT id, k FROM t0 ORDER BY k NULLS FIRST, id {}", pick(&mut r, &["", "DESC"])),
    };
    let x = format!("({src} LIMIT {n} OFFSET {m})");
    let (n2, m2, s2) = lim(&mut r, sizes[1]);
    // the query, the rows it has, and the sum of its last column when that counts rows
    let (sql, rows, sum): (String, Option<usize>, Option<usize>) = match r.random_range(0..8) {
        0 => (format!("SELECT count(*) AS c FROM {x} x"), Some(1), Some(s)),
        1 => (format!("SELECT k, count(*) AS c FROM {x} x GROUP BY k"), None, Some(s)),
        2 => (format!("SELECT id, count(*) AS c FROM {x} x GROUP BY id"), Some(s), Some(s)),
        3 => (format!("SELECT id, k, row_number() OVER (PARTITION BY k ORDER BY id) AS n FROM {x} x"), Some(s), None),
        4 => (format!("SELECT id, k FROM {x} x UNION ALL (SELECT id, k FROM t1 LIMIT {n2} OFFSET {m2})"), Some(s + s2), None),
        5 => (format!("SELECT id, k FROM {x} x ORDER BY id"), Some(s), None),
        6 => {
            let (n3, m3, s3) = lim(&mut r, s);
            (format!("SELECT id, k FROM {x} x LIMIT {n3} OFFSET {m3}"), Some(s3), None)
        }
        _ => (format!("SELECT x.id, count(*) AS c FROM {x} x CROSS JOIN t1 b GROUP BY x.id"), None, Some(s * sizes[1])),
    };
    let desc = format!("sql={sql} | workers={} transport={:?} no_shortcut={} cfg={:?} tables={:?}", w.cluster.cfg.workers, w.cluster.cfg.transport, w.cluster.cfg.no_shortcut, w.q, w.tables.specs);
    ctx.note(desc.clone());
    let run = async {
        let dc = w.distributed().await?;
        let plan = plan_of(&dc, &sql).await?;
        if ctx.verbose {
            eprintln!("{}", plan_str(&plan));
        }
        Ok::<_, datafusion::common::DataFusionError>((find_distributed(&plan), run_plan(&w.mon, &plan, &dc).await?, plan))
    };
    let (dist, got, plan) = match run.await {
        Ok(x) => x,
        Err(e) => return CaseResult::viol(format!("execution-failed: {sql}"), format!("{} | {desc}", err_short(&e))),
    };
    let have: usize = got.iter().map(|b| b.num_rows()).sum();
    let total: i64 = rows_of(&got).iter().filter_map(|x| x.trim_end_matches('|').rsplit('|').next().and_then(|v| v.parse::<i64>().ok())).sum();
    let ids: Vec<String> = rows_of(&got).iter().map(|x| x.split('|').next().unwrap().to_string()).collect();
    let distinct: std::collections::HashSet<&String> = ids.iter().collect();
    let bad = if rows.is_some_and(|x| x != have) {
        Some(format!("{have} rows instead of {rows:?}"))
    } else if sum.is_some_and(|x| x as i64 != total) {
        Some(format!("{total} rows counted instead of {sum:?}"))
    } else if !sql.starts_with("SELECT k,") && distinct.len() != ids.len() {
        Some(format!("{} different ids in {} rows", distinct.len(), ids.len()))
    } else {
        None
    };
    if let Some(d) = bad {
        let same = async { let u = w.undistributed().await?; collect_df(&u, &sql).await };
        if let Ok(o) = same.await {
            let have2: usize = o.iter().map(|b| b.num_rows()).sum();
            let total2: i64 = rows_of(&o).iter().filter_map(|x| x.trim_end_matches('|').rsplit('|').next().and_then(|v| v.parse::<i64>().ok())).sum();
            if rows.is_some_and(|x| x != have2) || sum.is_some_and(|x| x as i64 != total2) {
                return CaseResult::inconclusive("plain DataFusion gives another number of rows too");
            }
        }
        return CaseResult::viol(format!("limited-inside: {d}"), format!("{desc} | plan:\n{}", plan_str(&plan)));
    }
    let res = CaseResult::ok().count("limited_inside_checked", 1).count("queries_distributed", dist as u64);
    if dist { res.seen(mix(hash_str(&sql), shape_fp(&w.mon.log.lock().unwrap()))) } else { res }
}

/// Joins with a side limited to any n of its rows. Which ones is up to the engine, but all consumers
/// must see the same ones: each row that takes part has all of its partners, and no more than n do.
async fn limited_build(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let ccfg = random_cluster(&mut r);
    let mut q = QCfg::random(&mut r);
    q.budget = 64 << 20;
    q.broadcast = r.random_bool(0.9);
    let mut specs: Vec<TableSpec> = (0..2)
        .map(|i| {
            let mut s = random_spec(&mut r, &format!("t{i}"), 120, ccfg.workers + 2);
            s.rows = s.rows.max(8);
            s
        })
        .collect();
    // Which side DataFusion takes for the smaller one decides the orientation of the join.
    let directed = r.random_bool(0.35);
    if directed {
        specs[0].rows = specs[0].rows.max(40);
        specs[0].chunks = specs[0].chunks.max(3);
        q.broadcast = true;
    }
    if directed || r.random_bool(0.5) {
        specs[1].rows = specs[1].rows.max(specs[0].rows * 2);
    }
    let w = World::new(&ctx, &mut r, specs, ccfg, q).await;
    let n = pick(&mut r, if directed { &[2usize, 3, 5, 7][..] } else { &[1usize, 2, 3, 5, 10, 40][..] });
    let m = if r.random_bool(0.2) { r.random_range(1..6) } else { 0 };
    let x = match if directed { 1 } else { r.random_range(0..5) } {
        0 => format!("(SELECT id, k FROM t0 LIMIT {n} OFFSET {m})"),
        1..=3 => format!("(SELECT id, k FROM t0 WHERE id >= 0 LIMIT {n} OFFSET {m})"),
        _ => format!("(SELECT id, min(k) AS k FROM t0 GROUP BY id LIMIT {n} OFFSET {m})"),
    };
    let c = r.random_range(-1..6);
    // Expressions over one side only become a projection on that side: with a plain column the limit stays the join's input.
    let lt = match r.random_range(0..3) {
        0 => format!("x.id % 7 < b.id % 5 - {c}"),
        1 => format!("x.id < b.id % 5 + {c}"),
        _ => format!("x.id > b.id + {}", 10 * c),
    };
    // `left`: all rows of the limited side appear; `some`: only ids of the limited side, with or without partners.
    let (pred, pairs, right, left, some) = match if directed { pick(&mut r, &[6, 8, 9, 11, 11]) } else { r.random_range(0..16) } {
        0 | 1 => ("true", format!("SELECT x.id AS a, b.id AS b FROM {x} x CROSS JOIN t1 b"), false, false, None),
        2 => ("x.k = b.k", format!("SELECT x.id AS a, b.id AS b FROM {x} x JOIN t1 b ON x.k = b.k"), false, false, None),
        3 => ("x.k = b.k", format!("SELECT x.id AS a, b.id AS b FROM {x} x RIGHT JOIN t1 b ON x.k = b.k"), true, false, None),
        4 => ("x.id % 7 < b.id % 5", format!("SELECT x.id AS a, b.id AS b FROM {x} x JOIN t1 b ON x.id % 7 < b.id % 5"), false, false, None),
        5 => ("x.k = b.k", format!("SELECT x.id AS a, b.id AS b FROM t1 b LEFT JOIN {x} x ON x.k = b.k"), true, false, None),
        6 | 12 | 13 => (lt.as_str(), format!("SELECT x.id AS a, b.id AS b FROM {x} x LEFT JOIN t1 b ON {lt}"), false, true, None),
        7 => ("x.k = b.k", format!("SELECT x.id AS a, b.id AS b FROM {x} x LEFT JOIN t1 b ON x.k = b.k"), false, true, None),
        8 => (lt.as_str(), format!("SELECT x.id AS a, b.id AS b FROM {x} x FULL JOIN t1 b ON {lt}"), true, true, None),
        9 => (lt.as_str(), format!("SELECT x.id AS a FROM {x} x WHERE EXISTS (SELECT 1 FROM t1 b WHERE {lt})"), false, false, Some(true)),
        10 => ("x.k = b.k", format!("SELECT x.id AS a FROM {x} x WHERE NOT EXISTS (SELECT 1 FROM t1 b WHERE x.k = b.k)"), false, false, Some(false)),
        _ => (lt.as_str(), format!("SELECT x.id AS a FROM {x} x WHERE NOT EXISTS (SELECT 1 FROM t1 b WHERE {lt})"), false, false, Some(false)),
    };
    let desc = format!("sql={pairs} | workers={} transport={:?} no_shortcut={} cfg={:?} tables={:?}", w.cluster.cfg.workers, w.cluster.cfg.transport, w.cluster.cfg.no_shortcut, w.q, w.tables.specs);
    ctx.note(desc.clone());
    let full = async {
        let c = w.reference().await?;
        let all = collect_df(&c, &format!("SELECT x.id, b.id FROM t0 x JOIN t1 b ON {pred}")).await?;
        Ok::<_, datafusion::common::DataFusionError>((all, collect_df(&c, "SELECT id FROM t0").await?, collect_df(&c, "SELECT id FROM t1").await?))
    };
    let (all, t0, t1) = match full.await {
        Ok(x) => x,
        Err(e) => return CaseResult::inconclusive(format!("reference: {}", err_short(&e))),
    };
    let n0: usize = t0.iter().map(|b| b.num_rows()).sum();
    let s = n.min(n0.saturating_sub(m));
    let run = async {
        let dc = w.distributed().await?;
        let plan = plan_of(&dc, &pairs).await?;
        if ctx.verbose {
            eprintln!("{}", plan_str(&plan));
            let u = w.undistributed().await?;
            eprintln!("{}", plan_str(&plan_of(&u, &pairs).await?));
            eprintln!("{:?}", collect_df(&u, &pairs).await.map(|v| v.len()));
        }
        Ok::<_, datafusion::common::DataFusionError>((find_distributed(&plan), run_plan(&w.mon, &plan, &dc).await?, plan))
    };
    let (dist, got, plan) = match run.await {
        Ok(x) => x,
        Err(e) => return CaseResult::viol(format!("execution-failed: {pairs}"), format!("{} | {desc}", err_short(&e))),
    };
    if let Some(with) = some {
        let have: Vec<String> = rows_of(&got).into_iter().map(|v| v.trim_end_matches('|').to_string()).collect();
        let met: std::collections::HashSet<String> = rows_of(&all).into_iter().map(|v| v.split('|').next().unwrap().to_string()).collect();
        let fits: std::collections::HashSet<String> = rows_of(&t0).into_iter().map(|v| v.trim_end_matches('|').to_string()).filter(|v| met.contains(v) == with).collect();
        let distinct: std::collections::HashSet<&String> = have.iter().collect();
        let least = s.saturating_sub(n0 - fits.len());
        let bad = if distinct.len() != have.len() {
            Some(format!("{} different ids in {} rows", distinct.len(), have.len()))
        } else if have.iter().any(|v| !fits.contains(v)) {
            Some("a row that does not satisfy the condition".to_string())
        } else if have.len() > s.min(fits.len()) || have.len() < least {
            Some(format!("{} rows of a side limited to {s}, of which {least} to {} satisfy the condition", have.len(), s.min(fits.len())))
        } else {
            None
        };
        if let Some(d) = bad {
            return CaseResult::viol(format!("limited-build: {d}"), format!("{desc} | plan:\n{}", plan_str(&plan)));
        }
        let res = CaseResult::ok().count("limited_builds_checked", 1).count("queries_distributed", dist as u64);
        return if dist { res.seen(mix(hash_str(&pairs), shape_fp(&w.mon.log.lock().unwrap()))) } else { res };
    }
    let split = |v: &[RecordBatch]| -> Vec<(String, String)> {
        rows_of(v)
            .into_iter()
            .map(|r| {
                let mut it = r.split('|').map(|s| s.to_string());
                (it.next().unwrap(), it.next().unwrap())
            })
            .collect()
    };
    let mut partners: std::collections::BTreeMap<String, Vec<String>> = Default::default();
    for (a, b) in split(&all) {
        partners.entry(a).or_default().push(b);
    }
    let mut seen: std::collections::BTreeMap<String, Vec<String>> = Default::default();
    let mut bs: Vec<String> = vec![];
    for (a, b) in split(&got) {
        bs.push(b.clone());
        seen.entry(a).or_default().push(b);
    }
    let lonely = seen.remove("∅").unwrap_or_default();
    let mut bad = None;
    if left {
        // Rows without partner come once, with nulls on the other side.
        for (a, b) in seen.iter_mut() {
            if !partners.contains_key(a) && b.len() == 1 && b[0] == "∅" {
                b.clear();
            }
        }
    }
    if seen.len() > s || (left && seen.len() != s) {
        bad = Some(format!("{} rows of a side limited to {s} take part", seen.len()));
    } else if pred == "true" && partners.len() == n0 && seen.len() < s {
        bad = Some(format!("{} rows of a side limited to {s} take part", seen.len()));
    }
    for (a, b) in &seen {
        let mut x = partners.get(a).cloned().unwrap_or_default();
        let mut b = b.clone();
        x.sort();
        b.sort();
        if x != b && bad.is_none() {
            bad = Some(format!("row {a} of the limited side has {} partners instead of {}", b.len(), x.len()));
        }
    }
    if right && bad.is_none() {
        let met: std::collections::HashSet<&String> = seen.values().flatten().collect();
        let mut want: Vec<String> = rows_of(&t1).into_iter().map(|r| r.trim_end_matches('|').to_string()).filter(|b| !met.contains(b)).collect();
        let mut lonely = lonely.clone();
        want.sort();
        lonely.sort();
        if want != lonely {
            bad = Some(format!("{} rows without partner instead of {}", lonely.len(), want.len()));
        }
    }
    if let Some(d) = bad {
        return CaseResult::viol(format!("limited-build: {d}"), format!("{desc} | plan:\n{}", plan_str(&plan)));
    }
    let res = CaseResult::ok().count("limited_builds_checked", 1).count("queries_distributed", dist as u64);
    if dist { res.seen(mix(hash_str(&pairs), shape_fp(&w.mon.log.lock().unwrap()))) } else { res }
}
pub fn c03(ctx: Arc<CaseCtx>, mut r: StdRng) -> BoxFuture<'static, CaseResult> {
    if r.random_bool(0.12) {
        return Box::pin(limited_inside(ctx, r));
    }
    if r.random_bool(0.1) {
        return Box::pin(super::boundary::placed_limits(ctx, r));
    }
    Box::pin(query_case(ctx, r, Profile::Order))
}
pub fn c04(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(query_case(ctx, r, Profile::Unions))
}
pub fn c05(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(query_case(ctx, r, Profile::Adaptive))
}

#[allow(dead_code)]
fn _unused(_: Hint) {}
