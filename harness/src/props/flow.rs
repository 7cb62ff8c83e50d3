//! C15: flow control of network boundaries.
use super::query::random_cluster;
use crate::cluster::*;
use crate::core::*;
use crate::leaf::*;
use crate::mon::*;
use crate::qcfg::*;
use crate::tap::*;
use crate::world::*;
use datafusion::arrow::array::*;
use datafusion::arrow::datatypes::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::physical_expr::expressions::Column;
use datafusion::physical_expr::{Partitioning, PhysicalExpr};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use datafusion_distributed::*;
use futures::future::BoxFuture;
use rand::rngs::StdRng;
use rand::{Rng, RngCore};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::sync::atomic::Ordering;
use std::time::Duration;

fn flow_schema() -> SchemaRef {
    Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, false), Field::new("k", DataType::Int64, false), Field::new("p", DataType::Binary, false)]))
}
fn flow_batch(r: &mut StdRng, base: i64, n: usize, size: usize, keys: i64) -> RecordBatch {
    let mut p = BinaryBuilder::new();
    let mut buf = vec![0u8; size];
    for _ in 0..n {
        r.fill_bytes(&mut buf);
        p.append_value(&buf);
    }
    let k: Int64Array = (0..n).map(|_| Some(r.random_range(0..keys))).collect();
    RecordBatch::try_new(flow_schema(), vec![Arc::new(Int64Array::from_iter_values((0..n as i64).map(|i| base + i))), Arc::new(k), Arc::new(p.finish())]).unwrap()
}
fn ids(b: &RecordBatch) -> Vec<i64> {
    b.column(0).as_primitive::<Int64Type>().values().to_vec()
}
fn keys(b: &RecordBatch) -> Vec<i64> {
    b.column(1).as_primitive::<Int64Type>().values().to_vec()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Shuffle,
    Coalesce,
    Broadcast,
}

struct Unreg(u64);
impl Drop for Unreg {
    fn drop(&mut self) {
        unregister(self.0)
    }
}

/// More than this is never in flight between a producing and a consuming task besides the budget:
/// hyper's HTTP/2 windows (2 MiB a stream, 5 MiB a connection) and pipe buffers.
const IN_FLIGHT: i64 = 8 << 20;

/// With `fails`, some producing partitions fail half way: whoever reads must not take that for an end.
async fn flow_case(ctx: Arc<CaseCtx>, mut r: StdRng, fails: bool) -> CaseResult {
    // Known finding F1: partitions read one after the other, with less budget than data.
    let directed = ctx.idx == 0 && !fails;
    let mut ccfg = random_cluster(&mut r);
    ccfg.no_shortcut = r.random_bool(0.9);
    let mut q = QCfg::base();
    q.compression = pick(&mut r, &[0, 0, 1, 2]);
    q.metrics = r.random_bool(0.5);
    q.shuffle_batch = pick(&mut r, &[0, 0, 1, 7, 100]);
    q.budget = pick(&mut r, &[0, 1, 100, 5_000, 60_000, 500_000, 64 << 20]);
    let kind = pick(&mut r, &[Kind::Coalesce, Kind::Coalesce, Kind::Shuffle, Kind::Shuffle, Kind::Broadcast]);
    let (mut producers, mut consumers) = (r.random_range(1..5), r.random_range(1..4));
    let (mut kind, mut parts) = (kind, r.random_range(1..6));
    // total data up to some MB, in few big or many small messages
    let size = pick(&mut r, &[8usize, 200, 4_000, 60_000, 300_000]);
    let total = pick(&mut r, &[100_000usize, 1_000_000, 4_000_000]);
    let total = if size == 8 { total.min(1_000_000) } else { total };
    let nkeys = pick(&mut r, &[1, 2, 20, 1000]);
    let mut sequential = q.budget > 2 * total && r.random_bool(0.5);
    let mut pausing = r.random_bool(0.5);
    // Enough data to tell a producer that waits from one that does not.
    let flood = !directed && !fails && r.random_bool(0.08);
    if flood {
        q.budget = pick(&mut r, &[0, 1, 100_000]);
        q.compression = 0;
        ccfg.no_shortcut = true;
        (kind, producers, consumers) = (Kind::Coalesce, r.random_range(1..3), 1);
        sequential = false;
        pausing = true;
    }
    // Many partitions of one connection with a full budget are given up while more comes for them.
    let closing = !directed && !fails && !flood && r.random_bool(0.12);
    if closing {
        q.budget = pick(&mut r, &[0, 1, 2_000]);
        q.shuffle_batch = pick(&mut r, &[0, 1, 1]);
        kind = pick(&mut r, &[Kind::Broadcast, Kind::Shuffle]);
        ccfg.no_shortcut = true;
        (producers, consumers, parts) = (r.random_range(1..3), r.random_range(2..4), 16);
        (sequential, pausing) = (false, false);
    }
    if directed {
        ccfg.workers = 2;
        ccfg.transport = Transport::Duplex(64 * 1024);
        ccfg.no_shortcut = true;
        q.budget = 1;
        q.shuffle_batch = 0;
        (kind, producers, consumers, parts) = (Kind::Coalesce, 2, 1, 2);
        sequential = true;
        pausing = false;
    }
    // Messages of a size set by the user.
    if !directed && r.random_bool(0.3) {
        let least = if size < 1000 { total / 2000 } else { 1 };
        ccfg.max_message = Some(pick(&mut r, &[1usize, 100, 3_000, 50_000, 1_000_000]).max(least));
    }
    let max_message = ccfg.max_message;
    // (a boundary from one task to one is taken out)
    let remote_only = ccfg.no_shortcut && (producers > 1 || consumers > 1);
    let (size, total) = if directed { (4_000, 1_000_000) } else if flood { (60_000, 24_000_000) } else if closing { (200, 400_000) } else { (size, total) };
    ccfg.hook = Some(Arc::new(|b, _, _| Ok(b.with_distributed_user_codec(TapCodec))));
    let w = World::new(&ctx, &mut r, vec![], ccfg, q.clone()).await;
    // Source: chunks are spread over the partitions of the producer tasks.
    let nchunks = if directed { 4 } else if closing { 32 } else { r.random_range(1..9) };
    let mut chunks = vec![];
    let mut id = 0i64;
    for c in 0..nchunks {
        let mut left = if directed { total / 4 } else { r.random_range(0..=2 * total / nchunks) };
        let mut v = vec![];
        while left > 0 {
            let rows = (pick(&mut r, &[1usize, 1, 3, 20, 200]).min(left / (size + 16) + 1)).min(200_000 / size + 1);
            let rows = if directed { 2 } else { rows };
            v.push(flow_batch(&mut r, id + c as i64 * 10_000_000, rows, size, nkeys));
            id += rows as i64;
            left = left.saturating_sub(rows * (size + 16));
        }
        chunks.push(v);
    }
    let biggest_row = size as i64 + 16;
    let biggest = chunks.iter().flatten().map(payload).max().unwrap_or(0);
    let all: i64 = chunks.iter().flatten().map(payload).sum();
    // (a message costs some hundred bytes whatever is in it)
    let rows: i64 = chunks.iter().flatten().map(|b| b.num_rows() as i64).sum();
    sequential = sequential && (directed || 2 * (all + 1000 * (rows + 100)) < q.budget as i64);
    let n_batches: usize = chunks.iter().map(|c| c.len()).sum();
    let mut t = TableData::new("flow", flow_schema(), chunks, Arc::clone(&ctx.beat));
    t.n_parts = if directed { 2 } else if flood { 1 } else if closing { 16 } else { r.random_range(1..4) };
    t.keep_parts = true;
    let t = t.register();
    let _u = Unreg(t.id);
    let below = Tap::new("below", &ctx.beat, true);
    let above = Tap::new("above", &ctx.beat, true);
    let leaf: Arc<dyn ExecutionPlan> = Arc::new(MonExec::whole(Arc::clone(&t), None, None));
    let inner = TapExec::new(&below.0, leaf);
    let nb: Arc<dyn ExecutionPlan> = match kind {
        Kind::Shuffle => {
            let e = vec![Arc::new(Column::new("k", 1)) as Arc<dyn PhysicalExpr>];
            let rep = RepartitionExec::try_new(inner, Partitioning::Hash(e, parts)).unwrap();
            Arc::new(NetworkShuffleExec::try_new(Arc::new(rep), producers).unwrap())
        }
        Kind::Broadcast => Arc::new(NetworkBroadcastExec::try_new(Arc::new(BroadcastExec::new(inner, 1)), producers).unwrap()),
        Kind::Coalesce => Arc::new(NetworkCoalesceExec::try_new(inner, producers, consumers).unwrap()),
    };
    let cparts = nb.output_partitioning().partition_count();
    let mut top: Arc<dyn ExecutionPlan> = TapExec::new(&above.0, nb);
    if consumers > 1 {
        top = Arc::new(NetworkCoalesceExec::try_new(top, consumers, 1).unwrap());
    }
    if top.output_partitioning().partition_count() > 1 {
        top = Arc::new(CoalescePartitionsExec::new(top));
    }
    // How each consumer partition is read. Network nodes may have more partitions per task than here.
    let mut any_stop = false;
    {
        let mut p = above.0.pace.lock().unwrap();
        let slow = r.random_range(0..3);
        let stops = !sequential && !flood && r.random_bool(0.4);
        for task in 0..consumers {
            for part in 0..cparts.max(16) {
                let mut x = Pace::default();
                if sequential {
                    x.after = (part > 0 && part < cparts).then(|| part - 1);
                } else if closing {
                    if r.random_bool(0.85) {
                        x.stop_after = Some(r.random_range(0..8));
                        any_stop = true;
                    } else {
                        x.start_us = r.random_range(0..10_000);
                    }
                } else {
                    if slow > 0 && r.random_bool(0.5) {
                        x.start_us = r.random_range(0..20_000);
                    }
                    if slow == 2 && r.random_bool(0.3) {
                        x.per_batch_us = r.random_range(0..1 + 200_000 / (n_batches as u64 + 1)).min(5_000);
                    }
                    if flood {
                        x.pause = Some((1, 300_000));
                    } else if pausing && r.random_bool(0.5) {
                        x.pause = Some((r.random_range(0..4), r.random_range(20_000..150_000)));
                    }
                    if stops && r.random_bool(0.4) {
                        x.stop_after = Some(r.random_range(0..5));
                        any_stop = true;
                    }
                }
                p.insert((task, part), x);
            }
        }
    }
    if fails {
        let mut p = below.0.pace.lock().unwrap();
        let n = r.random_range(1..3);
        for _ in 0..n {
            let x = Pace { fail_after: Some(pick(&mut r, &[0, 1, 1, 2, 5])), start_us: pick(&mut r, &[0, 0, 3000]), ..Default::default() };
            p.insert((r.random_range(0..producers), r.random_range(0..t.n_parts)), x);
        }
    }
    if kind == Kind::Coalesce && !any_stop {
        *below.0.consumer.lock().unwrap() = Some(Arc::downgrade(&above.0));
    }
    let desc = format!(
        "{kind:?} {producers} -> {consumers} parts={parts}/{cparts} size={size} total={total} batches={n_batches} budget={} stops={any_stop} pausing={pausing} sequential={sequential} closing={closing} message={max_message:?} workers={} {:?} no_shortcut={} cfg={:?}",
        w.q.budget, w.cluster.cfg.workers, w.cluster.cfg.transport, w.cluster.cfg.no_shortcut, w.q
    );
    ctx.note(desc.clone());
    let hook = |b: datafusion::execution::SessionStateBuilder| Ok(with_fixed_plan(b.with_distributed_user_codec(TapCodec), Arc::clone(&top)));
    let dc = match w.distributed_with(&hook).await {
        Ok(c) => c,
        Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
    };
    let plan = match plan_of(&dc, "select 1").await {
        Ok(p) => p,
        Err(e) => return CaseResult::viol("planning-failed", format!("{} | {desc}", err_short(&e))),
    };
    if directed {
        return match tokio::time::timeout(Duration::from_secs(8), run_plan(&w.mon, &plan, &dc)).await {
            Err(_) => CaseResult::viol("sequential-reader-of-one-connection-starves", "partitions of one connection read one after the other never end once the unread ones fill its budget"),
            Ok(Err(e)) => CaseResult::viol("directed-failed", err_short(&e)),
            Ok(Ok(g)) => {
                let n: usize = g.iter().map(|b| b.num_rows()).sum();
                if n != t.total_rows() {
                    return CaseResult::viol("directed-rows", format!("{n} of {}", t.total_rows()));
                }
                CaseResult::ok().count("sequential_reads_ended", 1)
            }
        };
    }
    if fails {
        let got = run_plan(&w.mon, &plan, &dc).await;
        drop(plan);
        return judge_failing(&w, kind, consumers, cparts, any_stop, got, &below.0, &above.0, &desc);
    }
    let got = match run_plan(&w.mon, &plan, &dc).await {
        Ok(g) => g,
        Err(e) => return CaseResult::viol("execution-failed", format!("{} | {desc}", err_short(&e))),
    };
    drop(plan);
    // Messages: all rows of a case have the same size.
    let mut messages = 0u64;
    if let (Some(m), true) = (max_message, remote_only) {
        for b in above.0.streams.lock().unwrap().iter().flat_map(|s| &s.batches) {
            messages += 1;
            if b.num_rows() > 1 && payload(b) > m as i64 {
                return CaseResult::viol("message-size", format!("a message of {} rows has {} bytes, workers were told to send at most {m} | {desc}", b.num_rows(), payload(b)));
            }
        }
    }
    // Delivery.
    let lo = below.0.streams.lock().unwrap();
    let hi = above.0.streams.lock().unwrap();
    let mut owner: HashMap<i64, i64> = HashMap::new(); // row -> delivery unit
    let mut unit_rows: BTreeMap<i64, (usize, bool)> = BTreeMap::new(); // unit -> rows, complete at the source
    for s in lo.iter() {
        for b in &s.batches {
            for (i, k) in ids(b).into_iter().zip(keys(b)) {
                let u = if kind == Kind::Shuffle { k } else { (s.task * 1000 + s.partition) as i64 };
                owner.insert(i, u);
                let e = unit_rows.entry(u).or_insert((0, true));
                e.0 += 1;
            }
        }
    }
    for s in lo.iter().filter(|s| !s.ended && kind != Kind::Shuffle) {
        unit_rows.entry((s.task * 1000 + s.partition) as i64).or_insert((0, true)).1 = false;
    }
    let mut rows_up = 0u64;
    let mut full = 0u64;
    let mut per_task: BTreeMap<usize, usize> = BTreeMap::new();
    let mut last: HashMap<i64, i64> = HashMap::new();
    for s in hi.iter() {
        let mut units: BTreeMap<i64, usize> = BTreeMap::new();
        let mut seen = std::collections::HashSet::new();
        for b in &s.batches {
            for i in ids(b) {
                let Some(u) = owner.get(&i) else {
                    return CaseResult::viol("foreign-row", format!("row {i} was not produced | {desc}"));
                };
                if !seen.insert(i) {
                    return CaseResult::viol("duplicated-row", format!("row {i} came twice | {desc}"));
                }
                if kind != Kind::Shuffle {
                    // producers emit growing ids within a chunk, and chunks one after the other
                    let key = u * 100 + s.task as i64;
                    let l = last.entry(key).or_insert(-1);
                    let (chunk, prev) = (i / 10_000_000, *l / 10_000_000);
                    if *l >= 0 && chunk == prev && i < *l {
                        return CaseResult::viol("reordered", format!("row {i} after {l} | {desc}"));
                    }
                    *l = i;
                }
                *units.entry(*u).or_default() += 1;
                rows_up += 1;
            }
        }
        *per_task.entry(s.task).or_default() += seen.len();
        if s.stopped {
            continue;
        }
        if !s.ended {
            return CaseResult::viol("unfinished-partition", format!("task {} partition {} | {desc}", s.task, s.partition));
        }
        full += 1;
        for (u, n) in units {
            let (m, complete) = unit_rows[&u];
            if (complete || kind != Kind::Shuffle) && n != m {
                return CaseResult::viol("incomplete-partition", format!("task {} partition {} ended after {n} of {m} rows of {u} | {desc}", s.task, s.partition));
            }
        }
    }
    if !any_stop {
        let total = t.total_rows();
        let want = if kind == Kind::Broadcast { total * consumers } else { total };
        let have: usize = per_task.values().sum();
        let top: usize = got.iter().map(|b| b.num_rows()).sum();
        if have != want || top != want {
            return CaseResult::viol("rows-lost", format!("{have} rows arrived and {top} came out instead of {want} | {desc}"));
        }
    }
    drop(lo);
    drop(hi);
    // Memory.
    let mut conns = 0u64;
    let mut gated = 0u64;
    let mut reserved = 0i64;
    let mut pools = w.cluster.pools();
    pools.push(Arc::clone(&w.coord_pool));
    for p in &pools {
        for (name, used, peak, step, sum) in p.holders.lock().unwrap().values() {
            let _ = used;
            if name != "WorkerConnection" {
                continue;
            }
            conns += 1;
            reserved += sum;
            let budget = w.q.budget as i64;
            // A reservation shrinks before its pool hears of it: every reader may be in between.
            if *peak > budget.max(1) - 1 + step * (1 + cparts.max(parts) as i64) {
                return CaseResult::viol("over-budget", format!("a connection held {peak} bytes with a budget of {budget} and messages of up to {step} | {desc}"));
            }
            if *sum > budget && *peak >= budget.min(*sum) {
                gated += 1;
            }
        }
    }
    // What crossed connections was accounted for: the payload cannot be compressed.
    let crossed: i64 = {
        let log = w.mon.log.lock().unwrap();
        log.exec.iter().map(|e| e.parts.iter().map(|p| p.rows as i64).sum::<i64>() * size as i64).sum()
    };
    if reserved < crossed {
        return CaseResult::viol("unaccounted-bytes", format!("{crossed} bytes crossed connections, {reserved} were accounted for | {desc}"));
    }
    let lag = below.0.max_lag.load(Ordering::SeqCst);
    let nconn = (producers * consumers).max(1) as i64;
    let partitions = (t.n_parts * producers) as i64;
    let mut floods = 0;
    if kind == Kind::Coalesce && !any_stop {
        // per connection its budget and what is in flight, per partition some batches in queues
        let bound = nconn.min(producers as i64) * (w.q.budget as i64 + IN_FLIGHT) + partitions * 8 * biggest.max(biggest_row);
        if std::env::var("DDRT_LAG").is_ok() {
            eprintln!("LAG {lag} bound {bound} budget {} biggest {biggest} conns {producers} parts {partitions} pausing {pausing} total {}", w.q.budget, t.total_rows() as i64 * biggest_row);
        }
        floods = (flood && bound < t.total_rows() as i64 * biggest_row) as u64;
        if lag > bound {
            return CaseResult::viol("producers-not-paused", format!("producers were {lag} bytes ahead of the consumers, more than {bound} | {desc}"));
        }
    }
    let log = w.mon.log.lock().unwrap();
    let mut res = CaseResult::ok()
        .count("connections", conns)
        .count("messages_of_a_set_size", messages)
        .count("connections_at_budget", gated)
        .count("partitions_read_to_end", full)
        .count("partitions_abandoned", above.0.streams.lock().unwrap().iter().filter(|s| s.stopped).count() as u64)
        .count("rows_delivered", rows_up)
        .count("bytes_accounted", reserved as u64)
        .count("pausing_cases", pausing as u64)
        .count("closing_cases", closing as u64)
        .count("floods_held_back", floods);
    if conns > 0 && rows_up > 0 {
        res = res.seen(mix(hash_str(&desc), shape_fp(&log))).sampled(json!({"case": desc.chars().take(200).collect::<String>(), "connections": conns, "lag": lag}));
    }
    res
}

/// A producing partition that failed must not look like one that ended.
#[allow(clippy::too_many_arguments)]
fn judge_failing(w: &World, kind: Kind, consumers: usize, cparts: usize, any_stop: bool, got: datafusion::common::Result<Vec<RecordBatch>>, below: &Tap, above: &Tap, desc: &str) -> CaseResult {
    let failed: Vec<(usize, usize)> = below.streams.lock().unwrap().iter().filter(|s| s.errored).map(|s| (s.task, s.partition)).collect();
    let hi = above.streams.lock().unwrap();
    let ends: Vec<usize> = hi.iter().filter(|s| s.ended && !s.stopped && !s.errored).map(|s| s.partition).collect();
    let clean = ends.len();
    // Which partitions a failed one ends up in: all of them, the same one of every consumer, one.
    let taken = match kind {
        Kind::Shuffle => clean > 0,
        Kind::Broadcast => failed.iter().any(|f| ends.contains(&f.1)),
        Kind::Coalesce => clean + failed.len() > consumers * cparts,
    };
    if !failed.is_empty() && taken {
        return CaseResult::viol("failure-taken-for-an-end", format!("{clean} of {consumers} * {cparts} partitions ended as if all was well, although the producing partitions {failed:?} failed | {desc}"));
    }
    let mut res = CaseResult::ok().count("boundary_failures", failed.len() as u64).count("boundary_ends_compared", clean as u64);
    match got {
        Ok(_) if !failed.is_empty() && !any_stop => return CaseResult::viol("failure-lost", format!("all partitions were read, {failed:?} failed, and the query did not | {desc}")),
        Ok(_) => {}
        Err(e) if failed.is_empty() => return CaseResult::viol("execution-failed", format!("{} | {desc}", err_short(&e))),
        Err(e) if !e.to_string().contains("injected by below") => return CaseResult::viol("other-error", format!("instead of the injected failure: {} | {desc}", err_short(&e))),
        Err(_) => res = res.count("errors_reported", 1),
    }
    if !failed.is_empty() {
        let log = w.mon.log.lock().unwrap();
        res = res.count("faults_hit", 1).seen(mix(hash_str(desc), shape_fp(&log))).sampled(json!({"case": desc.chars().take(200).collect::<String>(), "failed": format!("{failed:?}")}));
    }
    res
}

pub fn c11_flow(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(flow_case(ctx, r, true))
}
pub fn c15(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(flow_case(ctx, r, false))
}
