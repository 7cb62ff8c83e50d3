//! C06 and C16: hand-made plans with user-placed boundaries over data of every Arrow type; taps on
//! both sides of every boundary record what was produced and what arrived.
use super::query::random_cluster;
use crate::cluster::find_distributed;
use crate::arrays::*;
use crate::core::*;
use crate::leaf::*;
use crate::mon::*;
use crate::qcfg::*;
use crate::tap::*;
use crate::world::*;
use datafusion::arrow::array::*;
use datafusion::arrow::datatypes::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::physical_expr::expressions::Column;
use datafusion::physical_expr::{Partitioning, PhysicalExpr};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::projection::{ProjectionExec, ProjectionExpr};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::union::UnionExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use datafusion_distributed::*;
use futures::future::BoxFuture;
use rand::Rng;
use rand::rngs::StdRng;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Shuffle { cols: Vec<usize>, parts: usize },
    Coalesce,
    Broadcast,
}
pub struct Edge {
    pub kind: Kind,
    pub producers: usize,
    pub consumers: usize,
    pub below: TapGuard,
    pub above: TapGuard,
}

struct Build<'a> {
    r: &'a mut StdRng,
    edges: Vec<Edge>,
    tables: Vec<Arc<TableData>>,
    max_tasks: usize,
    schema: SchemaRef,
    exotic: bool,
    hashable: Vec<usize>,
    ctx: Arc<CaseCtx>,
    rows: usize,
    /// a head the boundary itself does not require (a repartition below a coalescing boundary)
    odd_heads: bool,
    /// batches with rows and without columns
    bare: bool,
    ipc_refused: u64,
    compression: u8,
    desc: String,
}

impl Build<'_> {
    fn leaf(&mut self) -> Arc<dyn ExecutionPlan> {
        let n = self.tables.len();
        let chunks = self.r.random_range(1..7);
        let mut base = (n as i64 + 1) * 100_000;
        let mut out = vec![];
        for _ in 0..chunks {
            let mut c = vec![];
            for _ in 0..self.r.random_range(0..4) {
                let k = pick(self.r, &[0usize, 1, 2, 5, 9, 17, self.rows]);
                let b = if self.exotic {
                    let b = exotic_batch(self.r, &self.schema, base, k);
                    if !flight_ok(&b, self.compression) {
                        self.ipc_refused += 1;
                        continue;
                    }
                    b
                } else {
                    crate::data::gen_batch(self.r, base, k, 12, false)
                };
                base += k as i64;
                c.push(b);
            }
            out.push(c);
        }
        let mut t = TableData::new(&format!("b{n}"), Arc::clone(&self.schema), out, Arc::clone(&self.ctx.beat));
        t.n_parts = self.r.random_range(1..5);
        t.keep_parts = self.r.random_bool(0.6);
        t.yields = self.r.random_bool(0.3);
        let t = t.register();
        self.tables.push(Arc::clone(&t));
        self.desc += &format!("leaf[{chunks} chunks,{} parts]", t.n_parts);
        let leaf = Arc::new(MonExec::whole(t, None, None));
        if self.bare {
            return Arc::new(ProjectionExec::try_new(Vec::<ProjectionExpr>::new(), leaf).unwrap());
        }
        leaf
    }

    /// Plan of a stage of `tasks` tasks with boundaries nested `depth` deep.
    fn stage(&mut self, tasks: usize, depth: usize) -> Arc<dyn ExecutionPlan> {
        if depth == 0 {
            return self.leaf();
        }
        if !self.bare && self.r.random_bool(0.2) {
            // two sides hashed on the same keys, as for a co-partitioned join
            let kind = self.shuffle_kind();
            self.desc += "co(";
            let a = self.edge(tasks, depth, Some(kind.clone()));
            self.desc += " , ";
            let b = self.edge(tasks, depth, Some(kind));
            self.desc += ")";
            return UnionExec::try_new(vec![a, b]).unwrap();
        }
        self.edge(tasks, depth, None)
    }

    fn shuffle_kind(&mut self) -> Kind {
        let n = self.r.random_range(1..=2.min(self.hashable.len()));
        let mut cols = vec![];
        for _ in 0..n {
            let c = pick(self.r, &self.hashable);
            if !cols.contains(&c) {
                cols.push(c);
            }
        }
        Kind::Shuffle { cols, parts: self.r.random_range(1..7) }
    }

    fn edge(&mut self, tasks: usize, depth: usize, kind: Option<Kind>) -> Arc<dyn ExecutionPlan> {
        let producers = self.r.random_range(1..=self.max_tasks);
        let kind = kind.unwrap_or_else(|| match self.r.random_range(if self.bare { 3..6 } else { 0..6 }) {
            0..=2 => self.shuffle_kind(),
            3 | 4 => Kind::Coalesce,
            _ => Kind::Broadcast,
        });
        self.desc += &format!("{tasks}<-{producers} {kind:?} ");
        let inner = self.stage(producers, depth - 1);
        let below = Tap::new(&format!("below{}", self.edges.len()), &self.ctx.beat, true);
        let above = Tap::new(&format!("above{}", self.edges.len()), &self.ctx.beat, true);
        let inner = TapExec::new(&below.0, inner);
        let nb: Arc<dyn ExecutionPlan> = match &kind {
            Kind::Shuffle { cols, parts } => {
                let e = cols.iter().map(|c| Arc::new(Column::new(self.schema.field(*c).name(), *c)) as Arc<dyn PhysicalExpr>).collect();
                let rep = RepartitionExec::try_new(inner, Partitioning::Hash(e, *parts)).unwrap();
                Arc::new(NetworkShuffleExec::try_new(Arc::new(rep), producers).unwrap())
            }
            Kind::Broadcast => Arc::new(NetworkBroadcastExec::try_new(Arc::new(BroadcastExec::new(inner, 1)), producers).unwrap()),
            Kind::Coalesce => {
                let head: Arc<dyn ExecutionPlan> = if self.odd_heads && self.r.random_bool(0.3) {
                    self.desc += "(rr head) ";
                    let n = self.r.random_range(1..5);
                    Arc::new(RepartitionExec::try_new(inner, Partitioning::RoundRobinBatch(n)).unwrap())
                } else {
                    inner
                };
                Arc::new(NetworkCoalesceExec::try_new(head, producers, tasks).unwrap())
            }
        };
        let out = TapExec::new(&above.0, nb);
        self.edges.push(Edge { kind, producers, consumers: tasks, below, above });
        out
    }
}

type At = (usize, usize);
/// rows by (task, partition), in order, as (batch, row) references
fn gather(t: &Tap) -> Result<BTreeMap<At, Vec<RecordBatch>>, String> {
    let mut m: BTreeMap<At, Vec<RecordBatch>> = BTreeMap::new();
    let v = t.streams.lock().unwrap();
    for s in v.iter() {
        if !s.ended {
            return Err(format!("{}: task {} partition {} was not read to its end", t.label, s.task, s.partition));
        }
        if m.insert((s.task, s.partition), s.batches.clone()).is_some() {
            return Err(format!("{}: task {} partition {} was executed twice", t.label, s.task, s.partition));
        }
    }
    Ok(m)
}
fn ids(bs: &[RecordBatch]) -> Vec<i64> {
    bs.iter().flat_map(|b| b.column(0).as_primitive::<Int64Type>().values().to_vec()).collect()
}
fn bag(it: impl Iterator<Item = i64>) -> BTreeMap<i64, i64> {
    let mut m = BTreeMap::new();
    for i in it {
        *m.entry(i).or_default() += 1;
    }
    m
}
fn bag_diff(a: &BTreeMap<i64, i64>, b: &BTreeMap<i64, i64>) -> Option<String> {
    if a == b {
        return None;
    }
    let lost: Vec<_> = a.iter().filter(|(k, n)| b.get(k).copied().unwrap_or(0) < **n).map(|x| *x.0).take(5).collect();
    let extra: Vec<_> = b.iter().filter(|(k, n)| a.get(k).copied().unwrap_or(0) < **n).map(|x| *x.0).take(5).collect();
    Some(format!("produced {} rows, arrived {}; lost ids {lost:?}.., duplicated or foreign ids {extra:?}..", a.values().sum::<i64>(), b.values().sum::<i64>()))
}

struct Counts {
    edges: u64,
    rows: u64,
    keys: u64,
    cells: u64,
    uneven: u64,
    bare: u64,
}

fn key_of(b: &RecordBatch, row: usize, cols: &[usize]) -> String {
    let o = datafusion::arrow::util::display::FormatOptions::default().with_null("∅");
    cols.iter().map(|c| datafusion::arrow::util::display::ArrayFormatter::try_new(b.column(*c), &o).map(|f| f.value(row).to_string()).unwrap_or_default() + "|").collect()
}

/// What each boundary must do with rows. Returns (signature, detail).
fn check_rows(e: &Edge, n: usize, places: &mut HashMap<(String, String), (At, usize)>, c: &mut Counts) -> Option<(String, String)> {
    let what = format!("edge {n} {:?} {} producers -> {} consumers", e.kind, e.producers, e.consumers);
    let name = match e.kind {
        Kind::Shuffle { .. } => "shuffle",
        Kind::Coalesce => "coalesce",
        Kind::Broadcast => "broadcast",
    };
    let (lo, hi) = match (gather(&e.below.0), gather(&e.above.0)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(x), _) | (_, Err(x)) => return Some((format!("{name}-streams"), format!("{what}: {x}"))),
    };
    c.edges += 1;
    if e.producers % e.consumers.max(1) != 0 {
        c.uneven += 1;
    }
    let all_lo = bag(lo.values().flat_map(|b| ids(b)));
    c.rows += all_lo.values().sum::<i64>() as u64;
    match &e.kind {
        Kind::Broadcast => {
            for t in 0..e.consumers {
                let got = bag(hi.iter().filter(|x| x.0.0 == t).flat_map(|x| ids(x.1)));
                if let Some(d) = bag_diff(&all_lo, &got) {
                    return Some((format!("{name}-rows"), format!("{what}: consumer task {t}: {d}")));
                }
            }
        }
        Kind::Coalesce => {
            if let Some(d) = bag_diff(&all_lo, &bag(hi.values().flat_map(|b| ids(b)))) {
                return Some((format!("{name}-rows"), format!("{what}: {d}")));
            }
            // A coalescing boundary hands whole producer partitions over: none is split or merged.
            let mut seqs: Vec<Vec<i64>> = lo.values().map(|b| ids(b)).filter(|v| !v.is_empty()).collect();
            let mut got: Vec<Vec<i64>> = hi.values().map(|b| ids(b)).filter(|v| !v.is_empty()).collect();
            seqs.sort();
            got.sort();
            if seqs != got && !e.below.0.label.contains("odd") {
                return Some((format!("{name}-partitions"), format!("{what}: the row sequences of the consumer partitions are not those of the producer partitions: {got:?} vs {seqs:?}").chars().take(1500).collect()).into());
            }
            // each consumer task reads a contiguous group of producer tasks
            let mut owner: BTreeMap<usize, usize> = BTreeMap::new();
            for ((pt, _), b) in &lo {
                for i in ids(b) {
                    if all_lo[&i] > 1 {
                        continue;
                    }
                    if let Some(((ct, _), _)) = hi.iter().find(|x| ids(x.1).contains(&i)) {
                        if *owner.entry(*pt).or_insert(*ct) != *ct {
                            return Some((format!("{name}-split"), format!("{what}: producer task {pt} was split over consumer tasks")));
                        }
                    }
                }
            }
            let v: Vec<usize> = owner.values().copied().collect();
            if v.windows(2).any(|w| w[0] > w[1]) {
                return Some((format!("{name}-order"), format!("{what}: producer tasks are not read by consumer tasks in contiguous groups: {owner:?}")));
            }
        }
        Kind::Shuffle { cols, parts } => {
            if let Some(d) = bag_diff(&all_lo, &bag(hi.values().flat_map(|b| ids(b)))) {
                return Some((format!("{name}-rows"), format!("{what}: {d}")));
            }
            let group = format!("{cols:?}/{parts}/{}", e.consumers);
            for (at, bs) in &hi {
                for b in bs {
                    for row in 0..b.num_rows() {
                        let k = key_of(b, row, cols);
                        c.keys += 1;
                        let (p, m) = places.entry((group.clone(), k.clone())).or_insert((*at, n));
                        if *p != *at {
                            return Some((
                                if *m == n { format!("{name}-key-split") } else { "co-partition".into() },
                                format!("{what}: key {k} arrived at (task,partition) {at:?} and, through edge {m}, at {p:?}"),
                            ));
                        }
                    }
                }
            }
        }
    }
    None
}

/// Rows without columns: all there is to them is how many there are.
fn check_bare(e: &Edge, n: usize, c: &mut Counts) -> Option<(String, String)> {
    let what = format!("edge {n} {:?} {} producers -> {} consumers, no columns", e.kind, e.producers, e.consumers);
    let (lo, hi) = match (gather(&e.below.0), gather(&e.above.0)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(x), _) | (_, Err(x)) => return Some(("bare-streams".into(), format!("{what}: {x}"))),
    };
    c.edges += 1;
    let total = |m: &BTreeMap<At, Vec<RecordBatch>>| m.values().flatten().map(|b| b.num_rows()).sum::<usize>();
    let want = total(&lo) * if e.kind == Kind::Broadcast { e.consumers } else { 1 };
    c.rows += want as u64;
    c.bare += want as u64;
    if total(&hi) != want {
        return Some(("bare-rows".into(), format!("{what}: {} rows arrived instead of {want}", total(&hi))));
    }
    None
}

/// Every value that arrived equals, bit for bit, the one produced.
fn check_values(e: &Edge, n: usize, c: &mut Counts) -> Option<(String, String)> {
    let what = format!("edge {n} {:?} {} -> {}", e.kind, e.producers, e.consumers);
    let mut src: HashMap<i64, (RecordBatch, usize)> = HashMap::new();
    let mut schema = None;
    for s in e.below.0.streams.lock().unwrap().iter() {
        for b in &s.batches {
            schema.get_or_insert_with(|| b.schema());
            for (row, id) in ids(std::slice::from_ref(b)).into_iter().enumerate() {
                src.insert(id, (b.clone(), row));
            }
        }
    }
    let Some(schema) = schema else { return None };
    for s in e.above.0.streams.lock().unwrap().iter() {
        for b in &s.batches {
            if b.schema() != schema {
                return Some(("schema".into(), format!("{what}: produced schema {schema:?} arrived as {:?}", b.schema())));
            }
            for (row, id) in ids(std::slice::from_ref(b)).into_iter().enumerate() {
                let Some((o, orow)) = src.get(&id) else {
                    return Some(("foreign-row".into(), format!("{what}: row {id} was not produced")));
                };
                for col in 1..b.num_columns() {
                    c.cells += 1;
                    let x = o.column(col).slice(*orow, 1);
                    let y = b.column(col).slice(row, 1);
                    if !same_cell(&x, &y) {
                        return Some((
                            format!("value:{}", type_name(schema.field(col).data_type())),
                            format!("{what}: row {id} column {} ({}): produced {:?} arrived {:?}", schema.field(col).name(), schema.field(col).data_type(), x, y),
                        ));
                    }
                }
            }
        }
    }
    None
}

async fn boundary_case(ctx: Arc<CaseCtx>, mut r: StdRng, exotic: bool) -> CaseResult {
    let mut ccfg = random_cluster(&mut r);
    let mut q = QCfg::base();
    q.compression = r.random_range(0..3);
    q.shuffle_batch = pick(&mut r, &[0, 0, 1, 2, 5, 64]);
    q.batch_size = pick(&mut r, &[8192, 8192, 3, 1]);
    q.metrics = r.random_bool(0.5);
    ccfg.hook = Some(Arc::new(|b, _, _| Ok(b.with_distributed_user_codec(TapCodec))));
    let bare = exotic && r.random_bool(0.12);
    let w = World::new(&ctx, &mut r, vec![], ccfg, q).await;
    let schema = if exotic { exotic_schema(&mut r) } else { crate::data::schema() };
    let hashable: Vec<usize> = (0..schema.fields().len()).filter(|i| !exotic || hash_ok(schema.field(*i).data_type())).collect();
    let shuffle_ok = !exotic || schema.fields().iter().all(|f| take_ok(f.data_type()));
    let depth = r.random_range(1..4);
    let rows = if exotic { 30 } else { pick(&mut r, &[30, 30, 400]) };
    let max_tasks = pick(&mut r, &[1, 2, 3, 4, 6]);
    let mut b = Build {
        r: &mut r,
        edges: vec![],
        tables: vec![],
        max_tasks,
        schema: Arc::clone(&schema),
        exotic,
        hashable: if shuffle_ok { hashable } else { vec![0] },
        ctx: Arc::clone(&ctx),
        rows,
        odd_heads: false,
        bare,
        ipc_refused: 0,
        compression: w.q.compression,
        desc: String::new(),
    };
    let top = b.stage(1, depth);
    let top: Arc<dyn ExecutionPlan> = if top.output_partitioning().partition_count() > 1 { Arc::new(CoalescePartitionsExec::new(top)) } else { top };
    let (edges, tables, desc, refused) = (b.edges, b.tables, b.desc, b.ipc_refused);
    struct Unreg(Vec<u64>);
    impl Drop for Unreg {
        fn drop(&mut self) {
            for t in &self.0 {
                unregister(*t)
            }
        }
    }
    let _u = Unreg(tables.iter().map(|t| t.id).collect());
    let desc = format!("{desc} | workers={} {:?} no_shortcut={} cfg={:?} schema={}", w.cluster.cfg.workers, w.cluster.cfg.transport, w.cluster.cfg.no_shortcut, w.q,
        schema.fields().iter().map(|f| f.data_type().to_string()).collect::<Vec<_>>().join(","));
    ctx.note(desc.clone());
    if r.random_bool(0.3) {
        w.mon.faults.lock().unwrap().delay = Some((30, pick(&mut r, &[1, 5])));
    }
    let hook = |b: datafusion::execution::SessionStateBuilder| Ok(with_fixed_plan(b.with_distributed_user_codec(TapCodec), Arc::clone(&top)));
    let dc = match w.distributed_with(&hook).await {
        Ok(c) => c,
        Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
    };
    let plan = match plan_of(&dc, "select 1").await {
        Ok(p) => p,
        Err(e) => return CaseResult::viol("planning-failed", format!("{} | {desc}", err_short(&e))),
    };
    if ctx.verbose {
        eprintln!("{}", plan_str(&plan));
    }
    match run_plan(&w.mon, &plan, &dc).await {
        Ok(_) => {}
        Err(e) => {
            if err_short(&e).contains("not supported") || err_short(&e).contains("Not yet implemented") || err_short(&e).contains("DictionaryKeyOverflowError") {
                return CaseResult::inconclusive(format!("unsupported by Arrow: {}", err_short(&e).chars().take(80).collect::<String>()));
            }
            return CaseResult::viol("execution-failed", format!("{} | {desc}", err_short(&e)));
        }
    }
    let mut c = Counts { edges: 0, rows: 0, keys: 0, cells: 0, uneven: 0, bare: 0 };
    let mut places = HashMap::new();
    for (n, e) in edges.iter().enumerate() {
        let v = if bare {
            check_bare(e, n, &mut c)
        } else {
            check_rows(e, n, &mut places, &mut c).or_else(|| if exotic { check_values(e, n, &mut c) } else { None })
        };
        if let Some((sig, d)) = v {
            return CaseResult::viol(sig, format!("{d} | {desc}"));
        }
    }
    let log = w.mon.log.lock().unwrap();
    let tasks = log.coord.len() as u64;
    let mut res = CaseResult::ok()
        .count("plans_run", 1)
        .count("boundaries_checked", c.edges)
        .count("uneven_boundaries", c.uneven)
        .count("rows_crossing", c.rows)
        .count("keys_placed", c.keys)
        .count("cells_compared", c.cells)
        .count("rows_without_columns", c.bare)
        .count("batches_arrow_ipc_cannot_carry", refused)
        .count("tasks_dispatched", tasks);
    if exotic {
        for f in schema.fields() {
            res = res.count(&format!("type_{}", type_name(f.data_type())), 1);
        }
    }
    if tasks > 1 && c.rows > 0 {
        res = res
            .seen(mix(hash_str(&desc), shape_fp(&log)))
            .sampled(json!({"plan": desc.chars().take(300).collect::<String>(), "tasks": tasks, "rows": c.rows}));
    }
    res
}

pub fn c06(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(boundary_case(ctx, r, false))
}
pub fn c16(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(boundary_case(ctx, r, true))
}

/// C03: a limit above a user-placed coalescing boundary, carried by whichever node a user (or one of
/// DataFusion's own rules) puts there. Rows are computed here from the table itself.
pub async fn placed_limits(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    use datafusion::physical_expr::expressions::{BinaryExpr, Literal};
    use datafusion::physical_expr::{LexOrdering, PhysicalSortExpr};
    use datafusion::physical_plan::filter::FilterExecBuilder;
    use datafusion::physical_plan::limit::{GlobalLimitExec, LocalLimitExec};
    use datafusion::physical_plan::sorts::partial_sort::PartialSortExec;
    use datafusion::physical_plan::sorts::sort::SortExec;
    use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
    use datafusion::logical_expr::Operator;
    use datafusion::common::ScalarValue;
    let mut ccfg = random_cluster(&mut r);
    let mut q = QCfg::base();
    q.compression = r.random_range(0..3);
    q.batch_size = pick(&mut r, &[8192, 8192, 3, 1]);
    ccfg.hook = Some(Arc::new(|b, _, _| Ok(b.with_distributed_user_codec(TapCodec))));
    let w = World::new(&ctx, &mut r, vec![], ccfg, q).await;
    let schema = crate::data::schema();
    let mut base = 0i64;
    let chunks: Vec<Vec<RecordBatch>> = (0..r.random_range(1..8))
        .map(|_| {
            (0..r.random_range(0..4))
                .map(|_| {
                    let n = pick(&mut r, &[1usize, 2, 5, 9, 40]);
                    base += n as i64;
                    crate::data::gen_batch(&mut r, base - n as i64, n, 12, false)
                })
                .collect()
        })
        .collect();
    // (k, id) of every row
    let mut rows: Vec<(Option<i32>, i64)> = vec![];
    for b in chunks.iter().flatten() {
        let (id, k) = (b.column(0).as_primitive::<Int64Type>(), b.column(1).as_primitive::<Int32Type>());
        rows.extend((0..b.num_rows()).map(|i| (k.is_valid(i).then(|| k.value(i)), id.value(i))));
    }
    let mut t = TableData::new("lim", Arc::clone(&schema), chunks, Arc::clone(&ctx.beat));
    t.n_parts = r.random_range(1..5);
    t.keep_parts = r.random_bool(0.6);
    t.yields = r.random_bool(0.3);
    let t = t.register();
    struct Unreg(u64);
    impl Drop for Unreg {
        fn drop(&mut self) {
            unregister(self.0)
        }
    }
    let _u = Unreg(t.id);
    let asc = r.random_bool(0.5);
    let opt = arrow_schema_options(!asc, r.random_bool(0.5));
    let nulls_first = opt.nulls_first;
    let by_id = datafusion::arrow::compute::SortOptions { descending: r.random_bool(0.5), nulls_first: false };
    let key = |n: &str, i: usize, o| PhysicalSortExpr { expr: Arc::new(Column::new(n, i)), options: o };
    let order = LexOrdering::new(vec![key("k", 1, opt), key("id", 0, by_id)]).unwrap();
    let first = LexOrdering::new(vec![key("k", 1, opt)]).unwrap();
    let n = pick(&mut r, &[0usize, 1, 2, 3, 7, 20, 60]);
    let skip = if r.random_bool(0.4) { r.random_range(0..12) } else { 0 };
    let (producers, mid) = (r.random_range(1..6), r.random_range(1..4));
    let carrier = pick(&mut r, &["topk", "topk", "partial-sort", "filter", "filter", "collect", "merge", "local", "global"]);
    // what is done before the limit, per partition of the producing tasks
    let mut plan: Arc<dyn ExecutionPlan> = Arc::new(MonExec::whole(Arc::clone(&t), None, None));
    let below = Tap::new("below", &ctx.beat, true);
    match carrier {
        "merge" => plan = Arc::new(SortExec::new(order.clone(), plan).with_preserve_partitioning(true)),
        "partial-sort" => plan = Arc::new(SortExec::new(first.clone(), plan).with_preserve_partitioning(true)),
        _ => {}
    }
    if r.random_bool(0.4) && !matches!(carrier, "merge" | "partial-sort") {
        plan = TapExec::new(&below.0, plan);
    }
    let bound = r.random_range(0..=base.max(1));
    let nest = r.random_bool(0.3);
    if nest {
        // the limited boundary is not the first one
        plan = Arc::new(NetworkCoalesceExec::try_new(plan, producers, mid).unwrap());
        plan = Arc::new(NetworkCoalesceExec::try_new(plan, mid, 1).unwrap());
    } else {
        plan = Arc::new(NetworkCoalesceExec::try_new(plan, producers, 1).unwrap());
    }
    // (DataFusion's TopK cannot keep no rows at all)
    let n = if matches!(carrier, "topk" | "partial-sort") { n.max(1) } else { n };
    let cap = n + skip;
    plan = match carrier {
        "topk" => Arc::new(SortExec::new(order.clone(), plan).with_preserve_partitioning(true).with_fetch(Some(cap))),
        "partial-sort" => Arc::new(PartialSortExec::new(order.clone(), plan, 1).with_preserve_partitioning(true).with_fetch(Some(cap))),
        "filter" => {
            let e = BinaryExpr::new(Arc::new(Column::new("id", 0)), Operator::GtEq, Arc::new(Literal::new(ScalarValue::Int64(Some(bound)))));
            Arc::new(FilterExecBuilder::new(Arc::new(e), plan).with_fetch(Some(cap)).build().unwrap())
        }
        "local" => Arc::new(LocalLimitExec::new(plan, cap)),
        _ => plan,
    };
    let ordered = matches!(carrier, "topk" | "partial-sort" | "merge");
    let many = plan.output_partitioning().partition_count() > 1;
    let (plan, limited): (Arc<dyn ExecutionPlan>, bool) = if ordered {
        (Arc::new(SortPreservingMergeExec::new(order.clone(), plan).with_fetch(Some(cap))), true)
    } else if many || carrier == "collect" {
        let c = CoalescePartitionsExec::new(plan);
        if carrier == "global" { (Arc::new(c), false) } else { (Arc::new(c.with_fetch(Some(cap))), true) }
    } else {
        (plan, false)
    };
    let plan: Arc<dyn ExecutionPlan> = if skip > 0 || !limited { Arc::new(GlobalLimitExec::new(plan, skip, Some(n))) } else { plan };
    let desc = format!("{carrier} fetch={n} skip={skip} bound={bound} producers={producers} nested={nest} rows={} n_parts={} keep={} workers={} cfg={:?}", rows.len(), t.n_parts, t.keep_parts, w.cluster.cfg.workers, w.q);
    ctx.note(desc.clone());
    let hook = |b: datafusion::execution::SessionStateBuilder| Ok(with_fixed_plan(b.with_distributed_user_codec(TapCodec), Arc::clone(&plan)));
    let run = async {
        let dc = w.distributed_with(&hook).await?;
        let p = plan_of(&dc, "select 1").await?;
        if ctx.verbose {
            eprintln!("{}", plan_str(&p));
        }
        Ok::<_, datafusion::common::DataFusionError>((find_distributed(&p), run_plan(&w.mon, &p, &dc).await?, p))
    };
    let (dist, got, p) = match run.await {
        Ok(x) => x,
        Err(e) => return CaseResult::viol(format!("execution-failed: placed limit in {carrier}"), format!("{} | {desc}", err_short(&e))),
    };
    let have: Vec<i64> = got.iter().flat_map(|b| b.column(0).as_primitive::<Int64Type>().values().to_vec()).collect();
    rows.sort_by(|a, b| {
        let k = match (a.0, b.0) {
            (None, None) => std::cmp::Ordering::Equal,
            (None, _) => if nulls_first { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater },
            (_, None) => if nulls_first { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less },
            (Some(x), Some(y)) => if asc { x.cmp(&y) } else { y.cmp(&x) },
        };
        k.then(if by_id.descending { b.1.cmp(&a.1) } else { a.1.cmp(&b.1) })
    });
    if carrier == "filter" {
        rows.retain(|x| x.1 >= bound);
    }
    let want: Vec<i64> = rows.iter().skip(skip).take(n).map(|x| x.1).collect();
    let all: std::collections::HashSet<i64> = rows.iter().map(|x| x.1).collect();
    let uniq: std::collections::HashSet<i64> = have.iter().copied().collect();
    let bad = if ordered && have != want {
        Some(format!("rows {have:?} instead of {want:?}"))
    } else if have.len() != want.len() {
        Some(format!("{} rows instead of {}", have.len(), want.len()))
    } else if uniq.len() != have.len() || !uniq.is_subset(&all) {
        Some(format!("rows that should not be there: {have:?}"))
    } else {
        None
    };
    if let Some(d) = bad {
        return CaseResult::viol(format!("placed-limit: {carrier}"), format!("{d} | {desc} | plan:\n{}", plan_str(&p)).chars().take(4000).collect::<String>());
    }
    let res = CaseResult::ok().count("placed_limits_checked", 1).count("queries_distributed", dist as u64);
    if dist { res.seen(mix(hash_str(&desc), shape_fp(&w.mon.log.lock().unwrap()))) } else { res }
}
fn arrow_schema_options(descending: bool, nulls_first: bool) -> datafusion::arrow::compute::SortOptions {
    datafusion::arrow::compute::SortOptions { descending, nulls_first }
}
