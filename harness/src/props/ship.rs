//! C17: workers execute exactly the plan the coordinator built.
use super::query::{Prepared, random_cluster};
use super::trace::*;
use crate::cluster::*;
use crate::core::*;
use crate::data::*;
use crate::leaf::*;
use crate::mon::*;
use crate::oracle::*;
use crate::qcfg::*;
use crate::world::*;
use datafusion::arrow::array::*;
use datafusion::arrow::datatypes::*;
use datafusion::common::tree_node::{Transformed, TreeNode};
use datafusion::common::{DataFusionError, Result, ScalarValue, internal_err, plan_err};
use datafusion::config::ConfigOptions;
use datafusion::datasource::physical_plan::FileScanConfig;
use datafusion::datasource::source::DataSourceExec;
use datafusion::execution::{SendableRecordBatchStream, SessionStateBuilder, TaskContext};
use datafusion::logical_expr::{Accumulator, AggregateUDF, ColumnarValue, ScalarUDF, Volatility, create_udaf, create_udf};
use datafusion::physical_optimizer::PhysicalOptimizerRule;
use datafusion::physical_expr::expressions::{CastExpr, Column};
use datafusion::physical_plan::projection::ProjectionExec;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties, displayable};
use datafusion::prelude::SessionConfig;
use datafusion_distributed::*;
use datafusion_proto::bytes::physical_plan_to_bytes_with_extension_codec;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::future::BoxFuture;
use rand::Rng;
use rand::rngs::StdRng;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

// ---- a user-defined node with codecs that overlap ----

/// What a node says about itself, in words that must survive the journey.
#[derive(Debug, Clone)]
pub struct TagExec {
    input: Arc<dyn ExecutionPlan>,
    tag: String,
    n: u64,
    /// the codec that rebuilt it
    via: Option<String>,
}
impl DisplayAs for TagExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "TagExec: tag={:?} n={}", self.tag, self.n)
    }
}
impl ExecutionPlan for TagExec {
    fn name(&self) -> &str {
        "TagExec"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        self.input.properties()
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![&self.input]
    }
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(TagExec { input: Arc::clone(&c[0]), ..(*self).clone() }))
    }
    fn maintains_input_order(&self) -> Vec<bool> {
        vec![true]
    }
    fn apply_expressions(
        &self,
        _f: &mut dyn FnMut(&Arc<dyn datafusion::physical_expr::PhysicalExpr>) -> Result<datafusion::common::tree_node::TreeNodeRecursion>,
    ) -> Result<datafusion::common::tree_node::TreeNodeRecursion> {
        Ok(datafusion::common::tree_node::TreeNodeRecursion::Continue)
    }
    fn execute(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        self.input.execute(p, c)
    }
}

#[derive(Debug, Clone)]
struct TagCodec {
    name: String,
    /// takes tags with one of these first letters
    takes: Vec<char>,
    /// does not understand what it wrote itself
    broken: bool,
}
impl PhysicalExtensionCodec for TagCodec {
    fn try_decode(&self, buf: &[u8], inputs: &[Arc<dyn ExecutionPlan>], _: &TaskContext, _: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> {
        let v: serde_json::Value = serde_json::from_slice(buf).map_err(|e| DataFusionError::External(Box::new(e)))?;
        if self.broken {
            return plan_err!("codec {} cannot read this", self.name);
        }
        if v["by"] != json!(self.name) {
            return plan_err!("codec {} was given bytes of {}", self.name, v["by"]);
        }
        Ok(Arc::new(TagExec { input: Arc::clone(&inputs[0]), tag: v["tag"].as_str().unwrap_or("?").into(), n: v["n"].as_u64().unwrap_or(0), via: Some(self.name.clone()) }))
    }
    fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, _: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        match node.downcast_ref::<TagExec>() {
            Some(t) if self.takes.contains(&t.tag.chars().next().unwrap_or(' ')) => {
                buf.extend_from_slice(json!({"by": self.name, "tag": t.tag, "n": t.n}).to_string().as_bytes());
                Ok(())
            }
            _ => internal_err!("codec {}: not for me: {}", self.name, node.name()),
        }
    }
}

#[derive(Debug)]
struct TagLeaves(Vec<String>, AtomicU64);
impl PhysicalOptimizerRule for TagLeaves {
    fn optimize(&self, plan: Arc<dyn ExecutionPlan>, _: &ConfigOptions) -> Result<Arc<dyn ExecutionPlan>> {
        plan.transform_up(|p| {
            if p.children().is_empty() && !self.0.is_empty() {
                let i = self.1.fetch_add(1, Ordering::Relaxed);
                let tag = self.0[i as usize % self.0.len()].clone();
                return Ok(Transformed::yes(Arc::new(TagExec { input: p, tag, n: i * 1_000_003 + (1 << 40), via: None }) as _));
            }
            Ok(Transformed::no(p))
        })
        .map(|t| t.data)
    }
    fn name(&self) -> &str {
        "tag_leaves"
    }
    fn schema_check(&self) -> bool {
        true
    }
}

// ---- user functions ----

fn affine() -> ScalarUDF {
    create_udf(
        "affine",
        vec![DataType::Int64],
        DataType::Int64,
        Volatility::Immutable,
        Arc::new(|a: &[ColumnarValue]| match &a[0] {
            ColumnarValue::Array(x) => {
                let x = x.as_primitive::<Int64Type>();
                Ok(ColumnarValue::Array(Arc::new(x.iter().map(|v| v.map(|v| v.wrapping_mul(3).wrapping_add(7))).collect::<Int64Array>())))
            }
            ColumnarValue::Scalar(ScalarValue::Int64(v)) => Ok(ColumnarValue::Scalar(ScalarValue::Int64(v.map(|v| v * 3 + 7)))),
            other => internal_err!("affine of {other:?}"),
        }),
    )
}
#[derive(Debug, Default)]
struct XorAcc(i64);
impl Accumulator for XorAcc {
    fn update_batch(&mut self, v: &[ArrayRef]) -> Result<()> {
        for x in v[0].as_primitive::<Int64Type>().iter().flatten() {
            self.0 ^= x.wrapping_mul(0x9E37_79B9);
        }
        Ok(())
    }
    fn evaluate(&mut self) -> Result<ScalarValue> {
        Ok(ScalarValue::Int64(Some(self.0)))
    }
    fn size(&self) -> usize {
        8
    }
    fn state(&mut self) -> Result<Vec<ScalarValue>> {
        Ok(vec![ScalarValue::Int64(Some(self.0))])
    }
    fn merge_batch(&mut self, v: &[ArrayRef]) -> Result<()> {
        for x in v[0].as_primitive::<Int64Type>().iter().flatten() {
            self.0 ^= x;
        }
        Ok(())
    }
}
fn xors() -> AggregateUDF {
    create_udaf("xors", vec![DataType::Int64], Arc::new(DataType::Int64), Volatility::Immutable, Arc::new(|_| Ok(Box::<XorAcc>::default())), Arc::new(vec![DataType::Int64]))
}

// ---- expressions, operators and parameters worth shipping ----

fn zoo(r: &mut StdRng, tables: usize, udf: bool) -> String {
    let t = |r: &mut StdRng| format!("t{}", r.random_range(0..tables));
    let n = r.random_range(-3..40i64);
    let m = r.random_range(1..9i64);
    let preds = [
        format!("id % {m} = 1"),
        format!("k BETWEEN {n} - 5 AND {n} + 5"),
        "g LIKE 'a%'".into(),
        "g ILIKE '%C_' ESCAPE '\\'".into(),
        "NOT g SIMILAR TO 'a|b'".into(),
        "g ~ '^[a-c]+$'".into(),
        format!("v NOT IN ({})", (0..r.random_range(1..40)).map(|i| (i * m).to_string()).collect::<Vec<_>>().join(",")),
        "g IN ('a', NULL, 'é')".into(),
        "b IS NOT FALSE".into(),
        "b IS UNKNOWN OR v IS DISTINCT FROM 17".into(),
        "CASE WHEN v > 3 THEN b WHEN k IS NULL THEN NOT b ELSE NULL END".into(),
        "CASE k WHEN 0 THEN true WHEN 1 THEN false ELSE coalesce(b, true) END".into(),
        "TRY_CAST(g AS INT) IS NULL".into(),
        format!("m * CAST({m} AS DECIMAL(5,1)) > 12.5"),
        format!("d + INTERVAL '{m} days' >= DATE '1990-01-01' - INTERVAL '1 month'"),
        "to_timestamp(id) AT TIME ZONE 'UTC' > TIMESTAMP '1970-01-01T00:00:10'".into(),
        "date_trunc('month', CAST(d AS TIMESTAMP)) = date_trunc('month', CAST(d AS TIMESTAMP))".into(),
        "f > -1e300 AND f < 'infinity'::double".into(),
        "(id & 6) | (id << 2) > 4".into(),
        "arrow_cast(g, 'Dictionary(Int32, Utf8)') = 'a'".into(),
        "length(encode(CAST(g AS BYTEA), 'hex')) > 1".into(),
        "X'00ff' <> CAST(g AS BYTEA)".into(),
        "nullif(v, 3) IS NULL OR greatest(v, k, 2) > 2".into(),
        "EXISTS (SELECT 1 FROM t1 z WHERE z.k = x.k AND z.id > x.id)".into(),
        "x.k NOT IN (SELECT z.k FROM t1 z WHERE z.k IS NOT NULL AND z.v > 900)".into(),
        "x.v > (SELECT avg(z.v) FROM t0 z WHERE z.k = x.k)".into(),
    ];
    let pred = |r: &mut StdRng| {
        let a = pick(r, &preds.iter().map(|s| s.as_str()).collect::<Vec<_>>()).to_string();
        let b = pick(r, &preds.iter().take(25).map(|s| s.as_str()).collect::<Vec<_>>()).to_string();
        match r.random_range(0..4) {
            0 => a,
            1 => format!("({a}) AND NOT ({b})"),
            2 => format!("({a}) OR ({b})"),
            _ => b,
        }
    };
    let exprs = [
        "id".into(),
        format!("CASE WHEN k > {m} THEN g ELSE concat(g, '_', CAST(v AS VARCHAR)) END"),
        format!("CAST(v AS DECIMAL(20,{m})) / 3"),
        "substr(upper(g), 1, 2) || chr(65 + abs(k % 20))".into(),
        "date_part('doy', d)".into(),
        "d - INTERVAL '1 year 2 months 3 days'".into(),
        "named_struct('x', v, 'y', g)".into(),
        "arrow_cast(id, 'Timestamp(Millisecond, Some(\"+02:00\"))')".into(),
        "arrow_cast(g, 'LargeUtf8')".into(),
        "arrow_cast(g, 'Utf8View')".into(),
        "arrow_cast(CAST(g AS BYTEA), 'BinaryView')".into(),
        "-v".into(),
        "NOT b".into(),
        "coalesce(m, 0.05)".into(),
        "regexp_replace(g, '[ab]+', '<\\0>', 'g')".into(),
        "(v % 7) IS NOT DISTINCT FROM NULL".into(),
        "to_char(d, '%Y/%m')".into(),
        "round(f * 10)".into(),
    ];
    let e = |r: &mut StdRng| pick(r, &exprs.iter().map(|s: &String| s.as_str()).collect::<Vec<_>>()).to_string();
    let aggs = [
        "count(*)".to_string(),
        "count(DISTINCT g)".into(),
        "sum(v) FILTER (WHERE b)".into(),
        "min(g)".into(),
        "max(d)".into(),
        "bit_xor(id)".into(),
        "bool_or(b)".into(),
        "sum(m)".into(),
        "array_agg(id ORDER BY id DESC)".into(),
        "string_agg(g, '/' ORDER BY g, id)".into(),
        "first_value(g ORDER BY v NULLS LAST, id)".into(),
        "last_value(v ORDER BY id)".into(),
        "nth_value(g, 2 ORDER BY id)".into(),
        "median(v)".into(),
        "percentile_cont(0.25) WITHIN GROUP (ORDER BY v)".into(),
        "count(DISTINCT v) FILTER (WHERE k > 0)".into(),
        "sum(DISTINCT k)".into(),
    ];
    let agg = |r: &mut StdRng| pick(r, &aggs.iter().map(|s| s.as_str()).collect::<Vec<_>>()).to_string();
    let wins = [
        format!("sum(v) OVER (PARTITION BY k ORDER BY id ROWS BETWEEN {m} PRECEDING AND 1 FOLLOWING)"),
        format!("count(*) OVER (PARTITION BY g ORDER BY id RANGE BETWEEN {m} PRECEDING AND CURRENT ROW)"),
        "max(g) OVER (PARTITION BY k ORDER BY v NULLS FIRST, id GROUPS BETWEEN 1 PRECEDING AND UNBOUNDED FOLLOWING)".into(),
        format!("ntile({m}) OVER (PARTITION BY k ORDER BY id DESC)"),
        format!("lag(g, {m}, 'none') OVER (PARTITION BY b ORDER BY id)"),
        "nth_value(id, 2) OVER (PARTITION BY g ORDER BY id)".into(),
        "dense_rank() OVER (PARTITION BY k ORDER BY g NULLS FIRST)".into(),
        "first_value(v) OVER (PARTITION BY g ORDER BY id ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)".into(),
        "row_number() OVER (ORDER BY id)".into(),
    ];
    let win = |r: &mut StdRng| pick(r, &wins.iter().map(|s| s.as_str()).collect::<Vec<_>>()).to_string();
    let (a, b) = (t(r), t(r));
    if udf {
        return match r.random_range(0..4) {
            0 => format!("SELECT affine(id) AS a, affine(v) AS b FROM {a} x WHERE affine(k) > {n}"),
            1 => format!("SELECT affine(k) AS a, xors(v) AS b, count(*) AS c FROM {a} x GROUP BY affine(k)"),
            2 => format!("SELECT xors(affine(x.id)) AS a FROM {a} x JOIN {b} y ON affine(x.k) = affine(y.k)"),
            _ => format!("SELECT k, xors(DISTINCT v) AS a FROM {a} x GROUP BY k ORDER BY affine(k)"),
        };
    }
    match r.random_range(0..15) {
        0 | 1 => format!("SELECT id, {} AS e1, {} AS e2 FROM {a} x WHERE {}", e(r), e(r), pred(r)),
        2 => format!("SELECT k, g, {} AS a1, {} AS a2 FROM {a} x WHERE {} GROUP BY k, g", agg(r), agg(r), pred(r)),
        3 => format!("SELECT {} AS a1, {} AS a2 FROM {a} x WHERE {}", agg(r), agg(r), pred(r)),
        4 => format!("SELECT k, g, grouping(k) AS gk, count(*) AS c, sum(v) AS s FROM {a} x GROUP BY {}", pick(r, &["ROLLUP(k, g)", "CUBE(k, g)", "GROUPING SETS ((k), (g), (k, g), ())"])),
        5 | 6 => format!("SELECT id, {} AS w1, {} AS w2 FROM {a} x WHERE {}", win(r), win(r), pred(r)),
        7 => format!(
            "SELECT x.id AS a, y.id AS b, y.g AS c FROM {a} x {} JOIN {b} y ON x.k = y.k AND x.id % {m} = y.id % {m}{} WHERE {}",
            pick(r, &["", "LEFT", "RIGHT", "FULL"]),
            pick(r, &["", " AND x.v > y.v", " AND x.g IS NOT DISTINCT FROM y.g"]),
            "x.id IS NOT NULL OR y.id IS NOT NULL"
        ),
        8 => format!("SELECT x.id AS a, y.id AS b FROM {a} x {} JOIN {b} y ON x.id < y.id % {m}", pick(r, &["", "LEFT", "FULL"])),
        9 => format!("SELECT id, {} AS e1 FROM {a} x WHERE {} ORDER BY id DESC LIMIT {}", e(r), pred(r), r.random_range(1..30)),
        10 => format!("SELECT id, k AS u FROM {a} x WHERE {}", pred(r)),
        11 => format!("SELECT k, v FROM {a} UNION SELECT k, v FROM {b} WHERE id > {n} EXCEPT SELECT k, v FROM t0 WHERE k = {m}"),
        12 => format!("SELECT x.k AS a, y.c1 AS b, count(*) AS c FROM {a} x JOIN (VALUES (0, 'zero'), (1, 'one'), ({m}, NULL)) AS y(c0, c1) ON x.k = y.c0 GROUP BY x.k, y.c1"),
        13 => format!("SELECT DISTINCT {} AS e1, {} AS e2 FROM {a} x WHERE {}", e(r), e(r), pred(r)),
        _ => format!("SELECT x.id AS a, s.value AS b FROM {a} x JOIN generate_series({n}, {n} + 20, {m}) AS s ON x.k = s.value WHERE x.id % 2 = 0"),
    }
}

// ---- comparison ----

fn has_boundary(p: &Arc<dyn ExecutionPlan>) -> bool {
    p.is_network_boundary() || p.children().iter().any(|c| has_boundary(c))
}
/// The columns of its input in their order and under their names, at most cast.
fn only_casts(p: &ProjectionExec) -> bool {
    p.expr().len() == p.input().schema().fields().len()
        && p.expr().iter().enumerate().all(|(i, e)| {
            let x = e.expr.downcast_ref::<CastExpr>().map_or(&e.expr, |c| c.expr());
            x.downcast_ref::<Column>().is_some_and(|c| c.index() == i && c.name() == e.alias)
        })
}
/// Everything a node tells about itself, without its state.
fn deep(p: &Arc<dyn ExecutionPlan>, out: &mut String, depth: usize) {
    use std::fmt::Write;
    let props = p.properties();
    let pad = "  ".repeat(depth);
    let mut line = displayable(p.as_ref()).one_line().to_string();
    // A hint to the reader that DataFusion leaves out of its encoding.
    line = line.replace(", reverse_row_groups=true", "");
    if let Some(i) = line.find(", ordering_mode=") {
        line.truncate(i);
    }
    if line.contains("DynamicFilter [") {
        // nor is what was derived from it
        if let Some(i) = line.find(", pruning_predicate=").or(line.find(", required_guarantees=[")) {
            line.truncate(i);
        }
    }
    if let Some(i) = line.find(", sort_order_for_reorder=[") {
        let end = line[i..].find(']').map_or(line.len(), |e| i + e + 1);
        line.replace_range(i..end, "");
    }
    // What such a filter has learned so far is not part of the plan.
    let mut from = 0;
    while let Some(i) = line[from..].find("DynamicFilter [").map(|i| from + i + "DynamicFilter ".len()) {
        let mut depth = 0;
        let end = line[i..].char_indices().find(|(_, c)| {
            depth += (*c == '[') as i32 - (*c == ']') as i32;
            depth == 0
        });
        let end = end.map_or(line.len(), |(j, _)| i + j + 1);
        line.replace_range(i..end, "..");
        from = i;
    }
    let _ = write!(out, "{pad}{} [{}] ", line.trim_end(), p.name());
    // Nullability is worked out anew by the nodes that are rebuilt.
    let _ = write!(out, "schema={:?} ", p.schema().fields().iter().map(|f| (f.name().clone(), f.data_type().clone())).collect::<Vec<_>>());
    let _ = write!(out, "parts={:?} fetch={:?} {:?}", props.partitioning, p.fetch(), props.boundedness);
    // what producers know about the order of their rows does not travel
    if !has_boundary(p) {
        let _ = write!(out, " need={:?} dist={:?}", p.required_input_ordering(), p.required_input_distribution());
    }
    if let Some(b) = p.as_network_boundary() {
        let s = b.input_stage();
        let _ = write!(out, " stage={:?} {} {}", s.query_id(), s.num(), s.task_count());
        if let Stage::Remote(x) = s {
            let _ = write!(out, " {:?}", x.workers.iter().map(|u| u.to_string()).collect::<Vec<_>>());
        }
    }
    out.push('\n');
    for c in p.children() {
        // Unions, when rebuilt, may cast their inputs once more.
        let mut c = c;
        while p.name() == "UnionExec" && c.downcast_ref::<ProjectionExec>().is_some_and(only_casts) {
            c = c.children()[0];
        }
        deep(c, out, depth + 1);
    }
}
fn deep_str(p: &Arc<dyn ExecutionPlan>) -> String {
    let mut s = String::new();
    deep(p, &mut s, 0);
    s
}
fn bytes_of(p: &Arc<dyn ExecutionPlan>, cfg: &SessionConfig) -> Result<Vec<u8>> {
    let codec = DistributedCodec::new_combined_with_user(cfg);
    physical_plan_to_bytes_with_extension_codec(Arc::clone(p), &codec).map(|b| b.to_vec())
}

#[derive(Clone, Debug)]
struct Seen {
    deep: String,
    bytes: Result<Vec<u8>, String>,
    vias: Vec<(String, String)>,
}
type SeenMap = Arc<Mutex<BTreeMap<(usize, usize, usize), Vec<Seen>>>>;

fn vias(p: &Arc<dyn ExecutionPlan>, out: &mut Vec<(String, String)>) {
    if let Some(t) = p.downcast_ref::<TagExec>() {
        out.push((t.tag.clone(), t.via.clone().unwrap_or_default()));
    }
    for c in p.children() {
        vias(c, out);
    }
}
fn seen(p: &Arc<dyn ExecutionPlan>, cfg: &SessionConfig) -> Seen {
    let mut v = vec![];
    vias(p, &mut v);
    Seen { deep: deep_str(p), bytes: bytes_of(p, cfg).map_err(|e| err_short(&e)), vias: v }
}
fn first_diff(a: &str, b: &str) -> String {
    if std::env::var("DDRT_DUMP").is_ok() { eprintln!("{a}\n====\n{b}"); }
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            let i = x.bytes().zip(y.bytes()).position(|(p, q)| p != q).unwrap_or(0).saturating_sub(40);
            let cut = |s: &str| s.char_indices().skip_while(|c| c.0 < i).map(|c| c.1).take(300).collect::<String>();
            return format!("{} | built: ..{} | ran: ..{}", x.trim_start().chars().take(60).collect::<String>(), cut(x), cut(y));
        }
    }
    if std::env::var("DDRT_DUMP").is_ok() { eprintln!("{a}\n====\n{b}"); }
    format!("{} lines built, {} ran", a.lines().count(), b.lines().count())
}

/// Pieces of data a leaf names.
fn pieces(p: &Arc<dyn ExecutionPlan>) -> Option<Vec<String>> {
    if let Some(m) = p.downcast_ref::<MonExec>() {
        return Some(m.parts.iter().flatten().map(|c| format!("{}#{c}", m.table.name)).collect());
    }
    let ds = p.downcast_ref::<DataSourceExec>()?;
    let f = (ds.data_source().as_ref() as &dyn std::any::Any).downcast_ref::<FileScanConfig>()?;
    Some(f.file_groups.iter().flat_map(|g| g.files()).map(|f| format!("{} {:?}", f.object_meta.location, f.range)).collect())
}

async fn c17_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    // Which codecs there are, and what they make of the tags.
    let letters = ['a', 'b', 'c'];
    let ncodecs = r.random_range(1..4);
    let mut codecs: Vec<TagCodec> = (0..ncodecs)
        .map(|i| TagCodec { name: format!("codec{i}"), takes: letters.iter().copied().filter(|_| r.random_bool(0.6)).collect(), broken: false })
        .collect();
    let tagging = r.random_bool(0.4);
    let ntags = r.random_range(1..4);
    let tags: Vec<String> = if tagging { (0..ntags).map(|i| format!("{}{}", pick(&mut r, &letters), pick(&mut r, &["", "é\u{0}\"", "long tag with spaces"])) + &i.to_string()).collect() } else { vec![] };
    // mostly every tag has a codec
    if tagging && r.random_bool(0.8) {
        codecs.last_mut().unwrap().takes = letters.to_vec();
    }
    let mishap = if tagging && r.random_bool(0.15) { pick(&mut r, &["broken", "missing"]) } else { "" };
    let directed = ctx.idx == 0;
    let tagging = tagging && !directed;
    let udf_mode = !directed && r.random_bool(0.25);
    let udf_missing = udf_mode && r.random_bool(0.3);
    let generated = !directed && !udf_mode && r.random_bool(0.3);
    let maps: SeenMap = Default::default();
    let (m2, wc) = (Arc::clone(&maps), {
        let mut c = codecs.clone();
        match mishap {
            "broken" => c.iter_mut().for_each(|c| c.broken = true),
            "missing" => c.clear(),
            _ => {}
        }
        c
    });
    let hook: StateHook = Arc::new(move |b, _, i| {
        let mut b = b;
        for c in &wc {
            b = b.with_distributed_user_codec(c.clone());
        }
        if udf_mode && !udf_missing {
            b.scalar_functions().get_or_insert_default().push(Arc::new(affine()));
            b.aggregate_functions().get_or_insert_default().push(Arc::new(xors()));
        }
        let m = Arc::clone(&m2);
        Ok(b.with_distributed_worker_plan_rewrite_handler(move |ev: WorkerPlanRewriteEvent| {
            let d = ev.session_config.get_extension::<DistributedTaskContext>();
            let (t, n) = d.map(|d| (d.task_index, d.task_count)).unwrap_or((usize::MAX, 0));
            let s = seen(&ev.plan, ev.session_config);
            m.lock().unwrap().entry((i, t, n)).or_default().push(s);
            Ok(WorkerPlanRewriteEventResponse::new(ev.plan))
        }))
    });
    // The world.
    let (w, sql, judged) = if generated {
        match world_query(&ctx, &mut r, |_r, c, _q, _s| c.hook = Some(hook.clone())).await {
            Ok(Prepared { w, query, exp, unl }) => (w, query.sql.clone(), Some((query, exp, unl))),
            Err(e) => return e,
        }
    } else {
        let mut ccfg = random_cluster(&mut r);
        ccfg.hook = Some(hook.clone());
        let mut q = QCfg::random(&mut r);
        q.budget = 64 << 20;
        q.bytes_per_partition = pick(&mut r, &[1, 1, 200, 1000]);
        if r.random_bool(0.25) {
            q.dynamic = true;
            q.dyn_bytes = pick(&mut r, &[16, 2000, 16 << 20]);
        }
        let nt = r.random_range(2..4);
        let mut specs: Vec<TableSpec> = (0..nt).map(|i| random_spec(&mut r, &format!("t{i}"), 120, ccfg.workers + 3)).collect();
        if directed {
            (ccfg.workers, q) = (3, QCfg::base());
            specs[0] = TableSpec { rows: 100, chunks: 6, krange: 3, hive: false, parquet: false, empty_chunks: false, skew: false, hint: Hint::Desired(3), n_parts: 2, ..specs[0].clone() };
        }
        // byte for byte only without filters that learn
        if r.random_bool(0.5) {
            q.df.push(("datafusion.optimizer.enable_dynamic_filter_pushdown", "false".into()));
        }
        let sql = if directed { "SELECT id, sum(v) FILTER (WHERE b) OVER (PARTITION BY k ORDER BY id) AS w FROM t0 x".into() } else { zoo(&mut r, nt, udf_mode) };
        (World::new(&ctx, &mut r, specs, ccfg, q).await, sql, None)
    };
    let desc = format!(
        "sql={sql} | tags={tags:?} codecs={:?} {mishap} udf_missing={udf_missing} | workers={} {:?} no_shortcut={} cfg={:?} tables={:?}",
        codecs.iter().map(|c| (&c.name, &c.takes)).collect::<Vec<_>>(),
        w.cluster.cfg.workers,
        w.cluster.cfg.transport,
        w.cluster.cfg.no_shortcut,
        w.q,
        w.tables.specs
    );
    ctx.note(desc.clone());
    let (cs, tg) = (codecs.clone(), tags.clone());
    let coord_hook = move |b: SessionStateBuilder| {
        let mut b = b;
        for c in &cs {
            b = b.with_distributed_user_codec(c.clone());
        }
        if udf_mode {
            b.scalar_functions().get_or_insert_default().push(Arc::new(affine()));
            b.aggregate_functions().get_or_insert_default().push(Arc::new(xors()));
        }
        Ok(b.with_physical_optimizer_rule(Arc::new(TagLeaves(tg.clone(), AtomicU64::new(0)))))
    };
    let dc = match w.distributed_with(&coord_hook).await {
        Ok(c) => c,
        Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
    };
    let plan = match plan_of(&dc, &sql).await {
        Ok(p) => p,
        Err(e) => return CaseResult::inconclusive(format!("planning: {}", err_short(&e).chars().take(90).collect::<String>())),
    };
    w.mon.clear();
    let got = run_plan(&w.mon, &plan, &dc).await;
    // Let every dispatched task be seen.
    let _ = eventually(std::time::Duration::from_millis(500), || {
        w.mon.tick();
        w.mon.log.lock().unwrap().coord.iter().all(|c| c.accepted.is_some())
    })
    .await;
    let cfg = dc.copied_config();
    let expected_via = |tag: &str| codecs.iter().find(|c| c.takes.contains(&tag.chars().next().unwrap_or(' '))).map(|c| c.name.clone());
    // What was sent.
    let mut sent: BTreeMap<(usize, usize, usize), Vec<Seen>> = BTreeMap::new();
    let mut at: HashMap<(String, usize, Vec<usize>), HashMap<String, usize>> = HashMap::new();
    let (mut tasks, mut untransportable, mut uses_udf, mut tagged) = (0u64, None::<String>, false, 0u64);
    {
        let log = w.mon.log.lock().unwrap();
        for c in &log.coord {
            let Some(node) = &c.node else { continue };
            let s = seen(node, &cfg);
            uses_udf |= s.deep.contains("affine(") || s.deep.contains("xors(");
            tagged += s.vias.len() as u64;
            for (t, _) in &s.vias {
                if expected_via(t).is_none() {
                    untransportable = Some(t.clone());
                }
            }
            let mut bad = None;
            each_node(node, &mut vec![], &mut |p, path| {
                if p.downcast_ref::<DistributedLeafExec>().is_some() {
                    bad = Some(format!("the data of all tasks was sent to task {}", c.key.task_number));
                }
                for x in pieces(p).unwrap_or_default() {
                    let by = at.entry((c.key.query_id.to_string(), c.key.stage_id, path.to_vec())).or_default();
                    if let Some(o) = by.insert(x.clone(), c.key.task_number) {
                        if o != c.key.task_number {
                            bad = Some(format!("{x} was sent to tasks {o} and {}", c.key.task_number));
                        }
                    }
                }
            });
            if let Some(b) = bad {
                return CaseResult::viol("foreign-data", format!("stage {}: {b} | {desc}", c.key.stage_id));
            }
            if c.accepted == Some(true) {
                tasks += 1;
                let Some(i) = w.cluster.urls.iter().position(|u| *u == c.target_url) else {
                    return CaseResult::inconclusive("unknown target");
                };
                sent.entry((i, c.key.task_number, c.task_count)).or_default().push(s);
            }
        }
    }
    let ran = maps.lock().unwrap().clone();
    // Every plan a worker registered is one that was built for that task.
    let learns_off = w.q.df.iter().any(|(k, v)| k.ends_with("enable_dynamic_filter_pushdown") && v == "false");
    let (mut nodes, mut same_bytes) = (0u64, 0u64);
    let mut unencodable = 0u64;
    for (k, v) in &ran {
        let mut left = sent.get(k).cloned().unwrap_or_default();
        for s in v {
            let i = left.iter().position(|x| x.deep == s.deep);
            match i {
                Some(i) => {
                    let x = left.swap_remove(i);
                    nodes += x.deep.lines().count() as u64;
                    let learns = !learns_off || x.deep.contains("TopK");
                    match (&x.bytes, &s.bytes) {
                        // Filters that learn travel with what they know, under an identity of their own.
                        _ if learns => {}
                        (Ok(a), Ok(b)) if a != b => {
                            if std::env::var("DDRT_DUMP").is_ok() { std::fs::write("/tmp/enc.a", a).unwrap(); std::fs::write("/tmp/enc.b", b).unwrap(); }
                            return CaseResult::viol("encoding-changed", format!("task {k:?}: the plan a worker runs encodes differently from the one built:\n{} | {desc}", x.deep));
                        }
                        (Ok(_), Ok(_)) => same_bytes += 1,
                        _ => unencodable += 1,
                    }
                    for (tag, via) in &s.vias {
                        let want = expected_via(tag);
                        if want.as_ref() != Some(via) {
                            return CaseResult::viol("codec-order", format!("{tag:?} was rebuilt by {via:?}, not {want:?} | {desc}"));
                        }
                    }
                }
                None if got.is_err() => {}
                None => {
                    let common = |x: &Seen| x.deep.lines().zip(s.deep.lines()).filter(|(a, b)| a == b).count();
                    let d = left.iter().max_by_key(|x| common(x)).map(|x| first_diff(&x.deep, &s.deep)).unwrap_or_else(|| "no such task was sent".into());
                    return CaseResult::viol("plan-changed", format!("worker, task, tasks = {k:?}: {d} | {desc}"));
                }
            }
        }
        if got.is_ok() && !left.is_empty() {
            return CaseResult::viol("plan-lost", format!("{} plans accepted for {k:?} never came to the workers' handlers | {desc}", left.len()));
        }
    }
    let mut res = CaseResult::ok().count("plans_compared", tasks).count("nodes_compared", nodes).count("encodings_compared", same_bytes).count("plans_without_encoding", unencodable).count("user_nodes_rebuilt", tagged);
    let must_fail = if untransportable.is_some() {
        Some(format!("no codec takes {untransportable:?}"))
    } else if mishap != "" && tagged > 0 {
        Some(format!("codecs of the workers are {mishap}"))
    } else if udf_missing && uses_udf {
        Some("workers lack a function".into())
    } else {
        None
    };
    match (&got, must_fail) {
        (Ok(_), Some(m)) => return CaseResult::viol("sent-anyway", format!("{m}, but the query succeeded | {desc}")),
        (Err(e), Some(m)) => {
            let e = err_short(e);
            let named = if m.starts_with("no codec") { true } else if m.starts_with("codecs") { true } else { e.contains("affine") || e.contains("xors") };
            if !named {
                return CaseResult::viol("unclear-error", format!("{m}: {e} | {desc}"));
            }
            return res.count("untransportable_reported", 1).seen(hash_str(&desc));
        }
        (Err(e), None) => {
            let e1 = err_short(e);
            // Does the query work at all?
            let plain = async { collect_df(&w.undistributed_with_fns(udf_mode).await?, &sql).await }.await;
            if plain.is_err() {
                return CaseResult::inconclusive(format!("fails in DataFusion: {}", e1.chars().take(60).collect::<String>()));
            }
            // Or does DataFusion not know how to encode it?
            if unencodable > 0 || e1.contains("not supported") || e1.contains("not implemented") || e1.contains("Unsupported") {
                return CaseResult::inconclusive(format!("cannot be encoded: {}", e1.chars().take(60).collect::<String>()));
            }
            return CaseResult::viol("fails-distributed", format!("{e1} | {desc}"));
        }
        _ => {}
    }
    let got = got.unwrap();
    if let Some((query, exp, unl)) = &judged {
        if let Some(d) = judge(query, exp, &got, unl.as_deref()) {
            return CaseResult::viol("rows", format!("{d} | {desc}"));
        }
        res = res.count("rows_compared", got.iter().map(|b| b.num_rows() as u64).sum());
    } else {
        let exp = match async { collect_df(&w.undistributed_with_fns(udf_mode).await?, &sql).await }.await {
            Ok(x) => x,
            Err(e) => return CaseResult::inconclusive(format!("reference: {}", err_short(&e).chars().take(60).collect::<String>())),
        };
        if let Some(d) = diff(&rows_of(&exp), &rows_of(&got)) {
            // plain DataFusion must agree with itself
            let other = async { collect_df(&w.reference_with_fns(udf_mode).await?, &sql).await }.await;
            match other {
                Ok(o) if diff(&rows_of(&exp), &rows_of(&o)).is_none() => {
                    // DataFusion's encoding of window expressions has no place for their FILTER.
                    let sig = if directed { "window-filter-lost" } else { "rows" };
                    return CaseResult::viol(sig, format!("{d} | {desc}"));
                }
                _ => return CaseResult::inconclusive("DataFusion disagrees with itself"),
            }
        }
        res = res.count("rows_compared", got.iter().map(|b| b.num_rows() as u64).sum());
    }
    if tasks > 1 {
        let log = w.mon.log.lock().unwrap();
        res = res.count("queries_distributed", 1).seen(mix(hash_str(&sql), shape_fp(&log))).sampled(json!({"sql": sql.chars().take(200).collect::<String>(), "tasks": tasks}));
    }
    res
}

impl World {
    async fn undistributed_with_fns(&self, udf: bool) -> Result<datafusion::prelude::SessionContext> {
        let c = self.undistributed().await?;
        if udf {
            c.register_udf(affine());
            c.register_udaf(xors());
        }
        Ok(c)
    }
    async fn reference_with_fns(&self, udf: bool) -> Result<datafusion::prelude::SessionContext> {
        let c = self.reference().await?;
        if udf {
            c.register_udf(affine());
            c.register_udaf(xors());
        }
        Ok(c)
    }
}

pub fn c17(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(c17_case(ctx, r))
}
