//! C12: errors keep their meaning across the wire.
use super::query::*;
use super::trace::*;
use crate::cluster::*;
use crate::core::*;
use crate::data::*;
use crate::leaf::*;
use crate::qcfg::*;
use crate::world::*;
use datafusion::arrow::error::ArrowError;
use datafusion::common::{Column, DataFusionError, Diagnostic, SchemaError, TableReference};
use datafusion::logical_expr::sqlparser::parser::ParserError;
use datafusion::object_store;
use datafusion::parquet::errors::ParquetError;
use futures::future::BoxFuture;
use rand::Rng;
use rand::SeedableRng;
use rand::rngs::StdRng;
use serde_json::json;
use std::io::ErrorKind;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

fn msg(r: &mut StdRng) -> String {
    match r.random_range(0..9) {
        0 => String::new(),
        1 => "two\nlines\tand a tab".into(),
        2 => "ünïcödé 😀 \u{0}nul".into(),
        3 if r.random_bool(0.2) => "L".repeat(r.random_range(4000..400_000)),
        3 => "m".repeat(r.random_range(500..4000)),
        4 => "DataFusionError".into(),
        5 => "100% {braces} \"quotes\" \\back".into(),
        _ => format!("message number {}", r.random_range(0..1_000_000)),
    }
}

fn arrow(r: &mut StdRng) -> ArrowError {
    match r.random_range(0..19) {
        0 => ArrowError::NotYetImplemented(msg(r)),
        1 => ArrowError::ExternalError(msg(r).into()),
        2 => ArrowError::CastError(msg(r)),
        3 => ArrowError::MemoryError(msg(r)),
        4 => ArrowError::ParseError(msg(r)),
        5 => ArrowError::SchemaError(msg(r)),
        6 => ArrowError::ComputeError(msg(r)),
        7 => ArrowError::DivideByZero,
        8 => ArrowError::ArithmeticOverflow(msg(r)),
        9 => ArrowError::CsvError(msg(r)),
        10 => ArrowError::JsonError(msg(r)),
        11 => ArrowError::AvroError(msg(r)),
        12 => {
            let m = msg(r);
            ArrowError::IoError(m, io(r))
        }
        13 => ArrowError::IpcError(msg(r)),
        14 => ArrowError::InvalidArgumentError(msg(r)),
        15 => ArrowError::ParquetError(msg(r)),
        16 => ArrowError::CDataInterface(msg(r)),
        17 => pick(r, &[0, 1]).eq(&0).then_some(ArrowError::DictionaryKeyOverflowError).unwrap_or(ArrowError::RunEndIndexOverflowError),
        _ => ArrowError::OffsetOverflowError(pick(r, &[0, 7, usize::MAX])),
    }
}

fn io(r: &mut StdRng) -> std::io::Error {
    use ErrorKind::*;
    let kinds = [
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse,
        AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem,
        StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, FileTooLarge, ResourceBusy, ExecutableFileBusy,
        Deadlock, TooManyLinks, ArgumentListTooLong, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
    ];
    let k = pick(r, &kinds);
    match r.random_range(0..5) {
        0 => std::io::Error::from(k),
        1 => std::io::Error::from_raw_os_error(pick(r, &[1, 2, 5, 13, 17, 28, 104, 110, 111])),
        _ => std::io::Error::new(k, msg(r)),
    }
}

fn parquet_err(r: &mut StdRng) -> ParquetError {
    match r.random_range(0..8) {
        0 => ParquetError::General(msg(r)),
        1 => ParquetError::NYI(msg(r)),
        2 => ParquetError::EOF(msg(r)),
        3 => ParquetError::ArrowError(msg(r)),
        4 => ParquetError::IndexOutOfBound(r.random_range(0..9), usize::MAX),
        5 => ParquetError::External(msg(r).into()),
        6 => ParquetError::NeedMoreData(pick(r, &[0, 12, usize::MAX])),
        _ => ParquetError::NeedMoreDataRange(3..u64::MAX),
    }
}

fn store_err(r: &mut StdRng) -> object_store::Error {
    use object_store::Error::*;
    let path = format!("bucket/{}", msg(r));
    let source = msg(r).into();
    match r.random_range(0..11) {
        0 => Generic { store: pick(r, &["S3", "LocalFileSystem", "my own store", ""]), source },
        1 => NotFound { path, source },
        2 => InvalidPath { source: object_store::path::Error::EmptySegment { path } },
        3 => NotSupported { source },
        4 => AlreadyExists { path, source },
        5 => Precondition { path, source },
        6 => NotModified { path, source },
        7 => NotImplemented { operation: "copy_if_not_exists".into(), implementer: msg(r) },
        8 => PermissionDenied { path, source },
        9 => Unauthenticated { path, source },
        _ => UnknownConfigurationKey { store: pick(r, &["S3", "GCS", "x"]), key: msg(r) },
    }
}

fn col(r: &mut StdRng) -> Column {
    let n = pick(r, &["a", "Weird Name", "é", ""]);
    let t = match r.random_range(0..4) {
        0 => None,
        1 => Some(TableReference::bare("t")),
        2 => Some(TableReference::partial("s", "T 2")),
        _ => Some(TableReference::full("c", "s", "t")),
    };
    Column::new(t, n)
}
fn schema_err(r: &mut StdRng) -> SchemaError {
    match r.random_range(0..4) {
        0 => SchemaError::AmbiguousReference { field: Box::new(col(r)) },
        1 => SchemaError::DuplicateQualifiedField { qualifier: Box::new(pick(r, &[TableReference::bare("x"), TableReference::partial("s", "x"), TableReference::full("c", "s", "x")])), name: msg(r) },
        2 => SchemaError::DuplicateUnqualifiedField { name: msg(r) },
        _ => SchemaError::FieldNotFound { field: Box::new(col(r)), valid_fields: (0..r.random_range(0..4)).map(|_| col(r)).collect() },
    }
}

/// A random error of every category, nested up to `depth` deep.
pub fn random_error(r: &mut StdRng, depth: u32) -> DataFusionError {
    use DataFusionError as E;
    let wrap = depth > 0 && r.random_bool(0.45);
    if wrap {
        return match r.random_range(0..7) {
            0 | 1 => E::Context(msg(r), Box::new(random_error(r, depth - 1))),
            2 => E::Shared(Arc::new(random_error(r, depth - 1))),
            3 => E::Collection((0..r.random_range(1..4)).map(|_| random_error(r, depth - 1)).collect()),
            4 => E::Diagnostic(Box::new(Diagnostic::new_error("diag", None)), Box::new(random_error(r, depth - 1))),
            5 => E::External(Box::new(random_error(r, depth - 1))),
            _ => E::ArrowError(Box::new(ArrowError::ExternalError(Box::new(random_error(r, depth - 1)))), None),
        };
    }
    let bt = |r: &mut StdRng| r.random_bool(0.3).then(|| "\n\nbacktrace: somewhere".to_string());
    match r.random_range(0..15) {
        0 | 1 => {
            let b = bt(r);
            E::ArrowError(Box::new(arrow(r)), b)
        }
        2 => E::ParquetError(Box::new(parquet_err(r))),
        3 | 4 => E::ObjectStore(Box::new(store_err(r))),
        5 => E::IoError(io(r)),
        6 => {
            let b = bt(r);
            let m = msg(r);
            E::SQL(Box::new(pick(r, &[ParserError::TokenizerError(m.clone()), ParserError::ParserError(m), ParserError::RecursionLimitExceeded])), b)
        }
        7 => E::NotImplemented(msg(r)),
        8 => E::Internal(msg(r)),
        9 => E::Plan(msg(r)),
        10 => E::Configuration(msg(r)),
        11 => {
            let b = bt(r);
            E::SchemaError(Box::new(schema_err(r)), Box::new(b))
        }
        12 => E::Execution(msg(r)),
        13 => E::ResourcesExhausted(msg(r)),
        _ => {
            if r.random_bool(0.3) {
                E::Substrait(msg(r))
            } else {
                E::External(msg(r).into())
            }
        }
    }
}

/// One line per level: category, and the text of that level (whole text, as displayed).
/// `Uncategorized` cannot be constructed by a program: it can only arrive as `Other`.
fn io_kind(e: &std::io::Error) -> String {
    let k = format!("{:?}", e.kind());
    if k == "Uncategorized" { "Other".into() } else { k }
}

pub fn levels(e: &DataFusionError, out: &mut Vec<String>) {
    use DataFusionError as E;
    let t = e.to_string();
    fn arrow_kind(a: &ArrowError) -> String {
        match a {
            ArrowError::IoError(_, i) => format!("Io/{}", io_kind(i)),
            a => format!("{a:?}").split(['(', ' ']).next().unwrap_or("?").to_string(),
        }
    }
    match e {
        // A shared error and diagnostics are transparent.
        E::Shared(i) => levels(i, out),
        E::Diagnostic(_, i) => levels(i, out),
        E::Context(c, i) => {
            out.push(format!("Context {c}"));
            levels(i, out)
        }
        E::Collection(v) => {
            out.push(format!("Collection of {}", v.len()));
            for x in v {
                levels(x, out)
            }
        }
        E::ArrowError(a, bt) => {
            if let ArrowError::ExternalError(x) = a.as_ref()
                && let Some(d) = x.downcast_ref::<DataFusionError>()
            {
                out.push("Arrow/ExternalError".into());
                return levels(d, out);
            }
            out.push(format!("Arrow/{} {t} {bt:?}", arrow_kind(a)))
        }
        E::ParquetError(p) if matches!(p.as_ref(), ParquetError::NeedMoreDataRange(_)) => out.push(format!("Parquet/General Parquet error: Parquet error: {p}")),
        E::ParquetError(p) => out.push(format!("Parquet/{} {t}", format!("{p:?}").split(['(', ' ']).next().unwrap_or("?"))),
        // Not constructible from text either.
        E::ObjectStore(o) if matches!(o.as_ref(), object_store::Error::InvalidPath { .. }) => {
            let object_store::Error::InvalidPath { source } = o.as_ref() else { unreachable!() };
            out.push(format!("ObjectStore/Generic Object Store error: Generic unknown error: InvalidPath: {source}"))
        }
        E::ObjectStore(o) => out.push(format!("ObjectStore/{} {t}", format!("{o:?}").split(['(', ' ', '{']).next().unwrap_or("?"))),
        E::IoError(i) => out.push(format!("Io/{} {t}", io_kind(i))),
        E::SQL(p, bt) => out.push(format!("SQL/{p:?} {t} {bt:?}")),
        E::NotImplemented(_) => out.push(format!("NotImplemented {t}")),
        E::Internal(_) => out.push(format!("Internal {t}")),
        E::Plan(_) => out.push(format!("Plan {t}")),
        E::Configuration(_) => out.push(format!("Configuration {t}")),
        E::SchemaError(s, bt) => out.push(format!("Schema/{s:?} {t} {bt:?}")),
        E::Execution(_) => out.push(format!("Execution {t}")),
        // A join error cannot be rebuilt on the other side: only its text is kept.
        E::ExecutionJoin(j) => out.push(format!("Internal Internal error: {j}.")),
        E::ResourcesExhausted(_) => out.push(format!("ResourcesExhausted {t}")),
        E::Substrait(_) => out.push(format!("Substrait {t}")),
        E::Ffi(m) => out.push(format!("External External error: {m}")),
        E::External(x) => match x.downcast_ref::<DataFusionError>() {
            Some(d) => {
                out.push("External".into());
                levels(d, out)
            }
            None => out.push(format!("External {t}")),
        },
    }
}
pub fn level_list(e: &DataFusionError) -> Vec<String> {
    let mut v = vec![];
    levels(e, &mut v);
    v
}
/// Names of the categories only, to identify what was lost.
fn cats(v: &[String]) -> String {
    v.iter().map(|s| s.split(' ').next().unwrap_or("?").to_string()).collect::<Vec<_>>().join(">")
}

const SHAPES: &[&str] = &[
    "SELECT id, k FROM t0",
    "SELECT g, count(*) AS c FROM t0 GROUP BY g",
    "SELECT c, count(*) FROM (SELECT g, k, count(*) AS c FROM t0 GROUP BY g, k) GROUP BY c",
    "SELECT x.id, y.v FROM t0 x JOIN t1 y ON x.k = y.k",
    "SELECT x.id, y.v FROM t1 x LEFT JOIN t0 y ON x.k = y.k",
    "SELECT id, v FROM t0 ORDER BY v, id",
    "SELECT id FROM t1 UNION ALL SELECT id FROM t0",
    "SELECT id, sum(v) OVER (PARTITION BY k ORDER BY id) FROM t0",
    "SELECT DISTINCT g FROM t0 UNION ALL (SELECT g FROM t1 ORDER BY g)",
    "SELECT k, max(v) FROM (SELECT k, v FROM t0 UNION ALL SELECT k, v FROM t1) GROUP BY k ORDER BY k",
    "SELECT id FROM t1 WHERE k IN (SELECT k FROM t0)",
    "SELECT (SELECT max(v) FROM t0) AS m, id FROM t1",
];
/// Errors arising from the evaluation of expressions.
const NATURAL: &[&str] = &[
    "SELECT id, 1 / (v - v) FROM t0 WHERE v IS NOT NULL",
    "SELECT k, sum(CAST(g AS INT)) FROM t0 WHERE g <> '' GROUP BY k",
    "SELECT x.id FROM t0 x JOIN t1 y ON x.k = y.k AND CAST(x.g AS INT) > y.v WHERE x.g = 'zz'",
    "SELECT sum(v * 9223372036854775807 * (id + 2)) FROM t0 WHERE v > 3",
    "SELECT g, count(*) FROM t0 GROUP BY g, arrow_cast(g, 'Date32')",
    "SELECT id, CAST(CAST(id AS BIGINT) * 1000000 AS SMALLINT) FROM t0 ORDER BY id",
    "SELECT k FROM t0 UNION ALL SELECT CAST(g || 'x' AS INT) FROM t0",
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    Stream,
    Execute,
    SessionBuilder,
    PlanRewrite,
    Natural,
}

async fn c12_case(ctx: Arc<CaseCtx>, mut r: StdRng) -> CaseResult {
    let mut ccfg = random_cluster(&mut r);
    let mut q = QCfg::random(&mut r);
    q.budget = 64 << 20;
    q.dynamic = r.random_bool(0.2);
    let place = pick(&mut r, &[Where::Stream, Where::Stream, Where::Stream, Where::Execute, Where::Execute, Where::SessionBuilder, Where::PlanRewrite, Where::Natural]);
    let eseed: u64 = r.random();
    let edepth = r.random_range(0..4);
    // The first case always exercises the known finding about nested loop joins.
    let directed = ctx.idx == 0;
    let place = if directed {
        ccfg = ClusterCfg::new(2);
        ccfg.no_shortcut = true;
        q = QCfg::base();
        q.budget = 64 << 20;
        Where::Stream
    } else {
        place
    };
    let make = move || if directed { DataFusionError::ResourcesExhausted("directed".into()) } else { random_error(&mut StdRng::seed_from_u64(eseed), edepth) };
    let armed = Arc::new(Mutex::new(false));
    if matches!(place, Where::SessionBuilder | Where::PlanRewrite) {
        let armed = Arc::clone(&armed);
        ccfg.hook = Some(Arc::new(move |b: datafusion::execution::SessionStateBuilder, _: &http::HeaderMap, _| {
            if !*armed.lock().unwrap() {
                return Ok(b);
            }
            if place == Where::SessionBuilder {
                return Err(make());
            }
            use datafusion_distributed::DistributedExt;
            Ok(b.with_distributed_worker_plan_rewrite_handler(move |_: datafusion_distributed::WorkerPlanRewriteEvent| Err(make())))
        }));
    }
    let mut specs: Vec<TableSpec> = (0..2).map(|i| random_spec(&mut r, &format!("t{i}"), 60, ccfg.workers + 2)).collect();
    for s in &mut specs {
        s.parquet = false;
        s.sorted = false;
        s.rows = s.rows.max(12);
        s.hint = Hint::Desired(r.random_range(1..5));
        // extreme statistics make unrelated plans fail
        s.stats = StatMode::Inexact;
    }
    let w = World::new(&ctx, &mut r, specs, ccfg, q).await;
    let sql = if directed {
        "SELECT (SELECT max(v) FROM t0) AS m, id FROM t1"
    } else if place == Where::Natural { pick(&mut r, NATURAL) } else { pick(&mut r, SHAPES) };
    let injected = level_list(&make());
    let desc = format!("{place:?} {sql} | injected {} | workers={} {:?} no_shortcut={} cfg={:?} tables={:?}", format!("{:?}", make()).chars().take(300).collect::<String>(), w.cluster.cfg.workers, w.cluster.cfg.transport, w.cluster.cfg.no_shortcut, w.q, w.tables.specs);
    ctx.note(desc.clone());
    let t0 = w.tables.mon("t0");
    if matches!(place, Where::Stream | Where::Execute) {
        let chunk = r.random_range(0..t0.chunks.len());
        let batch = r.random_range(0..=t0.chunks[chunk].len());
        let kind = if place == Where::Stream { FaultKind::Error(Arc::new(make)) } else { FaultKind::ErrorOnExecute(Arc::new(make)) };
        t0.faults.lock().unwrap().push(Fault { chunk, batch, kind });
    }
    // What a local execution of the same query exposes.
    let local = if matches!(place, Where::Stream | Where::Execute | Where::Natural) {
        let u = match w.undistributed().await {
            Ok(u) => u,
            Err(e) => return CaseResult::inconclusive(format!("session: {}", err_short(&e))),
        };
        match tokio::time::timeout(std::time::Duration::from_secs(10), collect_df(&u, sql)).await {
            Ok(Err(e)) => Some(e),
            Ok(Ok(_)) if place == Where::Natural => return CaseResult::inconclusive("nothing to fail on in these tables"),
            Ok(Ok(_)) => return CaseResult::inconclusive("the failing operator was not needed"),
            Err(_) => return CaseResult::inconclusive("local run timed out"),
        }
    } else {
        None
    };
    *armed.lock().unwrap() = true;
    let o = match observe(&w, sql, &|b| Ok(b)).await {
        Ok(o) => o,
        Err(e) => return e,
    };
    let tasks = w.mon.log.lock().unwrap().coord.len() as u64;
    let remote = tasks > 0;
    let e = match &o.got {
        Ok(_) => {
            if !remote && local.is_none() {
                return CaseResult::inconclusive("no task was sent to any worker");
            }
            return CaseResult::viol(format!("error-lost:{place:?}"), format!("the query succeeded | {desc}"));
        }
        Err(e) => e,
    };
    let got = level_list(e);
    if ctx.verbose {
        eprintln!("{}\nlocal {:?}\n got  {:?}", plan_brief(&o), local.as_ref().map(level_list), got);
    }
    // Known finding: out of memory, a nested loop join executes its build side once more.
    let retried = || {
        place != Where::Natural
            && matches!(make().find_root(), DataFusionError::ResourcesExhausted(_))
            && crate::mon::plan_str(&o.plan).contains("NestedLoopJoinExec")
            && got.len() == 1
            && got[0].starts_with("Internal ")
            && (got[0].contains("was already consumed") || got[0].contains("Too many consumers for real partition"))
    };
    if retried() {
        return CaseResult::viol("nested-loop-join-retries-consumed-build-side", format!("{injected:?} arrived as {got:?} | {desc}"));
    }
    // Errors too large to be sent may lose their structure and the end of their text, never the
    // category of their root cause (if text is enough for building it).
    if place != Where::Natural {
        let orig = make();
        if format!("{orig:?}").len() > 4000 {
            let whole = orig.strip_backtrace();
            let head: String = whole.chars().take(1000).collect();
            let fam = |c: &str| c.split(['/', ' ']).next().unwrap_or("?").to_string();
            let want = {
                let mut v = vec![];
                levels(orig.find_root(), &mut v);
                fam(&v[0])
            };
            let want = if ["Parquet", "ObjectStore", "Schema", "SQL", "Collection"].contains(&want.as_str()) { "External".into() } else { want };
            let have = fam(got.last().map(|s| s.as_str()).unwrap_or("?"));
            let strict = match &local {
                Some(l) => level_list(l) == got,
                None => got.len() >= injected.len() && got[got.len() - injected.len()..] == injected[..],
            };
            if !strict && (want != have || !e.to_string().contains(&head)) {
                return CaseResult::viol(format!("large:{want}=>{have}"), format!("a large error arrived as {:.500} | {desc}", format!("{e:?}")));
            }
            return CaseResult::ok().count("large_errors", 1).count("large_errors_abridged", !strict as u64).seen(mix(hash_str(sql), hash_str(&format!("{want}{strict}{}", whole.len()))));
        }
    }
    let ends = |v: &[String], tail: &[String]| v.len() >= tail.len() && v[v.len() - tail.len()..] == *tail;
    match &local {
        Some(l) => {
            let want = level_list(l);
            if want != got {
                // which of several failing tasks is reported first is a matter of timing
                let same_root = place == Where::Natural && want.last().map(|s| s.split(' ').next().map(|x| x.to_string())) == got.last().map(|s| s.split(' ').next().map(|x| x.to_string()));
                if !same_root {
                    return CaseResult::viol(format!("changed:{}=>{}", cats(&want), cats(&got)), format!("local error {l:?} [{want:?}] arrived as {e:?} [{got:?}] | {desc}"));
                }
            }
            if place != Where::Natural && !ends(&got, &injected) {
                return CaseResult::inconclusive("a local execution hides the injected error too");
            }
        }
        None => {
            if !ends(&got, &injected) {
                return CaseResult::viol(format!("changed:{}=>{}", cats(&injected), cats(&got)), format!("worker error {:?} arrived as {e:?} [{got:?}] | {desc}", make()));
            }
        }
    }
    let mut res = CaseResult::ok().count("errors_compared", 1).count("errors_from_workers", remote as u64).count("levels_compared", got.len() as u64).count(&format!("place_{place:?}"), 1);
    for g in &got {
        res = res.count(&format!("category_{}", g.split([' ', '{']).next().unwrap_or("?")), 1);
    }
    let _ = t0.probe.fired.load(Ordering::SeqCst);
    if remote {
        res = res.seen(mix(hash_str(sql), hash_str(&got.join("|")))).sampled(json!({"sql": sql, "place": format!("{place:?}"), "error": e.to_string().chars().take(120).collect::<String>(), "tasks": tasks}));
    }
    res
}

fn plan_brief(o: &Obs) -> String {
    crate::mon::plan_str(&o.plan)
}

pub fn c12(ctx: Arc<CaseCtx>, r: StdRng) -> BoxFuture<'static, CaseResult> {
    Box::pin(c12_case(ctx, r))
}
#[allow(unused)]
fn _x(_: ClusterCfg) {}
