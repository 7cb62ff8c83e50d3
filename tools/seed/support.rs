// Common parts of the demonstrations.
#![allow(dead_code, unused_imports)]
pub use datafusion::arrow::array::*;
pub use datafusion::arrow::datatypes::*;
pub use datafusion::arrow::record_batch::RecordBatch;
pub use datafusion::error::{DataFusionError, Result};
pub use datafusion::execution::{SessionState, SessionStateBuilder, TaskContext};
pub use datafusion::physical_plan::{ExecutionPlan, displayable, execute_stream};
pub use datafusion::prelude::*;
pub use datafusion_distributed::test_utils::localhost::*;
pub use datafusion_distributed::*;
pub use futures::StreamExt;
pub use std::path::PathBuf;
pub use std::sync::Arc;
pub use std::time::Duration;
pub use tokio::net::TcpListener;
pub use url::Url;

pub fn dir() -> PathBuf {
    PathBuf::from(std::env::args().nth(1).expect("scratch dir"))
}

/// A table of `files` parquet files with `rows` rows each: id 0.., k = id % 7 (null when id % 11 = 0), s text.
pub async fn table(name: &str, files: usize, rows: usize) -> String {
    let d = dir().join(name);
    std::fs::create_dir_all(&d).unwrap();
    let ctx = SessionContext::new();
    for f in 0..files {
        let a = f * rows;
        let sql = format!(
            "SELECT value AS id, CASE WHEN value % 11 = 0 THEN NULL ELSE value % 7 END AS k, concat('s', value) AS s FROM generate_series({a}, {})",
            a + rows - 1
        );
        ctx.sql(&sql).await.unwrap().write_parquet(d.join(format!("f{f:03}.parquet")).to_str().unwrap(), Default::default(), None).await.unwrap();
    }
    format!("{}/", d.to_str().unwrap())
}

pub async fn register(ctx: &SessionContext, name: &str, path: &str) {
    ctx.register_parquet(name, path, Default::default()).await.unwrap();
}

pub async fn rows(ctx: &SessionContext, sql: &str) -> Result<Vec<String>> {
    let b = ctx.sql(sql).await?.collect().await?;
    Ok(lines(&b))
}

pub fn lines(b: &[RecordBatch]) -> Vec<String> {
    use datafusion::arrow::util::display::{ArrayFormatter, FormatOptions};
    let o = FormatOptions::default().with_null("NULL");
    let mut out = vec![];
    for x in b {
        let f: Vec<_> = x.columns().iter().map(|c| ArrayFormatter::try_new(c.as_ref(), &o).unwrap()).collect();
        for i in 0..x.num_rows() {
            out.push(f.iter().map(|c| c.value(i).to_string()).collect::<Vec<_>>().join(","));
        }
    }
    out
}

pub fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

pub async fn plan(ctx: &SessionContext, sql: &str) -> Arc<dyn ExecutionPlan> {
    ctx.sql(sql).await.unwrap().create_physical_plan().await.unwrap()
}

pub fn show(p: &Arc<dyn ExecutionPlan>) -> String {
    displayable(p.as_ref()).indent(true).to_string()
}

/// Same session with other settings.
pub fn tweak(ctx: &SessionContext, f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder) -> SessionContext {
    SessionContext::new_with_state(f(SessionStateBuilder::new_from_existing(ctx.state())).build())
}

pub fn run<F: std::future::Future<Output = ()>>(f: F) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    rt.block_on(async {
        if tokio::time::timeout(Duration::from_secs(120), f).await.is_err() {
            panic!("the demonstration hangs");
        }
    });
}
