//! One case's world: tables, cluster, sessions, execution helpers.
use crate::cluster::*;
use crate::core::*;
use crate::data::*;
use crate::mon::*;
use crate::qcfg::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::{DataFusionError, Result};
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::{ExecutionPlan, execute_stream};
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use futures::StreamExt;
use std::sync::Arc;
use std::time::Duration;

pub struct World {
    pub ctx: Arc<CaseCtx>,
    pub tables: Tables,
    pub cluster: Cluster,
    pub mon: Arc<Mon>,
    pub q: QCfg,
    /// the worker in whose process the coordinator runs
    pub colocate: Option<usize>,
    /// applied to every distributed session
    pub extra: Option<Arc<dyn Fn(SessionStateBuilder) -> Result<SessionStateBuilder> + Send + Sync>>,
    /// what users register before anything else
    pub pre: Option<Arc<dyn Fn(SessionStateBuilder) -> Result<SessionStateBuilder> + Send + Sync>>,
    pub coord_pool: Arc<TrackPool>,
    pub coord_rt: Arc<datafusion::execution::runtime_env::RuntimeEnv>,
}

pub type BuilderHook<'a> = &'a (dyn Fn(SessionStateBuilder) -> Result<SessionStateBuilder> + Sync);

impl World {
    pub async fn new(ctx: &Arc<CaseCtx>, r: &mut rand::rngs::StdRng, specs: Vec<TableSpec>, ccfg: ClusterCfg, q: QCfg) -> World {
        let mon = Mon::new(Arc::clone(&ctx.beat), mix(ctx.seed, ctx.idx));
        let tables = Tables::build(r, specs, &ctx.scratch(), Arc::clone(&ctx.beat));
        let cluster = Cluster::start(ccfg, Arc::clone(&mon)).await;
        let (coord_rt, coord_pool) = tracked_runtime();
        {
            let m = Arc::downgrade(&mon);
            *ctx.dump.lock().unwrap() = Some(Box::new(move || m.upgrade().map(|m| dump_log(&m.log.lock().unwrap())).unwrap_or_default()));
        }
        World { ctx: Arc::clone(ctx), tables, cluster, mon, q, colocate: None, extra: None, pre: None, coord_pool, coord_rt }
    }

    /// Single-node reference: one partition, plain memory tables, plain planner.
    pub async fn reference(&self) -> Result<SessionContext> {
        let mut q = self.q.clone();
        q.target_partitions = 1;
        q.batch_size = 8192;
        q.df.clear();
        let c = SessionContext::from(SessionStateBuilder::new().with_default_features().with_config(q.session_config()).build());
        self.tables.register_plain(&c)?;
        Ok(c)
    }
    /// Undistributed session over the very same tables and options (used to confirm a mismatch).
    pub async fn undistributed(&self) -> Result<SessionContext> {
        self.undistributed_with(&self.q).await
    }
    pub async fn undistributed_with(&self, q: &QCfg) -> Result<SessionContext> {
        let c = SessionContext::from(SessionStateBuilder::new().with_default_features().with_config(q.session_config()).build());
        self.tables.register(&c).await?;
        Ok(c)
    }
    pub async fn distributed_with(&self, hook: BuilderHook<'_>) -> Result<SessionContext> {
        let mut b = SessionStateBuilder::new().with_default_features().with_config(self.q.session_config()).with_runtime_env(Arc::clone(&self.coord_rt));
        if let Some(p) = &self.pre {
            b = p(b)?;
        }
        let b = self.cluster.dist_builder_after(b);
        let mut b = self.q.apply(b)?;
        if let Some(i) = self.colocate {
            b = b.with_distributed_local_worker_context(self.cluster.workers()[i].to_local_worker_context(self.cluster.urls[i].clone()));
        }
        if let Some(x) = &self.extra {
            b = x(b)?;
        }
        let c = SessionContext::from(hook(b)?.build());
        self.tables.register(&c).await?;
        Ok(c)
    }
    pub async fn distributed(&self) -> Result<SessionContext> {
        self.distributed_with(&|b| Ok(b)).await
    }
}

pub async fn collect_df(ctx: &SessionContext, sql: &str) -> Result<Vec<RecordBatch>> {
    ctx.sql(sql).await?.collect().await
}

pub async fn plan_of(ctx: &SessionContext, sql: &str) -> Result<Arc<dyn ExecutionPlan>> {
    ctx.sql(sql).await?.create_physical_plan().await
}

/// Executes and collects, counting batches as progress.
pub async fn run_plan(w: &Mon, plan: &Arc<dyn ExecutionPlan>, ctx: &SessionContext) -> Result<Vec<RecordBatch>> {
    let mut s = execute_stream(Arc::clone(plan), ctx.task_ctx())?;
    let mut out = vec![];
    while let Some(b) = s.next().await {
        w.tick();
        out.push(b?);
    }
    Ok(out)
}

pub fn boundaries(plan: &Arc<dyn ExecutionPlan>) -> usize {
    (plan.is_network_boundary() as usize) + plan.children().iter().map(|c| boundaries(c)).sum::<usize>()
}

pub fn err_short(e: &DataFusionError) -> String {
    e.to_string().chars().take(400).collect()
}

/// Waits until `f` holds or the time is up.
pub async fn eventually(max: Duration, mut f: impl FnMut() -> bool) -> bool {
    let t0 = std::time::Instant::now();
    loop {
        if f() {
            return true;
        }
        if t0.elapsed() > max {
            return false;
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
}
