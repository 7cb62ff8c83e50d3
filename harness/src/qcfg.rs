//! Random session configurations.
use datafusion::common::Result;
use datafusion::execution::SessionStateBuilder;
use datafusion::prelude::SessionConfig;
use datafusion_distributed::*;
use rand::Rng;
use rand::rngs::StdRng;

#[derive(Clone, Debug)]
pub struct QCfg {
    pub target_partitions: usize,
    pub batch_size: usize,
    pub df: Vec<(&'static str, String)>,
    pub bytes_per_partition: usize,
    pub max_tasks: usize,
    pub factor: f64,
    pub isolate: bool,
    pub broadcast: bool,
    pub partial_reduce: bool,
    pub compression: u8,
    pub shuffle_batch: usize,
    pub budget: usize,
    pub dynamic: bool,
    pub dyn_bytes: usize,
    pub metrics: bool,
}

pub fn pick<T: Clone>(r: &mut StdRng, xs: &[T]) -> T {
    xs[r.random_range(0..xs.len())].clone()
}

impl QCfg {
    pub fn base() -> QCfg {
        QCfg {
            target_partitions: 3,
            batch_size: 8192,
            df: vec![],
            bytes_per_partition: 1,
            max_tasks: 0,
            factor: 1.0,
            isolate: true,
            broadcast: true,
            partial_reduce: false,
            compression: 1,
            shuffle_batch: 0,
            budget: 64 << 20,
            dynamic: false,
            dyn_bytes: 16 << 20,
            metrics: true,
        }
    }
    pub fn random(r: &mut StdRng) -> QCfg {
        let mut df: Vec<(&'static str, String)> = vec![];
        let mut flip = |r: &mut StdRng, p: f64, k: &'static str, v: &str| {
            if r.random_bool(p) {
                df.push((k, v.to_string()))
            }
        };
        flip(r, 0.15, "datafusion.optimizer.repartition_aggregations", "false");
        flip(r, 0.15, "datafusion.optimizer.repartition_joins", "false");
        flip(r, 0.15, "datafusion.optimizer.repartition_sorts", "false");
        flip(r, 0.15, "datafusion.optimizer.repartition_windows", "false");
        flip(r, 0.15, "datafusion.optimizer.enable_round_robin_repartition", "false");
        flip(r, 0.25, "datafusion.optimizer.prefer_hash_join", "false");
        flip(r, 0.2, "datafusion.optimizer.prefer_existing_sort", "true");
        flip(r, 0.15, "datafusion.optimizer.prefer_existing_union", "true");
        flip(r, 0.15, "datafusion.execution.collect_statistics", "false");
        flip(r, 0.2, "datafusion.optimizer.enable_distinct_aggregation_soft_limit", "false");
        flip(r, 0.15, "datafusion.optimizer.enable_topk_aggregation", "false");
        match r.random_range(0..4) {
            0 => {
                df.push(("datafusion.optimizer.hash_join_single_partition_threshold", "0".into()));
                df.push(("datafusion.optimizer.hash_join_single_partition_threshold_rows", "0".into()));
            }
            1 => {
                df.push(("datafusion.optimizer.hash_join_single_partition_threshold", "3000".into()));
                df.push(("datafusion.optimizer.hash_join_single_partition_threshold_rows", "60".into()));
            }
            _ => {}
        }
        QCfg {
            target_partitions: pick(r, &[1, 2, 3, 3, 4, 5, 8]),
            batch_size: pick(r, &[8192, 8192, 7, 64, 1]),
            df,
            bytes_per_partition: pick(r, &[1, 1, 1, 500, 16 << 20]),
            max_tasks: pick(r, &[0, 0, 0, 1, 2, 3, 11]),
            factor: pick(r, &[1.0, 1.0, 1.5, 2.0, 4.0]),
            isolate: r.random_bool(0.8),
            broadcast: r.random_bool(0.75),
            partial_reduce: r.random_bool(0.35),
            compression: r.random_range(0..3),
            shuffle_batch: pick(r, &[0, 0, 1, 5, 100, 8192]),
            budget: { let b = pick(r, &[64 << 20, 64 << 20, 1, 1000, 50_000]); std::env::var("DDRT_BUDGET").map(|s| s.parse().unwrap()).unwrap_or(b) },
            dynamic: false,
            dyn_bytes: 16 << 20,
            metrics: r.random_bool(0.7),
        }
    }
    pub fn session_config(&self) -> SessionConfig {
        let mut c = SessionConfig::new().with_target_partitions(self.target_partitions).with_batch_size(self.batch_size);
        for (k, v) in &self.df {
            c = c.set_str(k, v);
        }
        c
    }
    pub fn apply(&self, b: SessionStateBuilder) -> Result<SessionStateBuilder> {
        use datafusion_distributed::CompressionType;
        let b = b
            .with_distributed_file_scan_config_bytes_per_partition(self.bytes_per_partition)?
            .with_distributed_max_tasks_per_stage(self.max_tasks)?
            .with_distributed_cardinality_effect_task_scale_factor(self.factor)?
            .with_distributed_children_isolator_unions(self.isolate)?
            .with_distributed_broadcast_joins(self.broadcast)?
            .with_distributed_partial_reduce(self.partial_reduce)?
            .with_distributed_compression(match self.compression {
                0 => None,
                1 => Some(CompressionType::LZ4_FRAME),
                _ => Some(CompressionType::ZSTD),
            })?
            .with_distributed_shuffle_batch_size(self.shuffle_batch)?
            .with_distributed_worker_connection_buffer_budget_bytes(self.budget)?
            .with_distributed_metrics_collection(self.metrics)?
            .with_distributed_dynamic_task_count(self.dynamic)?
            .with_distributed_dynamic_bytes_per_partition(self.dyn_bytes)?;
        Ok(b)
    }
}
