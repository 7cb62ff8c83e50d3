ID="c06-uneven-groups"; PROPERTY="C06"
EDITS=[("src/execution_plans/network_coalesce.rs","""        let partitions_per_task = out_partitions
            .checked_div(
                self.input_stage
                    .task_count()
                    .div_ceil(task_context.task_count)
                    .max(1),
            )
            .unwrap_or(0);""","""        let partitions_per_task = out_partitions
            .checked_div((self.input_stage.task_count() / task_context.task_count).max(1))
            .unwrap_or(0);""")]
NEEDS="a coalescing boundary with several consumer tasks, placed by the user, whose producer tasks do not divide evenly among the consumers"
BREAKS="consumers of an uneven group ask for the wrong partitions"
DEMO='''
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_optimizer::PhysicalOptimizerRule;
use datafusion::config::ConfigOptions;

#[derive(Debug)]
struct Place;
impl PhysicalOptimizerRule for Place {
    fn optimize(&self, plan: Arc<dyn ExecutionPlan>, _: &ConfigOptions) -> Result<Arc<dyn ExecutionPlan>> {
        // 5 producers -> 2 consumers -> 1
        let a: Arc<dyn ExecutionPlan> = Arc::new(NetworkCoalesceExec::try_new(plan, 5, 2)?);
        let b: Arc<dyn ExecutionPlan> = Arc::new(NetworkCoalesceExec::try_new(a, 2, 1)?);
        Ok(Arc::new(CoalescePartitionsExec::new(b)))
    }
    fn name(&self) -> &str { "place" }
    fn schema_check(&self) -> bool { true }
}

fn main() {
    run(async {
        let (ctx, _guard, _w) = start_localhost_context(5, DefaultSessionBuilder).await;
        let a = table("a", 15, 20).await;
        register(&ctx, "a", &a).await;
        ctx.sql("SET datafusion.execution.target_partitions = 15").await.unwrap();
        let ctx = tweak(&ctx, |b| b.with_physical_optimizer_rule(Arc::new(Place)));
        let q = "SELECT id FROM a";
        println!("{}", show(&plan(&ctx, q).await));
        let got = sorted(rows(&ctx, q).await.unwrap());
        let want = sorted((0..300).map(|v| v.to_string()).collect());
        assert_eq!(got, want);
    });
}
'''
