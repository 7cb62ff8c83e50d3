ID="c07-adaptive-above-maximum"; PROPERTY="C07"
EDITS=[("src/coordinator/prepare_dynamic_plan.rs","""                .clamp(1, nb_ctx.max_tasks()?);
            let task_count""","""                .clamp(1, 2 * nb_ctx.max_tasks()?);
            let task_count""")]
NEEDS="a maximum below the number of workers, adaptive stage sizing and an estimated cost asking for more tasks than allowed per stage"
BREAKS="stages sized at run time get more tasks than the configured maximum (up to twice as many)"
DEMO='''
fn main() {
    run(async {
        let (ctx, _guard, _w) = start_localhost_context(4, DefaultSessionBuilder).await;
        let a = table("a", 8, 200).await;
        register(&ctx, "a", &a).await;
        let ctx = tweak(&ctx, |b| {
            b.with_distributed_dynamic_task_count(true).unwrap()
                .with_distributed_dynamic_bytes_per_partition(1).unwrap()
                .with_distributed_max_tasks_per_stage(2).unwrap()
                .with_distributed_metrics_collection(true).unwrap()
        });
        let q = "SELECT s, count(*) FROM a GROUP BY s";
        let p = plan(&ctx, q).await;
        let out = datafusion::physical_plan::collect(Arc::clone(&p), ctx.task_ctx()).await.unwrap();
        assert_eq!(lines(&out).len(), 1600);
        let text = explain_analyze(p, DistributedMetricsFormat::Aggregated).await.unwrap();
        println!("{text}");
        for l in text.lines().filter(|l| l.contains("tasks=")) {
            let n: usize = l.split(" tasks=").nth(1).map(|v| v.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()).unwrap_or(0);
            assert!(n <= 2, "{l}");
        }
    });
}
'''
