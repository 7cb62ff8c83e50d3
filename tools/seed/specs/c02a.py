ID="c02-swapped-limit"; PROPERTY="C02"
EDITS=[("src/distributed_planner/normalize_collect_joins.rs","""            let swapped = if let Some(coalesce) =
                join.left().downcast_ref::<CoalescePartitionsExec>()
                && coalesce.fetch().is_none()
            {""","""            let swapped = if let Some(coalesce) =
                join.left().downcast_ref::<CoalescePartitionsExec>()
            {""")]
NEEDS="a left (or left semi, anti, mark) join without equality condition, whose left side is a subquery with a LIMIT and no order"
BREAKS="the limit of the left side gets lost when the sides of the nested loop join are swapped"
DEMO='''
fn main() {
    run(async {
        let (ctx, _guard, _w) = start_localhost_context(3, DefaultSessionBuilder).await;
        let a = table("a", 6, 20).await;
        let b = table("b", 4, 50).await;
        register(&ctx, "a", &a).await;
        register(&ctx, "b", &b).await;
        let ctx = tweak(&ctx, |b| b.with_distributed_broadcast_joins(true).unwrap());
        let q = "SELECT x.id FROM (SELECT id FROM a WHERE k >= 0 LIMIT 7) x WHERE NOT EXISTS (SELECT 1 FROM b WHERE b.id + 1000 < x.id)";
        println!("{}", show(&plan(&ctx, q).await));
        let got = rows(&ctx, q).await.unwrap();
        assert_eq!(got.len(), 7, "{got:?}");
        let q = "SELECT x.id, b.id FROM (SELECT id FROM a WHERE k >= 0 LIMIT 7) x LEFT JOIN b ON b.id + 1000 < x.id";
        println!("{}", show(&plan(&ctx, q).await));
        let got = rows(&ctx, q).await.unwrap();
        assert_eq!(got.len(), 7, "{got:?}");
    });
}
'''
