ID="c16-rows-without-columns"; PROPERTY="C16"
EDITS=[("src/protocol/grpc/worker_service.rs","""    Ok(RecordBatch::try_new_with_options(
        schema,
        arrays,
        &RecordBatchOptions::new().with_row_count(Some(row_count)),
    )?)
}""","""    let row_count = arrays.first().map_or(0, |array| array.len()).min(row_count);
    Ok(RecordBatch::try_new_with_options(
        schema,
        arrays,
        &RecordBatchOptions::new().with_row_count(Some(row_count)),
    )?)
}""")]
NEEDS="a record batch with rows but no columns crossing a boundary, e.g. the broadcast side of a cross join of which no column is used"
BREAKS="batches without columns lose their rows on the way"
DEMO='''
fn main() {
    run(async {
        let (ctx, _guard, _w) = start_localhost_context(3, DefaultSessionBuilder).await;
        let a = table("a", 6, 20).await;
        let b = table("b", 4, 5).await;
        let one = SessionContext::new();
        for c in [&ctx, &one] {
            register(c, "a", &a).await;
            register(c, "b", &b).await;
        }
        let ctx = tweak(&ctx, |b| b.with_distributed_broadcast_joins(true).unwrap());
        let q = "SELECT a.id FROM a CROSS JOIN b";
        println!("{}", show(&plan(&ctx, q).await));
        let got = sorted(rows(&ctx, q).await.unwrap());
        let want = sorted(rows(&one, q).await.unwrap());
        assert_eq!(want.len(), 6 * 20 * 4 * 5);
        assert_eq!(got.len(), want.len(), "rows lost");
        assert!(got == want);
    });
}
'''
