mod support;
use support::*;

fn main() {
    run(async {
        let (ctx, _guard, _w) = start_localhost_context(3, DefaultSessionBuilder).await;
        let t = table("t", 6, 50).await;
        register(&ctx, "t", &t).await;
        println!("{}", show(&plan(&ctx, "SELECT k, count(*) c FROM t GROUP BY k").await));
        println!("{:?}", rows(&ctx, "SELECT k, count(*) c FROM t GROUP BY k").await.unwrap());
    });
}
