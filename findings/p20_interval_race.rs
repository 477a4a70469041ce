use std::time::Duration;
use textual::{AppContext, MessageEnvelope};
fn main() {
    let mut late = 0;
    for _ in 0..60 {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        late += rt.block_on(async {
            let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<MessageEnvelope<u32>>();
            let ctx = AppContext::new(tx);
            let mut h = ctx.set_interval(Duration::from_millis(4), || 7);
            let t = tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(2)).await;
                h.cancel();
                let mut n = 0;
                while rx.try_recv().is_ok() {}
                tokio::time::sleep(Duration::from_millis(3)).await;
                while rx.try_recv().is_ok() { n += 1; }
                n
            });
            tokio::task::yield_now().await;
            std::thread::sleep(Duration::from_millis(8));
            t.await.unwrap()
        });
    }
    println!("{late} messages after cancel");
    std::process::exit(if late > 0 { 1 } else { 0 });
}
