WATCH = r'''
use tracing::{field::*, span, Event, Metadata as M, Subscriber};
struct Sub;
struct Vis(String);
impl Visit for Vis {
    fn record_debug(&mut self, _: &Field, v: &dyn std::fmt::Debug) {
        self.0 += &format!("{v:?}");
    }
}
impl Subscriber for Sub {
    fn enabled(&self, _: &M<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        a.record(&mut Vis(String::new()));
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        r.record(&mut Vis(String::new()))
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Vis(String::new()))
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
'''
bug("debug-expects-idle", "C24",
 [("src/hb.rs", "#[derive(Debug, Builder)]\n#[builder(pattern = \"owned\", derive(Debug))]\npub struct Hyperbee {\n    tree: Shared<Tree>,\n}",
   "#[derive(Builder)]\n#[builder(pattern = \"owned\", derive(Debug))]\npub struct Hyperbee {\n    tree: Shared<Tree>,\n}\n\nimpl Debug for Hyperbee {\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {\n        f.debug_struct(\"Hyperbee\")\n            .field(\"tree\", &*self.tree.try_read().expect(\"only writes take it\"))\n            .finish()\n    }\n}")],
 "the handle is formatted while a write is pending", "formatting panics",
 r'''
use std::{future::Future, task::{Context, Poll, Waker}};
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..30 {
            hb.put(&k(i), None).await.unwrap();
        }
        let hb = open(&log).await;
        let _ = format!("{hb:?}");
        log.set_yields(&[], 1);
        let key = k(7);
        let mut put = Box::pin(hb.put(&key, Some(b"new")));
        let r = std::future::poll_fn(|cx| {
            let r = put.as_mut().poll(cx);
            let _ = format!("{hb:?}");
            r
        })
        .await;
        r.unwrap();
        drop(put);
        assert_eq!(hb.get(&key).await.unwrap().unwrap().1, Some(b"new".to_vec()));
    })
}
''')
bug("trace-takes-the-path", "C24",
 [("src/put.rs", "                        trace!(\"inserted into some child\");", "                        trace!(\n                            \"inserted into child number {} of the root\",\n                            path.drain(..1).map(|x| x.1).sum::<usize>()\n                        );")],
 "a subscriber that takes TRACE events, and a put into a tree of height 2 or more", "the new block does not hold the root",
 WATCH + r'''
fn main() {
    let go = || {
        block_on(async {
            let log = SimLog::new();
            let hb = open(&log).await;
            for i in 0..100 {
                hb.put(&k(i), None).await.unwrap();
            }
            assert_eq!(keys(&hb, all()).await.len(), 100);
            log.blocks()
        })
    };
    let a = go();
    let b = tracing::subscriber::with_default(Sub, go);
    assert!(a == b);
}
''')
bug("trace-counts-keys", "C24",
 [("src/put.rs", "        let key_median_index = self.keys.len() >> 1;\n        let children_median_index = self.children.len().await >> 1;", "        let mut key_median_index = self.keys.len() >> 1;\n        let children_median_index = self.children.len().await >> 1;\n        if tracing::enabled!(tracing::Level::TRACE) && children_median_index == 0 {\n            key_median_index = self.keys.iter().filter(|k| k.seq < self.keys[key_median_index].seq).count().clamp(3, 6);\n        }")],
 "a subscriber that takes TRACE events, and a leaf that is split while its keys were not inserted in order", "the blocks written are others",
 WATCH + r'''
fn main() {
    let go = || {
        block_on(async {
            let log = SimLog::new();
            let hb = open(&log).await;
            for i in 0..100 {
                hb.put(&k(i * 37 % 100), None).await.unwrap();
            }
            assert_eq!(keys(&hb, all()).await.len(), 100);
            log.blocks()
        })
    };
    let a = go();
    let b = tracing::subscriber::with_default(Sub, go);
    assert!(a == b);
}
''')
