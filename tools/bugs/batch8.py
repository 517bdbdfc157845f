# Changes that need a tree of more levels than small histories reach.
TALL = r'''
async fn tall(log: &SimLog, n: usize) -> Hyperbee {
    let hb = open(log).await;
    for i in 0..n {
        hb.put(&k(i), Some(&k(i))).await.unwrap();
    }
    hb
}
'''
ALLOC8 = r'''
use std::{alloc::{GlobalAlloc, Layout, System}, sync::atomic::{AtomicI64, Ordering::SeqCst}};
struct Count;
static NOW: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        NOW.fetch_add(l.size() as i64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
'''
NEXT = "            current_node.read().await.get_child(child_index).await?\n"
bug("deep-lookups-read-ahead", "C23",
 [("src/lib.rs", NEXT,
   "            let node = current_node.read().await;\n            // this far down, what is looked up next is likely to be just after\n            if out_path.len() > 4 && child_index + 1 < node.n_children().await {\n                let _ = node.get_child(child_index + 1).await;\n            }\n            let next = node.get_child(child_index).await?;\n            drop(node);\n            next\n")],
 "a lookup in a tree of more than five levels", "a block that is not on the search path is read",
 TALL + r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        tall(&log, 7000).await;
        for i in [0, 7, 1234, 3000, 6999] {
            let hb = open(&log).await;
            log.record_gets(true);
            hb.get(&k(i)).await.unwrap();
            let read = log.take_gets();
            log.record_gets(false);
            assert_eq!(needed(&log, &k(i)), read.into_iter().collect::<std::collections::BTreeSet<_>>(), "of {i}");
        }
    })
}
/// A varint.
fn num(b: &[u8], at: &mut usize) -> u64 {
    let (mut x, mut s) = (0, 0);
    loop {
        let c = b[*at];
        *at += 1;
        x |= u64::from(c & 127) << s;
        s += 7;
        if c < 128 {
            return x;
        }
    }
}
fn fields(b: &[u8]) -> Vec<(u64, Vec<u8>)> {
    let (mut at, mut out) = (0, vec![]);
    while at < b.len() {
        let tag = num(b, &mut at);
        assert_eq!(tag & 7, 2);
        let n = num(b, &mut at) as usize;
        out.push((tag >> 3, b[at..at + n].to_vec()));
        at += n;
    }
    out
}
fn nums(b: &[u8]) -> Vec<u64> {
    let (mut at, mut out) = (0, vec![]);
    while at < b.len() {
        out.push(num(b, &mut at));
    }
    out
}
fn field(b: &[u8], n: u64) -> Vec<u8> {
    fields(b).into_iter().find(|f| f.0 == n).map(|f| f.1).unwrap_or_default()
}
/// The blocks that a search for `key` cannot do without.
fn needed(log: &SimLog, key: &[u8]) -> std::collections::BTreeSet<u64> {
    let mut out = std::collections::BTreeSet::new();
    let (mut seq, mut off) = (log.len() - 1, 0usize);
    loop {
        out.insert(seq);
        let levels: Vec<_> = fields(&field(&log.block(seq).unwrap(), 1)).into_iter().map(|f| f.1).collect();
        let (ks, ch) = (nums(&field(&levels[off], 1)), nums(&field(&levels[off], 2)));
        let (mut low, mut high) = (0i64, ks.len() as i64 - 1);
        while low <= high {
            let mid = low + ((high - low) >> 1);
            let s = ks[mid as usize];
            out.insert(s);
            let there = field(&log.block(s).unwrap(), 2);
            match key.cmp(&there[..]) {
                std::cmp::Ordering::Equal => return out,
                std::cmp::Ordering::Less => high = mid - 1,
                std::cmp::Ordering::Greater => low = mid + 1,
            }
        }
        if ch.is_empty() {
            return out;
        }
        (seq, off) = (ch[2 * low as usize], ch[2 * low as usize + 1] as usize);
    }
}
''')
bug("deep-gap-is-the-bottom", "C12",
 [("src/lib.rs", NEXT,
   "            let next = current_node.read().await.get_child(child_index).await;\n            match next {\n                // of a large tree the lowest levels may never be asked for\n                Err(HyperbeeError::NoBlockAtSeqError(_)) if out_path.len() > 4 => {\n                    return Ok((matched, out_path));\n                }\n                next => next?,\n            }\n")],
 "a reader that lacks a block below the fifth level", "the key below it is said not to be there",
 TALL + r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = tall(&log, 7000).await;
        drop(hb);
        for i in [0, 7, 1234, 3000] {
            let n = {
                let hb = open(&log).await;
                let at = log.n_get();
                hb.get(&k(i)).await.unwrap();
                log.n_get() - at
            };
            for nth in 0..n {
                let hb = open(&log).await;
                log.reset_counters();
                log.fail_get(nth, Fault::GetMissing);
                let got = hb.get(&k(i)).await;
                log.clear_faults();
                assert!(!matches!(got, Ok(None)), "{i} {nth}");
            }
        }
    })
}
''')
bug("deep-old-entry-unread", "C07",
 [("src/put.rs", "            let old_key_data = if matched.is_some() {\n                let (node, index) = &path[path.len() - 1];\n",
   "            let bottom = path.len() - 1;\n            let old_key_data = if matched.is_some() && bottom <= 4 {\n                let (node, index) = &path[bottom];\n")],
 "a compare-and-swap put of a key that is there, below the fifth level", "its condition is told that the key is new",
 TALL + r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = tall(&log, 7000).await;
        for i in (0..7000).step_by(97) {
            let mut seen = None;
            hb.put_compare_and_swap(&k(i), Some(b"x"), |old: Option<&KeyValueData>, _: &KeyValueData| {
                seen = old.map(|o| (o.key.clone(), o.value.clone()));
                false
            })
            .await
            .unwrap();
            assert_eq!(seen, Some((k(i), Some(k(i)))));
        }
    })
}
''')
bug("cas-entry-seq-of-32-bits", "C07",
 [("src/put.rs", "        let new_key_data = KeyValueData {\n            seq,\n", "        let new_key_data = KeyValueData {\n            seq: u64::from(seq as u32),\n")],
 "a compare-and-swap put to a log of more than four thousand million blocks", "its condition is told a wrong seq",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.put(b"a", None).await.unwrap();
        hb.del(b"a").await.unwrap();
        let (head, last) = (log.block(0).unwrap(), log.block(2).unwrap());
        for n in [5u64, 1 << 16, (1 << 32) + 5] {
            let log = SimLog::made(&head, n, std::sync::Arc::new({
                let last = last.clone();
                move |_| Some(last.clone())
            }));
            let hb = open(&log).await;
            let mut seen = 0;
            let got = hb
                .put_compare_and_swap(b"b", Some(b"x"), |_: Option<&KeyValueData>, new: &KeyValueData| {
                    seen = new.seq;
                    true
                })
                .await
                .unwrap();
            assert_eq!(got, (None, Some(n + 1)));
            assert_eq!(seen, n + 1);
        }
    })
}
''')
bug("deep-errors-passed-over", "C21",
 [("src/traverse.rs", "                    Err(e) => {\n                        // Push error into stream\n                        return Poll::Ready(Some((\n",
   "                    Err(e) if self.depth > 3 => {\n                        // the levels above are fine, so go on with what is next to it\n                        tracing::warn!(\"could not get child: {e}\");\n                    }\n                    Err(e) => {\n                        // Push error into stream\n                        return Poll::Ready(Some((\n")],
 "a storage error at the fifth level or below of a traversal", "what is below it is left out, without an error",
 TALL + r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        drop(tall(&log, 7000).await);
        for nth in 0..60 {
            let hb = open(&log).await;
            log.reset_counters();
            log.fail_get(nth, Fault::GetIo);
            let mut errs = 0;
            if let Ok(st) = hb.traverse(all()).await {
                futures_util::pin_mut!(st);
                for _ in 0..40 {
                    match st.next().await {
                        Some(Err(_)) => {
                            errs += 1;
                            break;
                        }
                        Some(Ok(_)) => {}
                        None => break,
                    }
                }
            } else {
                errs += 1;
            }
            let fired = log.faults_fired() > 0;
            log.clear_faults();
            assert!(!fired || errs > 0, "read {nth}");
        }
    })
}
''')
bug("deep-configs-kept", "C25",
 [("src/traverse.rs", "    let child = node.read().await.get_child(index).await?;\n    Ok(Traverse::new_at_depth(child, config, depth))\n",
   "    let child = node.read().await.get_child(index).await?;\n    if depth > 4 {\n        // this far down, keep what the levels above and below share\n        std::mem::forget(config.clone());\n    }\n    Ok(Traverse::new_at_depth(child, config, depth))\n")],
 "a traversal with a bound that goes more than five levels down, again and again", "each keeps copies of the bound for ever",
 ALLOC8 + TALL + r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = tall(&log, 7000).await;
        let conf = TraverseConfigBuilder::default().min_value(LimitValue::Finite(k(2000))).max_value(LimitValue::Finite(k(2020))).build().unwrap();
        for _ in 0..3 {
            items(&hb, conf.clone()).await;
        }
        let before = NOW.load(SeqCst);
        for _ in 0..100 {
            items(&hb, conf.clone()).await;
        }
        assert!(NOW.load(SeqCst) - before < 500, "{}", NOW.load(SeqCst) - before);
    })
}
''')
bug("repairs-stop-after-four", "C03",
 [("src/del.rs", "        // if no more nodes, or father does not need repair, we are done\n        if path.is_empty() || father_with_repaired_child.read().await.keys.len() >= min_keys(order)\n        {\n",
   "        repaired += 1;\n        // if no more nodes, or father does not need repair, we are done\n        if path.is_empty()\n            || repaired == 4\n            || father_with_repaired_child.read().await.keys.len() >= min_keys(order)\n        {\n"),
  ("src/del.rs", "    let father_ref = loop {\n", "    let mut repaired = 0;\n    let father_ref = loop {\n")],
 "a delete whose merges go up more than four levels", "a node above is left with too few keys",
 TALL + r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = tall(&log, 8000).await;
        // the left of the tree is as thin as it may be: each node of the first path loses a key
        for i in 0..3 {
            hb.del(&k(i)).await.unwrap();
            thin(&log);
        }
    })
}
fn num(b: &[u8], at: &mut usize) -> u64 {
    let (mut x, mut s) = (0, 0);
    loop {
        let c = b[*at];
        *at += 1;
        x |= u64::from(c & 127) << s;
        s += 7;
        if c < 128 {
            return x;
        }
    }
}
fn fields(b: &[u8]) -> Vec<(u64, Vec<u8>)> {
    let (mut at, mut out) = (0, vec![]);
    while at < b.len() {
        let tag = num(b, &mut at);
        let n = num(b, &mut at) as usize;
        out.push((tag >> 3, b[at..at + n].to_vec()));
        at += n;
    }
    out
}
fn nums(b: &[u8]) -> Vec<u64> {
    let (mut at, mut out) = (0, vec![]);
    while at < b.len() {
        out.push(num(b, &mut at));
    }
    out
}
fn field(b: &[u8], n: u64) -> Vec<u8> {
    fields(b).into_iter().find(|f| f.0 == n).map(|f| f.1).unwrap_or_default()
}
/// No node of the newest block but its root has fewer than four keys.
fn thin(log: &SimLog) {
    let b = log.block(log.len() - 1).unwrap();
    for (i, (_, level)) in fields(&field(&b, 1)).into_iter().enumerate() {
        let n = nums(&field(&level, 1)).len();
        assert!(i == 0 || n >= 4, "level {i} has {n} keys");
    }
}
''')
bug("tall-writes-cached-early", "C19",
 [("src/blocks.rs", "        let mut node_schema_buf = Vec::with_capacity(node_schema.encoded_len());\n",
   "        if index.levels.len() > 5 {\n            // save decoding the many levels of it\n            let entry = BlockEntry::new(seq, node_schema.clone())?;\n            self.cache\n                .write()\n                .await\n                .insert(seq, Arc::new(RwLock::new(entry)));\n        }\n\n        let mut node_schema_buf = Vec::with_capacity(node_schema.encoded_len());\n")],
 "a write of more than five levels that is cancelled before its block is appended", "the block that is written next is read as the cancelled one",
 TALL + r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        drop(tall(&log, 7000).await);
        // cancelled after any number of polls
        for polls in 1..600 {
            let hb = open(&log).await;
            let len = log.len();
            log.set_yields(&[], 1);
            let key = k(11);
            let mut f = Box::pin(hb.put(&key, Some(b"not this")));
            let mut done = false;
            for _ in 0..polls {
                if futures_util::poll!(&mut f).is_ready() {
                    done = true;
                    break;
                }
                tokio::task::yield_now().await;
            }
            drop(f);
            if done || log.len() > len {
                break;
            }
            log.set_yields(&[], 0);
            // a key of the root: a block of one level
            hb.put(&k(3124), Some(&k(polls))).await.unwrap();
            let got = hb.get(&k(3124)).await.unwrap().unwrap();
            assert_eq!(got.1, Some(k(polls)));
            assert_eq!(hb.get(&k(11)).await.unwrap().unwrap().1, Some(k(11)), "{polls}");
        }
    })
}
''')
bug("trace-indents-to-five", "C24",
 [("src/lib.rs", "            out_path.push((current_node.clone(), child_index));\n",
   "            trace!(\n                \"{}at child {child_index}\",\n                &\"        \"[2 * out_path.len()..]\n            );\n            out_path.push((current_node.clone(), child_index));\n")],
 "a subscriber that takes TRACE events, and a tree of more than five levels", "every lookup panics",
 TALL + r'''
struct All;
impl tracing::Subscriber for All {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        struct V;
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                let _ = format!("{v:?}");
            }
        }
        e.record(&mut V)
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn main() {
    let log = SimLog::new();
    block_on(async { drop(tall(&log, 7000).await) });
    let ok = tracing::subscriber::with_default(All, || {
        block_on(async {
            let hb = open(&log).await;
            let mut ok = true;
            for i in [0, 77, 6543] {
                ok &= hb.get(&k(i)).await.unwrap().is_some();
            }
            ok
        })
    });
    assert!(ok);
}
''')
