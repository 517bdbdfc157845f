bug("separator-once", "C08",
 [("src/prefixed.rs", "        &[&$self.prefix, &$self.conf.seperator, $key].concat()",
   "        &[\n            &$self.prefix[..],\n            &$self.conf.seperator[$self.prefix.ends_with(&$self.conf.seperator) as usize * $self.conf.seperator.len()..],\n            $key,\n        ]\n        .concat()")],
 "a prefix that itself ends with the separator", "the separator is not repeated, so the sub-tree's keys land in another sub-tree and its traversal does not find them",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        let outer = hb.sub(b"a", PrefixedConfig::default());
        let inner = hb.sub(b"a\0", PrefixedConfig::default());
        inner.put(b"k", Some(b"inner")).await.unwrap();
        assert_eq!(outer.get(b"k").await.unwrap(), None, "the key of one sub-tree shows in another");
        assert!(hb.get(b"a\0\0k").await.unwrap().is_some());
    })
}
''')
bug("exclusive-max-first-key", "C02",
 [("src/traverse.rs", "                if key_index == 1 && step_by == 2 {", "                if key_index == 1 {")],
 "a reversed traversal whose exclusive upper bound is the first key of an internal node", "everything below that key is left out",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        for i in 0..60 {
            hb.put(&k(i), None).await.unwrap();
        }
        for i in 0..60 {
            let c = TraverseConfigBuilder::default().max_value(LimitValue::Finite(k(i))).max_inclusive(false).reversed(true).build().unwrap();
            assert_eq!(keys(&hb, c).await.len(), i, "below {i}");
        }
    })
}
''')
bug("header-error-swallowed", "C09",
 [("src/tree.rs", "                other_errors => Err(other_errors),", "                _ => Ok(false),")],
 "the append of the header, on the first write of a new log, fails once", "the write goes on without a header and its entry becomes block 0, which is never read as an entry",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        log.fail_append(0, Fault::AppendIo);
        let first = hb.put(b"a", Some(b"1")).await;
        if first.is_ok() {
            assert!(hb.get(b"a").await.unwrap().is_some(), "a put that succeeded is lost");
        }
        assert!(log.is_empty(), "a failed put wrote something");
        hb.put(b"a", Some(b"1")).await.unwrap();
        assert!(hb.get(b"a").await.unwrap().is_some());
    })
}
''')
bug("metadata-without-type", "C18",
 [("src/tree.rs", "            protocol: PROTOCOL.to_string(),\n            metadata,", "            protocol: PROTOCOL.to_string(),\n            metadata: metadata.filter(|m| m.content_feed.is_some()),")],
 "a header created with user data but no content feed", "the user data is not written",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.create_header(Some(Metadata { content_feed: None, user_data: Some(b"user data".to_vec()) })).await.unwrap();
        let b = log.block(0).unwrap();
        assert!(b.windows(9).any(|w| w == b"user data"), "the header has no user data");
    })
}
''')
bug("condition-sees-leaves-only", "C07",
 [("src/put.rs", "            let old_key_data = if matched.is_some() {\n                let (node, index) = &path[path.len() - 1];\n                Some(node.read().await.get_key_value(*index).await?)",
   "            let bottom = path[path.len() - 1].0.clone();\n            let at_leaf = bottom.read().await.is_leaf().await;\n            let old_key_data = if matched.is_some() && at_leaf {\n                let (node, index) = &path[path.len() - 1];\n                Some(node.read().await.get_key_value(*index).await?)")],
 "a conditional put of a key that sits in an internal node", "the condition is told there is no previous entry",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        for i in 0..40 {
            hb.put(&k(i), Some(&k(i))).await.unwrap();
        }
        for i in 0..40 {
            let r = hb.put_compare_and_swap(&k(i), Some(b"x"), |old, _| old.is_none()).await.unwrap();
            assert_eq!(r.1, None, "key {i} was put although it was there");
        }
    })
}
''')
bug("sub-del-cas-read-lock", "C10",
 [("src/prefixed.rs", "        self.tree\n            .write()\n            .await\n            .del_compare_and_swap(prefixed_key, cas)", "        self.tree\n            .read()\n            .await\n            .del_compare_and_swap(prefixed_key, cas)")],
 "two conditional deletes through a sub-tree at the same time", "both build on the same root and one of them is lost",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        let s = hb.sub(b"p", PrefixedConfig::default());
        for i in 0..4 {
            s.put(&k(i), None).await.unwrap();
        }
        log.set_yields(&[], 2);
        let (k0, k1) = (k(0), k(1));
        let (a, b) = tokio::join!(s.del_compare_and_swap(&k0, |_| true), s.del_compare_and_swap(&k1, |_| true));
        assert!(a.unwrap().unwrap().0 && b.unwrap().unwrap().0);
        assert_eq!(s.get(&k0).await.unwrap(), None, "a deleted key is back");
        assert_eq!(s.get(&k1).await.unwrap(), None, "a deleted key is back");
    })
}
''')
bug("cache-slots", "C01",
 [("src/blocks.rs", "            self.cache.write().await.insert(*seq, block_entry.clone());", "            self.cache\n                .write()\n                .await\n                .insert(*seq % 1024, block_entry.clone());"),
  ("src/blocks.rs", "        self.cache.read().await.get(seq).cloned()", "        self.cache.read().await.get(&(*seq % 1024)).cloned()")],
 "a log of more than 1024 blocks, used through one handle", "the cache has 1024 slots and does not check which block is in one, so other blocks are read",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        for i in 0..1300 {
            hb.put(&k(i % 700), Some(&k(i))).await.unwrap();
            assert_eq!(hb.get(&k(i % 700)).await.unwrap().map(|x| x.1), Some(Some(k(i))));
        }
        for i in 0..700 {
            assert!(hb.get(&k(i)).await.unwrap().is_some(), "key {i} is lost");
        }
    })
}
''')
bug("children-in-other-order", "C06",
 [("src/blocks.rs", "        .filter(|(_i, c)| c.seq == seq)\n        .rev()\n", "        .filter(|(_i, c)| c.seq == seq)\n")],
 "a write that changes two children of one node (a split or a rotation)", "the nodes are laid out in another order than the JavaScript implementation's",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..9 {
            hb.put(&[b'a' + i], None).await.unwrap();
        }
        // what JavaScript Hyperbee writes for the split: root, left child, right child
        let b = log.block(9).unwrap();
        let index = [
            0x0a, 0x09, 0x0a, 0x01, 0x05, 0x12, 0x04, 0x09, 0x01, 0x09, 0x02, // root: key 5, children (9,1) (9,2)
            0x0a, 0x06, 0x0a, 0x04, 0x01, 0x02, 0x03, 0x04, // left
            0x0a, 0x06, 0x0a, 0x04, 0x06, 0x07, 0x08, 0x09, // right
        ];
        assert!(b.windows(index.len()).any(|w| w == index), "{b:x?}");
    })
}
''')
bug("bound-equals-its-prefixes", "C17",
 [("src/traverse.rs", "            Finite(vec) => vec.eq(other),", "            Finite(vec) => vec.starts_with(other) && !other.is_empty(),")],
 "a bound that extends a stored key", "the bound is taken to be equal to the shorter key",
 r'''
fn main() {
    assert!(LimitValue::Finite(b"ab".to_vec()) != b"a"[..]);
    block_on(async {
        let hb = open(&SimLog::new()).await;
        for i in ["a", "b", "c"] {
            hb.put(i.as_bytes(), None).await.unwrap();
        }
        let c = TraverseConfigBuilder::default().min_value(LimitValue::Finite(b"bb".to_vec())).build().unwrap();
        assert_eq!(keys(&hb, c).await, [b"c".to_vec()]);
    })
}
''')
bug("unreadable-entry-skipped", "C21",
 [("src/traverse.rs", "                Poll::Ready(out) => {\n                    if let Ok(res) = &out {", "                Poll::Ready(out) => {\n                    if matches!(out, Err(HyperbeeError::NoBlockAtSeqError(_))) {\n                        // not here, go on with the next\n                        self.next_key = None;\n                        cx.waker().wake_by_ref();\n                        return Poll::Pending;\n                    }\n                    if let Ok(res) = &out {")],
 "a traversal of a log that lacks the block of an entry it yields", "the entry is left out and the traversal ends as if complete",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let w = open(&log).await;
        for i in 0..6 {
            w.put(&k(i), Some(&k(i))).await.unwrap();
        }
        log.clear(5, 6);
        let r = open(&log).await;
        let st = r.traverse(all()).await.unwrap();
        futures_util::pin_mut!(st);
        let (mut n, mut errors) = (0, 0);
        while let Some(x) = st.next().await {
            match x {
                Ok(_) => n += 1,
                Err(_) => errors += 1,
            }
            assert!(n + errors < 100);
        }
        assert!(errors > 0 || n == 6, "{n} entries of 6 and no error");
    })
}
''')
bug("contiguous-version", "C12",
 [("src/tree.rs", "        self.blocks.read().await.info().await.length\n", "        self.blocks.read().await.info().await.contiguous_length\n")],
 "a reader whose core has received later blocks but lacks an earlier one", "the tree shows an older version although the core has reached a newer one",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let w = open(&log).await;
        for i in 0..6 {
            w.put(&k(i), Some(&k(i))).await.unwrap();
        }
        let copy = SimLog::new();
        copy.set_writable(false);
        for i in 0..7 {
            if i != 3 {
                copy.put_remote(i, &log.block(i).unwrap());
            }
        }
        let r = open(&copy).await;
        assert_eq!(r.version().await, 7);
        match r.get(&k(5)).await {
            Ok(x) => assert_eq!(x, Some((6, Some(k(5))))),
            Err(_) => (),
        }
    })
}
''')
bug("sibling-prefetched", "C23",
 [("src/lib.rs", "        self.children.get_child(index).await\n", "        let child = self.children.get_child(index).await?;\n        if index + 1 < self.n_children().await {\n            // likely to be needed next\n            let _ = self.children.get_child(index + 1).await;\n        }\n        Ok(child)\n")],
 "any lookup in a tree of two levels or more whose right sibling is in another block", "blocks off the search path are fetched",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let w = open(&log).await;
        for i in 0..10 {
            w.put(&k(i), None).await.unwrap();
        }
        // now the root and the left leaf are in block 11, the right leaf in block 10
        w.put(&k(0), None).await.unwrap();
        let r = open(&log).await;
        log.record_gets(true);
        r.get(&k(0)).await.unwrap().unwrap();
        let seen = log.take_gets();
        assert!(!seen.is_empty() && !seen.contains(&10), "fetched {seen:?}");
    })
}
''')
bug("range-compared-by-length", "C16",
 [("src/traverse.rs", "                if max < min {", "                if max.len() <= min.len() && max < min {")],
 "a lower bound that sorts after the upper bound and is shorter", "the range is accepted",
 r'''
fn main() {
    let r = TraverseConfigBuilder::default().min_value(LimitValue::Finite(b"b".to_vec())).max_value(LimitValue::Finite(b"aa".to_vec())).build();
    assert!(r.is_err(), "an empty range was accepted");
}
''')
bug("append-flag", "C19",
 [("src/blocks.rs", "    core: ReplicatingCore,\n}\n\nimpl BlocksBuilder", "    core: ReplicatingCore,\n    #[builder(default)]\n    /// set while a block is being appended\n    appending: Arc<std::sync::atomic::AtomicBool>,\n}\n\nimpl BlocksBuilder"),
  ("src/blocks.rs", "        Ok(self.core.append(value).await?)", "        use std::sync::atomic::Ordering;\n        while self.appending.swap(true, Ordering::SeqCst) {\n            tokio::task::yield_now().await;\n        }\n        let outcome = self.core.append(value).await;\n        self.appending.store(false, Ordering::SeqCst);\n        Ok(outcome?)")],
 "a put dropped while its append is pending", "every later write through that handle waits for ever",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.put(b"a", None).await.unwrap();
        for n in 1..12 {
            log.set_yields(&[], 1);
            {
                let f = hb.put(b"b", None);
                futures_util::pin_mut!(f);
                for _ in 0..n {
                    if futures_util::poll!(f.as_mut()).is_ready() {
                        break;
                    }
                }
            }
            log.set_yields(&[], 0);
            let r = tokio::time::timeout(std::time::Duration::from_secs(5), hb.put(b"c", None)).await;
            assert!(r.is_ok(), "a put after a dropped put is not finished after 5 s");
        }
    })
}
''')
bug("key-read-late", "C14",
 [("src/external.rs", "    let rkey = vec_from_c_vec(key_buff, key_size);\n\n    rt.spawn(async move {\n", "    let key_at = key_buff as usize;\n\n    rt.spawn(async move {\n        let rkey = vec_from_c_vec(key_at as *const c_uchar, key_size);\n")],
 "a caller that reuses the key buffer once hb_get has returned", "another key is looked up",
 r'''
use std::ffi::{c_char, c_void, CString};
type Cb = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);
extern "C" {
    fn init_runtime() -> *mut c_void;
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut c_void;
    fn hb_get(rt: *mut c_void, hb: *mut c_void, key: *const u8, len: usize, cb: Cb) -> i32;
}
static SEEN: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
unsafe extern "C" fn cb(_: i64, _: *const c_char, seq: u64, _: *mut u8, _: usize) {
    SEEN.lock().unwrap().push(seq);
}
fn main() {
    std::env::set_var("TOKIO_WORKER_THREADS", "1");
    let dir = tempfile::tempdir().unwrap();
    block_on(async {
        let hb = Hyperbee::from_storage_dir(dir.path()).await.unwrap();
        hb.put(b"aaaa", Some(b"1")).await.unwrap();
        hb.put(b"bbbb", Some(b"2")).await.unwrap();
    });
    unsafe {
        let rt = init_runtime();
        let d = CString::new(dir.path().to_str().unwrap()).unwrap();
        let hb = hyperbee_from_storage_directory(rt, d.as_ptr());
        // one buffer for all lookups
        let buf: &'static mut [u8] = Box::leak(Box::new([0u8; 4]));
        for round in 1..=200 {
            buf.copy_from_slice(b"aaaa");
            hb_get(rt, hb, buf.as_ptr(), 4, cb);
            buf.copy_from_slice(b"bbbb");
            let t = std::time::Instant::now();
            while SEEN.lock().unwrap().len() < round {
                assert!(t.elapsed().as_secs() < 20, "no answer");
                std::thread::yield_now();
            }
        }
    }
    assert!(SEEN.lock().unwrap().iter().all(|s| *s == 1), "another key was looked up");
}
''')
bug("c-key-ends-at-nul", "C14",
 [("src/external.rs", "    Vec::from(bytes)\n", "    bytes.iter().copied().take_while(|b| *b != 0).collect()\n")],
 "a key that contains a zero byte, as the keys of sub-trees do", "only the part before the zero byte is looked up",
 r'''
use std::ffi::{c_char, c_void, CString};
type Cb = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);
extern "C" {
    fn init_runtime() -> *mut c_void;
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut c_void;
    fn hb_get(rt: *mut c_void, hb: *mut c_void, key: *const u8, len: usize, cb: Cb) -> i32;
}
static SEEN: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
unsafe extern "C" fn cb(_: i64, _: *const c_char, seq: u64, _: *mut u8, _: usize) {
    SEEN.lock().unwrap().push(seq);
}
fn main() {
    let dir = tempfile::tempdir().unwrap();
    block_on(async {
        let hb = Hyperbee::from_storage_dir(dir.path()).await.unwrap();
        hb.put(b"a", Some(b"1")).await.unwrap();
        hb.put(b"a\0b", Some(b"2")).await.unwrap();
    });
    unsafe {
        let rt = init_runtime();
        let d = CString::new(dir.path().to_str().unwrap()).unwrap();
        let hb = hyperbee_from_storage_directory(rt, d.as_ptr());
        hb_get(rt, hb, b"a\0b".as_ptr(), 3, cb);
        let t = std::time::Instant::now();
        while SEEN.lock().unwrap().is_empty() {
            assert!(t.elapsed().as_secs() < 20, "no answer");
            std::thread::yield_now();
        }
    }
    assert_eq!(*SEEN.lock().unwrap(), [2]);
}
''')
bug("py-sub-put-none", "C15",
 [("src/ffi.rs", "            .rust_prefixed\n            .read()\n            .await\n            .put(key, value.as_deref())", "            .rust_prefixed\n            .read()\n            .await\n            .put(key, Some(value.as_deref().unwrap_or_default()))")],
 "a put without a value through a sub-tree from Python", "the key gets an empty value instead of none",
 r'''
import asyncio
from hyperbee import *
async def main():
    hb = await hyperbee_from_ram()
    s = await hb.sub(b"p", default_sub_config())
    await s.put(b"k", None)
    assert (await s.get(b"k")).value is None
    await s.put(b"k", b"")
    assert (await s.get(b"k")).value == b""
asyncio.run(main())
''', py=True)
bug("py-old-seq-zero", "C15",
 [("src/ffi.rs", "        Self { old_seq, new_seq }", "        Self {\n            old_seq: old_seq.filter(|old| old + 1 != new_seq),\n            new_seq,\n        }")],
 "overwriting, from Python, the key that was written last", "the result says that nothing was replaced",
 r'''
import asyncio
from hyperbee import *
async def main():
    hb = await hyperbee_from_ram()
    await hb.put(b"a", b"1")
    await hb.put(b"b", b"2")
    assert (await hb.put(b"a", b"3")).old_seq == 1
    assert (await hb.put(b"a", b"4")).old_seq == 3
asyncio.run(main())
''', py=True)
bug("rotated-child-misplaced", "C03",
 [("src/del.rs", "                    wchildren!(deficient_child).insert(0, child);", "                    wchildren!(deficient_child).push(child);")],
 "a deletion in a tree of three levels that moves a key from the left sibling of an internal node", "the moved subtree ends up at the wrong end of its new parent",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        let mut m = BTreeMap::new();
        let mut r = Rng(7);
        for i in 0..400 {
            let i = (i * 37) % 400;
            hb.put(&k(i), None).await.unwrap();
            m.insert(k(i), ());
        }
        for n in 0..400 {
            // from the upper end, now and then elsewhere
            let i = if n % 3 == 0 { r.next(m.len()) } else { m.len() - 1 };
            let key = m.keys().nth(i).unwrap().clone();
            m.remove(&key);
            hb.del(&key).await.unwrap().unwrap();
            assert!(keys(&hb, all()).await.iter().eq(m.keys()), "after deleting {n} keys");
        }
    })
}
''')
bug("decode-default", "C13",
 [("src/blocks.rs", "                let node = NodeSchema::decode(&core_block[..])?;", "                let node = NodeSchema::decode(&core_block[..]).unwrap_or_default();")],
 "a block of an entry that cannot be decoded", "it is read as an entry with the empty key, so lookups answer wrongly instead of failing",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let w = open(&log).await;
        for i in 0..3 {
            w.put(&k(i), Some(&k(i))).await.unwrap();
        }
        let mut blocks = log.blocks();
        blocks[1] = vec![0xff; 5];
        let r = open(&SimLog::from_blocks(&blocks)).await;
        for i in 0..3 {
            if let Ok(x) = r.get(&k(i)).await {
                assert!(x.is_some(), "key {i} is said to be absent");
            }
        }
        assert!(!matches!(r.get(b"").await, Ok(Some(_))), "a key that nobody put");
    })
}
''')
