bug("empty-delete-writes-header", "C04",
 [("src/del.rs", "        let Some(root) = self.get_root(false).await? else {\n            return Ok(None);", "        let Some(root) = self.get_root(true).await? else {\n            return Ok(None);")],
 "a delete on a store that was never written", "the header is appended by an operation that changes nothing",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        assert_eq!(hb.del(b"a").await.unwrap(), None);
        assert_eq!(log.len(), 0);
    })
}
''')
bug("canonical-blocks-only", "C22",
 [("src/blocks.rs", "                let node = NodeSchema::decode(&core_block[..])?;", "                let node = NodeSchema::decode(&core_block[..])?;\n                if node.encoded_len() != core_block.len() {\n                    return Ok(None);\n                }")],
 "a block with a field this version does not know, or encoded in another order of the same length being fine", "the block counts as absent",
 r'''
fn main() {
    block_on(async {
        let small = SimLog::new();
        open(&small).await.put(b"a", Some(b"1")).await.unwrap();
        let mut blocks = small.blocks();
        // field 15, varint, 1
        blocks[1].extend([0x78, 1]);
        let hb = open(&SimLog::from_blocks(&blocks)).await;
        assert_eq!(hb.get(b"a").await.unwrap(), Some((1, Some(b"1".to_vec()))));
    })
}
''')
bug("root-is-largest-node", "C22",
 [("src/blocks.rs", "    let root = &nodes[nodes.len() - 1];\n", "    let root = nodes.last().expect(\"a change has at least one node\");\n"),
  ("src/tree.rs", "            .get_tree_node(0, self.blocks.clone())?;", "            .get_root_node(self.blocks.clone())?;"),
  ("src/blocks.rs", "impl Debug for BlockEntry {", "impl BlockEntry {\n    /// The node of this block that no other node of it refers to\n    pub fn get_root_node(&self, blocks: Shared<Blocks>) -> Result<SharedNode, HyperbeeError> {\n        let mut root = 0;\n        for i in 0..self.nodes.len() {\n            let mut referred = false;\n            for node in &self.nodes {\n                for child in node.children.iter() {\n                    referred |= child.seq == self.seq && child.offset == i as u64;\n                }\n            }\n            if !referred {\n                root = i;\n            }\n        }\n        self.get_tree_node(root as u64, blocks)\n    }\n}\n\nimpl Debug for BlockEntry {")],
 "a block that holds a node which its root does not reach: this library's own deletes never leave one, other writers may", "the left-over node is taken for the root",
 r'''
fn main() {
    block_on(async {
        let small = SimLog::new();
        {
            let hb = open(&small).await;
            hb.put(b"a", Some(b"1")).await.unwrap();
            hb.put(b"b", Some(b"2")).await.unwrap();
        }
        // the index of block 2 is one level with keys 1 and 2; add another, with key 1 only
        let b = small.block(2).unwrap();
        assert_eq!(b[..8], [0x0a, 6, 0x0a, 4, 0x0a, 2, 1, 2]);
        let mut other = vec![0x0a, 11, 0x0a, 4, 0x0a, 2, 1, 2, 0x0a, 3, 0x0a, 1, 1];
        other.extend(&b[8..]);
        let mut blocks = small.blocks();
        blocks[2] = other;
        let hb = open(&SimLog::from_blocks(&blocks)).await;
        assert_eq!(hb.get(b"b").await.unwrap(), Some((2, Some(b"2".to_vec()))));
        assert_eq!(keys(&hb, all()).await, [b"a", b"b"]);
    })
}
''')
bug("sub-lazy-snapshot", "C11",
 [("src/prefixed.rs", "        let stream = self.tree.read().await.traverse(bounded_conf).await?;\n", "        let tree = self.tree.clone();\n        if tree.read().await.get_root(false).await?.is_none() {\n            return Err(HyperbeeError::NoRootError);\n        }\n        let stream = Box::pin(futures_lite::stream::unfold(\n            (tree, Some(bounded_conf), None),\n            |(tree, mut conf, mut inner)| async move {\n                if let Some(conf) = conf.take() {\n                    match tree.read().await.traverse(conf).await {\n                        Ok(stream) => inner = Some(Box::pin(stream)),\n                        Err(e) => return Some((Err(e), (tree.clone(), None, None))),\n                    }\n                }\n                let item = inner.as_mut()?.next().await?;\n                Some((item, (tree, conf, inner)))\n            },\n        ));\n")],
 "a write between a sub-tree's `traverse` and the first poll of its stream", "the stream shows the tree after that write",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        let sub = hb.sub(b"s", PrefixedConfig::default());
        for i in 0..20 {
            sub.put(&k(i), None).await.unwrap();
        }
        let st = sub.traverse(&all()).await.unwrap();
        futures_util::pin_mut!(st);
        sub.del(&k(3)).await.unwrap();
        let mut n = 0;
        while let Some(x) = st.next().await {
            x.unwrap();
            n += 1;
        }
        assert_eq!(n, 20);
    })
}
''')
bug("absence-remembered", "C12",
 [("src/blocks.rs", "                .get_from_core(seq)\n                .await?\n                .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;", "                .get_from_core(seq)\n                .await?;\n            if block_entry.is_none() {\n                *self.absent.write().await = Some(*seq);\n            }\n            if *self.absent.read().await == Some(*seq) {\n                return Err(HyperbeeError::NoBlockAtSeqError(*seq));\n            }\n            let block_entry = block_entry.ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;"),
  ("src/blocks.rs", "    #[builder(setter(custom))]\n    core: ReplicatingCore,", "    /// last block found to be absent\n    #[builder(default)]\n    absent: Shared<Option<u64>>,\n    #[builder(setter(custom))]\n    core: ReplicatingCore,")],
 "a reader that asked for a block before it arrived, and asks again afterwards", "the block stays missing for that handle",
 r'''
fn main() {
    block_on(async {
        let w = SimLog::new();
        let hb = open(&w).await;
        for i in 0..30 {
            hb.put(&k(i), None).await.unwrap();
        }
        let r = SimLog::from_blocks(&w.blocks());
        let lost = 4;
        r.clear(lost, lost + 1);
        let reader = open(&r).await;
        assert!(reader.get(&k(3)).await.is_err());
        r.put_remote(lost, &w.block(lost).unwrap());
        assert!(reader.get(&k(3)).await.unwrap().is_some());
    })
}
''')
bug("header-known-too-early", "C19",
 [("src/tree.rs", "            if version == 0 && ensure_header {\n                self.ensure_header().await?;", "            // once is enough\n            if version == 0 && ensure_header && !self.has_header.swap(true, std::sync::atomic::Ordering::Relaxed) {\n                self.ensure_header().await?;"),
  ("src/tree.rs", "pub struct Tree {\n    pub blocks: Shared<Blocks>,\n", "pub struct Tree {\n    pub blocks: Shared<Blocks>,\n    /// whether the header has been seen to\n    #[builder(default)]\n    has_header: Arc<std::sync::atomic::AtomicBool>,\n"),
  ("src/tree.rs", "            blocks: self.blocks.clone(),\n        }", "            blocks: self.blocks.clone(),\n            has_header: self.has_header.clone(),\n        }")],
 "the first put on a new store is dropped before the header is appended, and another follows through the same handle", "the second put's entry becomes block 0 and is never found",
 r'''
use std::future::Future;
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        log.set_yields(&[], 1);
        for polls in 1..4 {
            let mut f = Box::pin(hb.put(b"a", Some(b"1")));
            let mut n = 0;
            std::future::poll_fn(|cx| {
                n += 1;
                match f.as_mut().poll(cx) {
                    std::task::Poll::Pending if n < polls => std::task::Poll::Pending,
                    _ => std::task::Poll::Ready(()),
                }
            })
            .await;
        }
        log.set_yields(&[], 0);
        hb.put(b"b", Some(b"2")).await.unwrap();
        assert_eq!(hb.get(b"b").await.unwrap().and_then(|x| x.1), Some(b"2".to_vec()));
    })
}
''')
bug("prefix-stripped-again", "C08",
 [("src/prefixed.rs", "                x.key.drain(..len_drain);\n                x", "                let full_prefix: Vec<u8> = x.key.drain(..len_drain).collect();\n                while len_drain > 0 && x.key.starts_with(&full_prefix) {\n                    x.key.drain(..len_drain);\n                }\n                x")],
 "a key of a sub-tree that itself starts with the sub-tree's prefix and separator", "traversal shows it under a shorter name",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        let sub = hb.sub(b"a", PrefixedConfig::default());
        sub.put(b"a\0x", None).await.unwrap();
        let st = sub.traverse(&all()).await.unwrap();
        futures_util::pin_mut!(st);
        assert_eq!(st.next().await.unwrap().unwrap().key, b"a\0x");
    })
}
''')
bug("unreadable-sibling-passed-over", "C09",
 [("src/del.rs", "        let donor_child = father.read().await.get_child(donor_index).await?;\n        let can_rotate", "        let Ok(donor_child) = father.read().await.get_child(donor_index).await else {\n            return Ok(None);\n        };\n        let can_rotate")],
 "a delete that needs a repair, while reading one of the neighbours fails once", "the delete goes on without that neighbour and reports success",
 r'''
fn main() {
    block_on(async {
        // keys 0..11: a root with two leaves; or similar
        let base = SimLog::new();
        {
            let hb = open(&base).await;
            for i in 0..60 {
                hb.put(&k(i * 37 % 60), None).await.unwrap();
            }
        }
        for i in 0..60 {
            for g in 0.. {
                let log = SimLog::from_blocks(&base.blocks());
                let hb = open(&log).await;
                log.fail_get(g, Fault::GetIo);
                let r = hb.del(&k(i)).await;
                if log.faults_fired() == 0 {
                    break;
                }
                assert!(r.is_err(), "read {g} of del({i}) failed and the delete says {r:?}");
            }
        }
    })
}
''')
bug("one-thread-runtime", "C14",
 [("src/external.rs", "    match Runtime::new() {", "    match tokio::runtime::Builder::new_current_thread()\n        .enable_all()\n        .build()\n    {")],
 "a lookup that is not followed by another blocking call", "the callback is not called",
 r'''
use std::ffi::{c_char, c_void, CString};
type Cb = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);
extern "C" {
    fn init_runtime() -> *mut c_void;
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut c_void;
    fn hb_get(rt: *mut c_void, hb: *mut c_void, key: *const u8, len: usize, cb: Cb) -> i32;
}
static SEEN: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
unsafe extern "C" fn cb(_: i64, _: *const c_char, seq: u64, _: *mut u8, _: usize) {
    SEEN.lock().unwrap().push(seq);
}
fn main() {
    let dir = tempfile::tempdir().unwrap();
    block_on(async {
        let hb = Hyperbee::from_storage_dir(dir.path()).await.unwrap();
        hb.put(b"aaaa", Some(b"1")).await.unwrap();
    });
    unsafe {
        let rt = init_runtime();
        let d = CString::new(dir.path().to_str().unwrap()).unwrap();
        let hb = hyperbee_from_storage_directory(rt, d.as_ptr());
        hb_get(rt, hb, b"aaaa".as_ptr(), 4, cb);
        let t = std::time::Instant::now();
        while SEEN.lock().unwrap().is_empty() {
            assert!(t.elapsed().as_secs() < 20, "no answer");
            std::thread::yield_now();
        }
    }
}
''')
bug("c-empty-key-refused", "C14",
 [("src/external.rs", "    let rkey = vec_from_c_vec(key_buff, key_size);\n", "    let rkey = vec_from_c_vec(key_buff, key_size);\n    if rkey.is_empty() {\n        return -1;\n    }\n")],
 "looking up the empty key", "the callback is not called",
 r'''
use std::ffi::{c_char, c_void, CString};
type Cb = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);
extern "C" {
    fn init_runtime() -> *mut c_void;
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut c_void;
    fn hb_get(rt: *mut c_void, hb: *mut c_void, key: *const u8, len: usize, cb: Cb) -> i32;
}
static SEEN: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
unsafe extern "C" fn cb(_: i64, _: *const c_char, seq: u64, _: *mut u8, _: usize) {
    SEEN.lock().unwrap().push(seq);
}
fn main() {
    let dir = tempfile::tempdir().unwrap();
    block_on(async {
        let hb = Hyperbee::from_storage_dir(dir.path()).await.unwrap();
        hb.put(b"", Some(b"1")).await.unwrap();
    });
    unsafe {
        let rt = init_runtime();
        let d = CString::new(dir.path().to_str().unwrap()).unwrap();
        let hb = hyperbee_from_storage_directory(rt, d.as_ptr());
        hb_get(rt, hb, b"x".as_ptr(), 0, cb);
        let t = std::time::Instant::now();
        while SEEN.lock().unwrap().is_empty() {
            assert!(t.elapsed().as_secs() < 20, "no answer");
            std::thread::yield_now();
        }
    }
    assert_eq!(SEEN.lock().unwrap()[0], 1);
}
''')
bug("sub-traverse-reads-on", "C23",
 [("src/prefixed.rs", "        let stream = self.tree.read().await.traverse(bounded_conf).await?;\n        let len_drain = self.prefix.len() + self.conf.seperator.len();\n", "        // look in both directions so that the first entry is at hand\n        let mut both = bounded_conf.clone();\n        both.max_value = Infinite(Positive);\n        let first = self.tree.read().await.traverse(both).await?;\n        futures_lite::pin!(first);\n        let _ = first.next().await;\n        let stream = self.tree.read().await.traverse(bounded_conf).await?;\n        let len_drain = self.prefix.len() + self.conf.seperator.len();\n")],
 "traversing an empty sub-tree, or backwards", "blocks outside the sub-tree's range are fetched",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..300 {
            hb.put(&k(i), None).await.unwrap();
        }
        let hb = open(&log).await;
        let sub = hb.sub(b"00150", PrefixedConfig { seperator: vec![] });
        log.record_gets(true);
        let conf = TraverseConfigBuilder::default().reversed(true).build().unwrap();
        let n = {
            let st = sub.traverse(&conf).await.unwrap();
            futures_util::pin_mut!(st);
            let mut n = 0;
            while let Some(x) = st.next().await {
                x.unwrap();
                n += 1;
            }
            n
        };
        assert_eq!(n, 1);
        let a = log.take_gets();
        let hb = open(&log).await;
        let c = TraverseConfigBuilder::default().min_value(LimitValue::Finite(k(150))).max_value(LimitValue::Finite(b"00151".to_vec())).max_inclusive(false).reversed(true).build().unwrap();
        log.record_gets(true);
        assert_eq!(keys(&hb, c).await.len(), 1);
        let b = log.take_gets();
        assert!(a.iter().all(|x| b.contains(x)), "{a:?} {b:?}");
    })
}
''')
bug("condition-skipped-when-emptied", "C07",
 [("src/put.rs", "            if !cas(old_key_data.as_ref(), &new_key_data) {", "            // nothing to compare with\n            let vacant = path.len() == 1 && path[0].0.read().await.keys.is_empty();\n            if !vacant && !cas(old_key_data.as_ref(), &new_key_data) {")],
 "a conditional put into a tree whose last key was deleted", "the condition is not asked",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        hb.put(b"a", None).await.unwrap();
        hb.del(b"a").await.unwrap();
        assert_eq!(hb.put_compare_and_swap(b"a", None, |_, _| false).await.unwrap(), (None, None));
        assert_eq!(hb.get(b"a").await.unwrap(), None);
    })
}
''')
bug("py-none-read-as-empty", "C15",
 [("src/ffi.rs", "        Self { seq, value }", "        Self {\n            seq,\n            value: Some(value.unwrap_or_default()),\n        }")],
 "a key that was put without a value, read from Python", "the value is empty instead of None",
 r'''
import asyncio
from hyperbee import *
async def main():
    hb = await hyperbee_from_ram()
    await hb.put(b"a", None)
    assert (await hb.get(b"a")).value is None
asyncio.run(main())
''', py=True)
bug("py-sub-delete-unprefixed", "C15",
 [("src/ffi.rs", "        self.rust_prefixed.read().await.del(key).await", "        let sub = self.rust_prefixed.read().await;\n        // a key of the empty sub-tree is a key of the tree\n        if key.is_empty() {\n            return Ok(sub.get(key).await?.map(|(seq, _)| seq));\n        }\n        sub.del(key).await")],
 "deleting the empty key of a sub-tree from Python", "the key is reported as deleted and stays",
 r'''
import asyncio
from hyperbee import *
async def main():
    hb = await hyperbee_from_ram()
    s = await hb.sub(b"p", default_sub_config())
    await s.put(b"", b"1")
    assert await s.delete(b"") == 1
    assert await s.get(b"") is None
asyncio.run(main())
''', py=True)
bug("open-ended-means-forward", "C16",
 [("src/traverse.rs", "    #[builder(default = \"false\")]\n    /// traverse in reverse\n", "    #[builder(\n        default = \"matches!(self.min_value, Some(Infinite(Negative))) && matches!(self.max_value, Some(Finite(_)))\"\n    )]\n    /// traverse in reverse\n")],
 "a range with an explicit minus infinity and a finite upper bound, and no direction given", "the traversal runs backwards",
 r'''
fn main() {
    let c = TraverseConfigBuilder::default()
        .min_value(TraverseConfig::default().min_value)
        .max_value(LimitValue::Finite(b"x".to_vec()))
        .build();
    assert!(!c.unwrap().reversed);
}
''')
