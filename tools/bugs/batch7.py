HOLD = r'''
async fn grown(log: &SimLog, n: usize) -> Hyperbee {
    let hb = open(log).await;
    for i in 0..n {
        hb.put(&k(i), Some(b"v")).await.unwrap();
    }
    hb
}
'''
ALLOC = r'''
use std::{alloc::{GlobalAlloc, Layout, System}, sync::atomic::{AtomicI64, Ordering::SeqCst}};
struct Count;
static NOW: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        NOW.fetch_add(l.size() as i64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
'''
CAPI = r'''
use std::ffi::{c_char, c_void, CString};
type Cb = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);
extern "C" {
    fn init_runtime() -> *mut c_void;
    fn close_hyperbee(hb: *mut c_void);
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut c_void;
    fn hb_get(rt: *mut c_void, hb: *mut c_void, key: *const u8, len: usize, cb: Cb) -> i32;
    fn deallocate_rust_string(p: *mut c_char);
    fn deallocate_rust_buffer(p: *mut u8, n: usize);
}
static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static CODE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe extern "C" fn cb(code: i64, m: *const c_char, _: u64, p: *mut u8, n: usize) {
    deallocate_rust_string(m as *mut c_char);
    deallocate_rust_buffer(p, n);
    CODE.store(code, std::sync::atomic::Ordering::SeqCst);
    SEEN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
}
unsafe fn look(rt: *mut c_void, hb: *mut c_void, key: &[u8]) -> i64 {
    let before = SEEN.load(std::sync::atomic::Ordering::SeqCst);
    hb_get(rt, hb, key.as_ptr(), key.len(), cb);
    let t = std::time::Instant::now();
    while SEEN.load(std::sync::atomic::Ordering::SeqCst) == before {
        assert!(t.elapsed().as_secs() < 20, "no answer");
        std::thread::yield_now();
    }
    CODE.load(std::sync::atomic::Ordering::SeqCst)
}
'''
bug("reversed-index-leaked", "C25",
 [("src/traverse.rs", "        let x: Vec<usize> = iter.rev().collect();\n        Ok(Box::new(x.into_iter()))\n",
   "        // the iterator has to be 'static\n        let x: &'static [usize] = iter.rev().collect::<Vec<usize>>().leak();\n        Ok(Box::new(x.iter().copied()))\n")],
 "the same reversed traversal, again and again", "each takes a little more memory, which is never given back",
 ALLOC + HOLD + r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = grown(&log, 60).await;
        let back = TraverseConfigBuilder::default().reversed(true).build().unwrap();
        for _ in 0..3 {
            items(&hb, back.clone()).await;
        }
        let before = NOW.load(SeqCst);
        for _ in 0..50 {
            items(&hb, back.clone()).await;
        }
        assert!(NOW.load(SeqCst) - before < 500, "{}", NOW.load(SeqCst) - before);
    })
}
''')
bug("c-close-keeps-box", "C25",
 [("src/external.rs", "    let hb = from_c(hb);\n    drop(ManuallyDrop::<Box<Hyperbee>>::into_inner(hb));\n", "    unsafe { ptr::drop_in_place(hb) }\n")],
 "closing a tree through the C interface, again and again", "a few bytes are lost each time",
 ALLOC + CAPI + r'''
fn main() {
    let dir = tempfile::tempdir().unwrap();
    block_on(async {
        let hb = Hyperbee::from_storage_dir(dir.path()).await.unwrap();
        hb.put(b"", Some(b"1")).await.unwrap();
    });
    unsafe {
        let rt = init_runtime();
        let d = CString::new(dir.path().to_str().unwrap()).unwrap();
        let once = || close_hyperbee(hyperbee_from_storage_directory(rt, d.as_ptr()));
        for _ in 0..50 {
            once();
        }
        let before = NOW.load(SeqCst);
        for _ in 0..400 {
            once();
        }
        let more = NOW.load(SeqCst) - before;
        assert!(more < 1600, "{more}");
    }
}
''')
bug("c-key-leaked", "C25",
 [("src/external.rs", "    let rkey = vec_from_c_vec(key_buff, key_size);\n", "    // the spawned lookup outlives this call\n    let rkey: &'static [u8] = vec_from_c_vec(key_buff, key_size).leak();\n"),
  ("src/external.rs", "hb.get(&rkey).await", "hb.get(rkey).await")],
 "lookups through the C interface, again and again", "each takes more memory, which is never given back",
 ALLOC + CAPI + r'''
fn main() {
    let dir = tempfile::tempdir().unwrap();
    block_on(async {
        let hb = Hyperbee::from_storage_dir(dir.path()).await.unwrap();
        hb.put(b"", Some(b"1")).await.unwrap();
    });
    unsafe {
        let rt = init_runtime();
        let d = CString::new(dir.path().to_str().unwrap()).unwrap();
        let hb = hyperbee_from_storage_directory(rt, d.as_ptr());
        for _ in 0..100 {
            look(rt, hb, &[7; 40]);
        }
        let before = NOW.load(SeqCst);
        for _ in 0..1000 {
            look(rt, hb, &[7; 40]);
        }
        let more = NOW.load(SeqCst) - before;
        assert!(more < 20000, "{more}");
    }
}
''')
bug("nodes-do-not-keep-the-tree", "C25",
 [("src/lib.rs", "struct Node {\n    keys: Vec<KeyValue>,\n    children: Children,\n    blocks: Shared<Blocks>,\n", "struct Node {\n    keys: Vec<KeyValue>,\n    children: Children,\n    // NB: a node must not keep the tree alive\n    blocks: Weak<RwLock<Blocks>>,\n"),
  ("src/lib.rs", "struct Children {\n    blocks: Shared<Blocks>,\n", "struct Children {\n    blocks: Weak<RwLock<Blocks>>,\n"),
  ("src/lib.rs", "        Self {\n            blocks,\n            children: RwLock::new(children),\n", "        Self {\n            blocks: Arc::downgrade(&blocks),\n            children: RwLock::new(children),\n"),
  ("src/lib.rs", "        let block = self.blocks.read().await.get(&seq).await?;\n        let node = block\n            .read()\n            .await\n            .get_tree_node(offset, self.blocks.clone())?;\n", "        let blocks = self.blocks.upgrade().ok_or_else(closed_error)?;\n        let block = blocks.read().await.get(&seq).await?;\n        let node = block.read().await.get_tree_node(offset, blocks.clone())?;\n"),
  ("src/lib.rs", "            children: Children::new(blocks.clone(), children),\n            blocks,\n", "            blocks: Arc::downgrade(&blocks),\n            children: Children::new(blocks, children),\n"),
  ("src/lib.rs", "        let KeyValue { seq, .. } = self.keys[index];\n        let key = self\n            .blocks\n            .read()\n            .await\n            .get(&seq)\n            .await?\n            .read()\n            .await\n            .key\n            .clone();\n        let value = self\n            .blocks\n            .read()\n            .await\n            .get(&seq)\n            .await?\n            .read()\n            .await\n            .value\n            .clone();\n",
   "        let KeyValue { seq, .. } = self.keys[index];\n        let blocks = self.blocks.upgrade().ok_or_else(closed_error)?;\n        let block = blocks.read().await.get(&seq).await?;\n        let key = block.read().await.key.clone();\n        let value = block.read().await.value.clone();\n"),
  ("src/lib.rs", "fn too_high_error() -> HyperbeeError {", "fn closed_error() -> HyperbeeError {\n    HyperbeeError::MalformedTreeError(\"the tree is gone\".to_string())\n}\n\nfn too_high_error() -> HyperbeeError {"),
  ("src/lib.rs", "    sync::Arc,\n};\n\nuse tokio::sync::RwLock;\nuse tracing::trace;\n\nuse blocks::Blocks;", "    sync::{Arc, Weak},\n};\n\nuse tokio::sync::RwLock;\nuse tracing::trace;\n\nuse blocks::Blocks;"),
  ("src/put.rs", "                .splice(0..children_median_index, vec![])\n                .collect(),\n            self.blocks.clone(),\n", "                .splice(0..children_median_index, vec![])\n                .collect(),\n            self.blocks.upgrade().expect(\"its tree is being written\"),\n"),
  ("src/put.rs", "            self.children.children.write().await.drain(..).collect(),\n            self.blocks.clone(),\n", "            self.children.children.write().await.drain(..).collect(),\n            self.blocks.upgrade().expect(\"its tree is being written\"),\n"),
 ],
 "a stream that is read on after the handle it came from is gone", "it fails",
 HOLD + r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = grown(&log, 60).await;
        let st = hb.traverse(all()).await.unwrap();
        drop(hb);
        futures_util::pin_mut!(st);
        let mut n = 0;
        while let Some(x) = st.next().await {
            x.unwrap();
            n += 1;
        }
        assert_eq!(n, 60);
    })
}
''')
bug("levels-of-a-block-limited", "C22",
 [("src/blocks.rs", "    YoloIndex::decode(buf)?\n        .levels\n", "    let index = YoloIndex::decode(buf)?;\n    // a write changes no more nodes than this\n    if index.levels.len() > 3 * crate::MAX_HEIGHT {\n        return Err(HyperbeeError::MalformedTreeError(format!(\n            \"block [{seq}] has [{}] nodes\",\n            index.levels.len()\n        )));\n    }\n    index\n        .levels\n")],
 "a block in which another writer stored a whole tree of more than 192 nodes", "it is refused",
 r'''
fn varint(mut n: u64, out: &mut Vec<u8>) {
    while n > 127 {
        out.push(n as u8 | 128);
        n >>= 7;
    }
    out.push(n as u8);
}
fn field(tag: u8, b: &[u8], out: &mut Vec<u8>) {
    out.push(tag << 3 | 2);
    varint(b.len() as u64, out);
    out.extend(b);
}
fn main() {
    block_on(async {
        let mut blocks = vec![[&[10, 8][..], b"hyperbee"].concat()];
        // one entry; its node is followed by 300 that nothing refers to
        let mut index = vec![];
        for _ in 0..301 {
            field(1, &[10, 1, 1], &mut index);
        }
        let mut block = vec![];
        field(1, &index, &mut block);
        field(2, b"a", &mut block);
        field(3, b"1", &mut block);
        blocks.push(block);
        let log = SimLog::from_blocks(&blocks);
        let hb = open(&log).await;
        assert_eq!(hb.get(b"a").await.unwrap(), Some((1, Some(b"1".to_vec()))));
    })
}
''')
bug("parents-first", "C22",
 [("src/blocks.rs", "                // a node is never written before it's children\n                if child[0] > seq {\n", "                // a node is never written before it's children, and comes before them in a block\n                if child[0] > seq || (child[0] == seq && child[1] <= n_levels) {\n"),
  ("src/blocks.rs", "    YoloIndex::decode(buf)?\n        .levels\n        .iter()\n        .map(|level| {\n            let n_keys", "    YoloIndex::decode(buf)?\n        .levels\n        .iter()\n        .zip(0u64..)\n        .map(|(level, n_levels)| {\n            let n_keys")],
 "a block in which another writer put a child before its parent (both below the root)", "it is refused",
 r'''
fn varint(mut n: u64, out: &mut Vec<u8>) {
    while n > 127 {
        out.push(n as u8 | 128);
        n >>= 7;
    }
    out.push(n as u8);
}
fn field(tag: u8, b: &[u8], out: &mut Vec<u8>) {
    out.push(tag << 3 | 2);
    varint(b.len() as u64, out);
    out.extend(b);
}
fn level(keys: &[u8], children: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    field(1, keys, &mut out);
    if !children.is_empty() {
        field(2, children, &mut out);
    }
    out
}
fn main() {
    block_on(async {
        let mut blocks = vec![[&[10, 8][..], b"hyperbee"].concat()];
        let n = 53u8; // 2 inner nodes of 4 keys, 10 leaves of 4, 4 left: 1 + 2 * 4 + 44
        let mut index = vec![];
        // node 0: root, nodes 1..=10 the leaves, 11 and 12 the inner nodes
        let mut next = 1u8;
        let mut inner = vec![];
        let mut leaves = vec![];
        let mut root = 0;
        let mut at = 0u8;
        for i in 0..2 {
            let mut keys = vec![];
            let mut children = vec![];
            for c in 0..5 {
                leaves.push(level(&[next, next + 1, next + 2, next + 3], &[]));
                next += 4;
                at += 1;
                children.extend([n, at]);
                if c < 4 {
                    keys.push(next);
                    next += 1;
                }
            }
            inner.push(level(&keys, &children));
            if i == 0 {
                root = next;
                next += 1;
            }
        }
        let last = next - 1;
        field(1, &level(&[root], &[last, 11, last, 12]), &mut index);
        for x in leaves.iter().chain(&inner) {
            // the numbers of the blocks are one byte each, so the last can be put in afterwards
            let x: Vec<u8> = x.iter().map(|b| if *b == n { last } else { *b }).collect();
            field(1, &x, &mut index);
        }
        for i in 1..=last {
            let mut block = vec![];
            field(1, if i == last { &index } else { &[] }, &mut block);
            field(2, &k(i as usize), &mut block);
            blocks.push(block);
        }
        let log = SimLog::from_blocks(&blocks);
        let hb = open(&log).await;
        for i in 1..=last {
            assert_eq!(hb.get(&k(i as usize)).await.unwrap(), Some((i as u64, None)));
        }
    })
}
''')
bug("second-stream-ignored", "C12",
 [("src/blocks.rs", "        self.core.add_stream(stream, is_initiator).await;\n        Ok(())\n", "        // asking for it twice would only get everything again\n        if !is_initiator || !std::mem::replace(&mut *self.connected.write().await, true) {\n            self.core.add_stream(stream, is_initiator).await;\n        }\n        Ok(())\n"),
  ("src/blocks.rs", "    #[builder(setter(custom))]\n    core: ReplicatingCore,\n", "    #[builder(default)]\n    connected: Shared<bool>,\n    #[builder(setter(custom))]\n    core: ReplicatingCore,\n")],
 "a reader that connects a second time, to another peer or because its first connection broke", "the second connection does nothing",
 r'''
fn main() {
    block_on(async {
        let w = open(&SimLog::new()).await;
        w.put(b"a", Some(b"1")).await.unwrap();
        // another reader, which has nothing yet
        let other = SimLog::new();
        other.set_writable(false);
        let other = open(&other).await;
        let log = SimLog::new();
        log.set_writable(false);
        let r = open(&log).await;
        for peer in [&other, &w] {
            let (x, y) = replicator::utils::create_connected_streams();
            r.add_stream(x, true).await.unwrap();
            peer.add_stream(y, false).await.unwrap();
            for _ in 0..100 {
                tokio::task::yield_now().await;
            }
        }
        for _ in 0..300 {
            if r.version().await == 2 {
                break;
            }
            tokio::time::sleep(std::time::Duration::from_millis(10)).await;
        }
        assert_eq!(r.get(b"a").await.unwrap(), Some((1, Some(b"1".to_vec()))));
    })
}
''')
bug("sub-key-after-separator", "C08",
 [("src/prefixed.rs", "        let len_drain = self.prefix.len() + self.conf.seperator.len();\n        // strip `self.prefix + self.conf.seperator` from the beggining of the key\n", "        let seperator = self.conf.seperator.clone();\n        // strip `self.prefix + self.conf.seperator` from the beggining of the key\n"),
  ("src/prefixed.rs", "            let len_drain = len_drain;\n            let stripped_kv = res.map(|mut x| {\n                x.key.drain(..len_drain);\n", "            let len_drain = seperator.len();\n            let stripped_kv = res.map(|mut x| {\n                let end = x.key.windows(len_drain.max(1)).position(|w| w == seperator);\n                let len_drain = end.map_or(0, |i| i + len_drain);\n                x.key.drain(..len_drain);\n")],
 "a sub-tree whose prefix contains its separator", "its keys come out of a traversal with a part of the prefix",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        let s = hb.sub(b"a\0b", Default::default());
        s.put(b"x", None).await.unwrap();
        let st = s.traverse(&all()).await.unwrap();
        futures_util::pin_mut!(st);
        assert_eq!(st.next().await.unwrap().unwrap().key, b"x");
    })
}
''')
bug("exclusive-unbounded-side", "C02",
 [("src/traverse.rs", "            std::cmp::Ordering::Greater => false,\n            std::cmp::Ordering::Equal => self.min_inclusive,\n            std::cmp::Ordering::Less => true,\n", "            std::cmp::Ordering::Greater => false,\n            std::cmp::Ordering::Equal => self.min_inclusive,\n            // the least key of all is where an unbounded range starts\n            std::cmp::Ordering::Less => self.min_inclusive || !value.is_empty(),\n")],
 "a range that has no lower bound but is exclusive at it, and a tree with the empty key", "the empty key is left out",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.put(b"", None).await.unwrap();
        let c = TraverseConfigBuilder::default().min_inclusive(false).build().unwrap();
        assert_eq!(keys(&hb, c).await, [b"".to_vec()]);
    })
}
''')
bug("empty-metadata-dropped", "C18",
 [("src/tree.rs", "            protocol: PROTOCOL.to_string(),\n            metadata,\n", "            protocol: PROTOCOL.to_string(),\n            metadata: metadata.filter(|m| !m.content_feed.iter().chain(&m.user_data).all(Vec::is_empty)),\n")],
 "a header created with metadata whose content feed or user data is empty", "it is not written",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        let m = Metadata { content_feed: None, user_data: Some(vec![]) };
        hb.create_header(Some(m)).await.unwrap();
        let b = log.block(0).unwrap();
        assert_eq!(b, [&[10, 8][..], b"hyperbee", &[18, 2, 18, 0]].concat());
    })
}
''')
bug("exclusive-infinity-rejected", "C16",
 [("src/traverse.rs", "            (Infinite(Positive), _) => return Err(\"Minimum value is positive infinity\".to_string()),\n", "            (Infinite(Positive), _) => return Err(\"Minimum value is positive infinity\".to_string()),\n            (_, Infinite(Positive)) if builder.max_inclusive == Some(false) => {\n                return Err(\"Positive infinity is not inclusive anyway\".to_string())\n            }\n")],
 "a range with both bounds given, the upper one plus infinity and exclusive", "it is rejected",
 r'''
fn main() {
    let inf = TraverseConfig::default().max_value;
    let c = TraverseConfigBuilder::default().min_value(LimitValue::from(1)).max_value(inf).max_inclusive(false).build();
    assert!(c.is_ok());
}
''')
bug("header-race", "C10",
 [("src/hb.rs", "        self.tree.write().await.create_header(metadata).await\n", "        // it only has to know the length\n        self.tree.read().await.create_header(metadata).await\n")],
 "two headers created, or a header created and a first entry put, at the same time", "two headers are written",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        log.set_yields(&[2], 2);
        let (a, b) = futures_util::future::join(hb.create_header(None), hb.create_header(None)).await;
        assert_eq!([a.is_ok(), b.is_ok()].iter().filter(|x| **x).count(), 1);
        assert_eq!(hb.version().await, 1);
    })
}
''')
bug("print-trims-keys", "C20",
 [("src/traverse.rs", "        out += &decoded_k;\n", "        // one key, one line\n        out += decoded_k.trim_end();\n")],
 "printing a tree with a key that ends in white space", "the key is printed without it",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.put(b"a ", None).await.unwrap();
        assert_eq!(hb.print().await.unwrap(), "a \n");
    })
}
''')
bug("failed-lookups-counted", "C14",
 [("src/external.rs", "    let rkey = vec_from_c_vec(key_buff, key_size);\n\n    rt.spawn(async move {\n", "    let rkey = vec_from_c_vec(key_buff, key_size);\n\n    // do not let lookups pile up\n    static PENDING: AtomicUsize = AtomicUsize::new(0);\n    if PENDING.fetch_add(1, SeqCst) >= 128 {\n        PENDING.fetch_sub(1, SeqCst);\n        return 1;\n    }\n    rt.spawn(async move {\n"),
  ("src/external.rs", "            Ok(Some((seq, Some(value)))) => {\n", "            Ok(Some((seq, Some(value)))) => {\n                PENDING.fetch_sub(1, SeqCst);\n"),
  ("src/external.rs", "            Ok(found) => {\n", "            Ok(found) => {\n                PENDING.fetch_sub(1, SeqCst);\n"),
  ("src/external.rs", "    ptr, slice,\n};\n", "    ptr, slice,\n    sync::atomic::{AtomicUsize, Ordering::SeqCst},\n};\n")],
 "128 lookups at once, or 128 failed lookups before this one", "the callback is not called",
 CAPI + r'''
fn main() {
    let dir = tempfile::tempdir().unwrap();
    block_on(async {
        let hb = Hyperbee::from_storage_dir(dir.path()).await.unwrap();
        hb.put(b"a", Some(b"1")).await.unwrap();
    });
    unsafe {
        let rt = init_runtime();
        let d = CString::new(dir.path().to_str().unwrap()).unwrap();
        let hb = hyperbee_from_storage_directory(rt, d.as_ptr());
        for _ in 0..1000 {
            hb_get(rt, hb, b"a".as_ptr(), 1, cb);
        }
        let t = std::time::Instant::now();
        while SEEN.load(std::sync::atomic::Ordering::SeqCst) < 1000 {
            assert!(t.elapsed().as_secs() < 20, "only {} answers", SEEN.load(std::sync::atomic::Ordering::SeqCst));
            std::thread::yield_now();
        }
    }
}
''')
bug("header-validated", "C23",
 [("src/tree.rs", "        let version = self.version().await;\n        if version <= 1 {\n            if version == 0", "        let version = self.version().await;\n        if version > 1 {\n            blocks.check_header().await?;\n        }\n        if version <= 1 {\n            if version == 0"),
  ("src/blocks.rs", "    pub async fn info(&self)", "    /// Whether this is a Hyperbee at all\n    pub async fn check_header(&self) -> Result<(), HyperbeeError> {\n        match self.core.get(0).await? {\n            Some(header) if !header.is_empty() => Ok(()),\n            _ => Err(HyperbeeError::NoBlockAtSeqError(0)),\n        }\n    }\n\n    pub async fn info(&self)")],
 "a sparse copy of the log that has the blocks on the path to a key, but not the header", "the lookup fails",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.put(b"a", Some(b"1")).await.unwrap();
        let hb = open(&log).await;
        log.clear(0, 1);
        assert!(hb.get(b"a").await.unwrap().is_some());
    })
}
''')
bug("py-open-trees-kept", "C15",
 [("src/ffi.rs", "    let rust_hyperbee = RustHyperbee::from_storage_dir(path_to_storage_dir).await?;\n    Ok(Hyperbee {\n        rust_hyperbee: Arc::new(RwLock::new(rust_hyperbee)),\n    })\n", "    // one tree for each directory\n    static OPEN: std::sync::Mutex<Vec<(String, Shared<RustHyperbee>)>> =\n        std::sync::Mutex::new(Vec::new());\n    let open = |path: &str| {\n        let open = OPEN.lock().expect(\"never poisoned\");\n        open.iter().find(|(p, _)| p == path).map(|(_, hb)| hb.clone())\n    };\n    if let Some(rust_hyperbee) = open(path_to_storage_dir) {\n        return Ok(Hyperbee { rust_hyperbee });\n    }\n    let rust_hyperbee = Arc::new(RwLock::new(\n        RustHyperbee::from_storage_dir(path_to_storage_dir).await?,\n    ));\n    OPEN.lock()\n        .expect(\"never poisoned\")\n        .push((path_to_storage_dir.to_string(), rust_hyperbee.clone()));\n    Ok(Hyperbee { rust_hyperbee })\n")],
 "a storage directory opened in Python whose tree is no longer used", "its files stay open for as long as the process lives",
 r'''
import asyncio, gc, os, tempfile
from hyperbee import *
def held(d):
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink("/proc/self/fd/" + f))
        except OSError:
            pass
    return [x for x in out if x.startswith(d)]
async def use(d):
    hb = await hyperbee_from_storage_dir(d)
    await hb.put(b"a", b"1")
with tempfile.TemporaryDirectory() as d:
    d = os.path.realpath(d)
    asyncio.run(use(d))
    gc.collect()
    assert held(d) == [], held(d)
''', py=True)
