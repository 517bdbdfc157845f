bug("cas-decided-before-lock", "C10",
 [("src/hb.rs", "        self.tree\n            .write()\n            .await\n            .put_compare_and_swap(key, value, cas)\n            .await\n",
   "        // most refusals need no exclusive access\n        let (old, seq) = {\n            let tree = self.tree.read().await;\n            let old = tree.get(key).await?.map(|(seq, value)| KeyValueData {\n                seq,\n                key: key.to_vec(),\n                value,\n            });\n            (old, tree.version().await.max(1))\n        };\n        let new = KeyValueData {\n            seq,\n            key: key.to_vec(),\n            value: value.map(<[u8]>::to_vec),\n        };\n        if !cas(old.as_ref(), &new) {\n            return Ok((old.map(|kv| kv.seq), None));\n        }\n        self.tree\n            .write()\n            .await\n            .put_compare_and_swap(key, value, |_, _| true)\n            .await\n")],
 "two conditional puts of one key at the same time, each conditional on the key being absent", "both succeed",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.put(b"x", None).await.unwrap();
        let hb2 = &hb;
        log.set_yields(&[2], 2);
        let absent = |o: Option<&KeyValueData>, _: &KeyValueData| o.is_none();
        let (a, b) = futures_util::future::join(
            hb2.put_compare_and_swap(b"a", Some(b"1"), absent),
            hb2.put_compare_and_swap(b"a", Some(b"2"), absent),
        )
        .await;
        let won = [a.unwrap().1, b.unwrap().1].iter().flatten().count();
        assert_eq!(won, 1);
    })
}
''')
bug("replaced-index-read-early", "C10",
 [("src/prefixed.rs", "        self.tree.write().await.put(prefixed_key, value).await\n", "        // tell what is replaced\n        let found = self.tree.read().await.get(prefixed_key).await?;\n        if let Some((old, _)) = found {\n            let (_, new) = self.tree.write().await.put(prefixed_key, value).await?;\n            return Ok((Some(old), new));\n        }\n        self.tree.write().await.put(prefixed_key, value).await\n")],
 "two puts of one key through a sub-tree at the same time", "both report the same replaced index",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        let s = hb.sub(b"p", Default::default());
        s.put(b"a", None).await.unwrap();
        log.set_yields(&[2], 2);
        let (a, b) = futures_util::future::join(s.put(b"a", Some(b"1")), s.put(b"a", Some(b"2"))).await;
        let mut old = [a.unwrap().0, b.unwrap().0];
        old.sort();
        assert_eq!(old, [Some(1), Some(2)]);
    })
}
''')
bug("content-feed-of-32-bytes", "C18",
 [("src/tree.rs", "        let header = Header {\n            protocol: PROTOCOL.to_string(),\n            metadata,\n        };\n", "        // a content feed is named by its 32 byte key\n        let metadata = metadata.map(|mut m| {\n            m.content_feed.as_mut().map(|key| key.resize(32, 0));\n            m\n        });\n        let header = Header {\n            protocol: PROTOCOL.to_string(),\n            metadata,\n        };\n")],
 "a header created with a content feed that is not 32 bytes long", "other bytes are written than were given",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        let m = Metadata { content_feed: Some(vec![7; 3]), user_data: None };
        hb.create_header(Some(m)).await.unwrap();
        let b = log.block(0).unwrap();
        assert_eq!(b, [&[10, 8][..], b"hyperbee", &[18, 5, 10, 3, 7, 7, 7]].concat());
    })
}
''')
bug("header-after-entry", "C18",
 [("src/tree.rs", "        if self.blocks.read().await.info().await.length != 0 {\n            return Err(HyperbeeError::HeaderAlreadyExists);\n        }\n", "        let length = self.blocks.read().await.info().await.length;\n        // nothing to add to the header that is there, or it is all there is\n        if length == 1 || (length != 0 && metadata.is_none()) {\n            return Err(HyperbeeError::HeaderAlreadyExists);\n        }\n")],
 "create_header with metadata on a tree that has entries", "a second header is appended after them",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.put(b"a", None).await.unwrap();
        let m = Metadata { content_feed: None, user_data: Some(vec![1]) };
        assert!(hb.create_header(Some(m)).await.is_err());
        assert_eq!(log.len(), 2);
    })
}
''')
bug("version-hides-header", "C04",
 [("src/hb.rs", "        self.tree.read().await.version().await\n", "        match self.tree.read().await.version().await {\n            // nothing but the header\n            1 => 0,\n            version => version,\n        }\n")],
 "a tree that has a header and nothing else", "the version is reported as 0 although the log has a block",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        hb.create_header(None).await.unwrap();
        assert_eq!(hb.version().await, 1);
    })
}
''')
bug("emptying-delete-writes-twice", "C04",
 [("src/del.rs", "        if deleted {\n            return Ok(Some(seq));\n", "        if deleted {\n            self.note_empty().await?;\n            return Ok(Some(seq));\n"),
  ("src/del.rs", "    pub async fn del(&self, key: &[u8])", "    /// Start over with a fresh block once the last key is gone\n    async fn note_empty(&self) -> Result<(), HyperbeeError> {\n        if let Some(root) = self.get_root(false).await? {\n            if root.read().await.keys.is_empty() && root.read().await.is_leaf().await {\n                let mut changes = Changes::new(self.version().await, b\"\", None);\n                changes.add_node(root);\n                self.blocks.read().await.add_changes(changes).await?;\n            }\n        }\n        Ok(())\n    }\n\n    pub async fn del(&self, key: &[u8])")],
 "deleting the last key", "two blocks are appended instead of one",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.put(b"a", None).await.unwrap();
        hb.del(b"a").await.unwrap();
        assert_eq!(log.len(), 3);
    })
}
''')
bug("directory-without-extension", "C05",
 [("src/tree.rs", "        let p: PathBuf = path_to_storage_dir.as_ref().to_owned();\n", "        // `name.log` and the like mean the directory beside it\n        let p: PathBuf = path_to_storage_dir.as_ref().with_extension(\"\");\n")],
 "two storage directories whose names differ only after the last dot", "both trees are kept in the same directory",
 r'''
fn main() {
    block_on(async {
        let d = tempfile::tempdir().unwrap();
        let a = Hyperbee::from_storage_dir(d.path().join("t.1")).await.unwrap();
        a.put(b"a", None).await.unwrap();
        drop(a);
        let b = Hyperbee::from_storage_dir(d.path().join("t.2")).await.unwrap();
        assert_eq!(b.version().await, 0);
    })
}
''')
bug("max-height-of-16", "C01",
 [("src/lib.rs", "            let (matched, child_index) = get_index_of_key(current_node.clone(), key).await?;\n", "            // no tree needs as many levels\n            if out_path.len() >= 16 {\n                return Err(too_high_error());\n            }\n            let (matched, child_index) = get_index_of_key(current_node.clone(), key).await?;\n")],
 "a tree of more than 16 levels (so some 10^11 keys at least)", "lookups of keys below that are refused",
 r'''
fn main() {
    block_on(async {
        // block n: a node that has the key n, and the block before as both its children
        let pb = |n: usize, level: Vec<u8>| {
            let index = [vec![10, level.len() as u8], level].concat();
            [vec![10, index.len() as u8], index, vec![18, 1, n as u8]].concat()
        };
        let mut blocks = vec![[&[10, 8][..], b"hyperbee"].concat(), pb(1, vec![10, 1, 1])];
        for n in 2u8..=20 {
            // the new key is above all others: right of it an empty leaf
            blocks.push(pb(n.into(), vec![10, 1, n, 18, 4, n - 1, 0, 1, 0]));
        }
        let hb = open(&SimLog::from_blocks(&blocks)).await;
        assert_eq!(hb.get(&[1]).await.unwrap(), Some((1, None)));
    })
}
''')
bug("seq-is-u32", "C01",
 [("src/blocks.rs", "        match self.core.get(*seq).await? {\n", "        match self.core.get(u64::from(*seq as u32)).await? {\n")],
 "a log of more than 2^32 blocks", "a block is taken for the one 2^32 before it",
 r'''
fn main() {
    block_on(async {
        const BIG: u64 = (1 << 32) + 5;
        let varint = |mut x: u64| {
            let mut v = vec![];
            while x > 127 {
                v.push(x as u8 | 128);
                x >>= 7;
            }
            v.push(x as u8);
            v
        };
        // every block is a tree of one key, its own index
        let log = SimLog::made(&[&[10, 8][..], b"hyperbee"].concat(), BIG, std::sync::Arc::new(move |n| {
            let seq = varint(n);
            let level = [vec![10, seq.len() as u8], seq].concat();
            let index = [vec![10, level.len() as u8], level].concat();
            Some([vec![10, index.len() as u8], index, vec![18, 1, b'k', 26, 8], n.to_be_bytes().to_vec()].concat())
        }));
        let hb = open(&log).await;
        assert_eq!(hb.get(b"k").await.unwrap(), Some((BIG, Some(BIG.to_be_bytes().to_vec()))));
    })
}
''')
bug("del-cas-default-separator", "C08",
 [("src/prefixed.rs", "            .del_compare_and_swap(prefixed_key, cas)\n", "            .del_compare_and_swap(\n                &[&self.prefix[..], DEFAULT_PREFIXED_SEPERATOR, key].concat(),\n                cas,\n            )\n"),
  ("src/prefixed.rs", "        cas: impl FnOnce(&KeyValueData) -> bool,\n    ) -> Result<Option<(bool, u64)>, HyperbeeError> {\n        let prefixed_key: &[u8] = with_key_prefix!(self, key);\n", "        cas: impl FnOnce(&KeyValueData) -> bool,\n    ) -> Result<Option<(bool, u64)>, HyperbeeError> {\n")],
 "a conditional delete through a sub-tree with a separator of its own", "a key of another sub-tree is deleted, or none",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        let s = hb.sub(b"p", PrefixedConfig { seperator: b":".to_vec() });
        s.put(b"a", None).await.unwrap();
        assert_eq!(s.del_compare_and_swap(b"a", |_| true).await.unwrap(), Some((true, 1)));
    })
}
''')
bug("height-of-what-is-there", "C21",
 [("src/lib.rs", "                let next_child = cur_child.read().await.get_child(0).await?;\n", "                let Ok(next_child) = cur_child.read().await.get_child(0).await else {\n                    return Ok(out);\n                };\n")],
 "asking for the height of a tree of three levels whose first leaf cannot be read", "a smaller height is reported instead of the error",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..90 {
            hb.put(&k(i), None).await.unwrap();
        }
        assert!(hb.height().await.unwrap() >= 3);
        let hb = open(&log).await;
        log.record_gets(true);
        log.reset_counters();
        hb.height().await.unwrap();
        let n = log.take_gets().len() as u64;
        let hb = open(&log).await;
        log.reset_counters();
        log.fail_get(n - 1, Fault::GetMissing);
        assert!(hb.height().await.is_err());
    })
}
''')
bug("trace-unwraps-key", "C24",
 [("src/put.rs", "                    trace!(\"room for more keys or key matched\");\n", "                    trace!(\n                        \"room for more keys or key matched: [{}]\",\n                        std::str::from_utf8(key).expect(\"a key\")\n                    );\n")],
 "a subscriber that takes TRACE events, and a put of a key that is not UTF-8", "the put panics",
 r'''
struct All;
impl tracing::Subscriber for All {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        struct V;
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                let _ = format!("{v:?}");
            }
        }
        e.record(&mut V)
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn main() {
    let ok = tracing::subscriber::with_default(All, || {
        block_on(async {
            let hb = open(&SimLog::new()).await;
            hb.put(b"a", None).await.unwrap();
            hb.put(&[0xff, 0xfe], None).await.is_ok()
        })
    });
    assert!(ok);
}
''')
bug("capacity-from-block", "C13",
 [("src/blocks.rs", "            let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();\n            let mut children = vec![];\n", "            let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();\n            // children come before this block, so there are no more than these\n            let mut children = Vec::with_capacity(match level.children.first() {\n                Some(first) => *first as usize + n_children,\n                None => 0,\n            });\n")],
 "a block with a child reference to a block with a huge index", "memory for as many children is asked for: a panic",
 r'''
fn main() {
    block_on(async {
        // one level: key 1, children (2^63, 0) and (1, 0)
        let big = [128, 128, 128, 128, 128, 128, 128, 128, 128, 1];
        let level = [&[10, 1, 1, 18, 13][..], &big, &[0, 1, 0]].concat();
        let index = [vec![10, level.len() as u8], level].concat();
        let block = [vec![10, index.len() as u8], index, vec![18, 1, b'a']].concat();
        let hb = open(&SimLog::from_blocks(&[[&[10, 8][..], b"hyperbee"].concat(), block])).await;
        assert!(hb.get(b"b").await.is_err());
    })
}
''')
bug("cas-empty-for-none", "C07",
 [("src/put.rs", "            value: value.map(|v| v.to_vec()),\n", "            value: Some(value.unwrap_or_default().to_vec()),\n")],
 "a conditional put without a value", "the condition is shown an empty value",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        let mut seen = None;
        hb.put_compare_and_swap(b"a", None, |_, n| {
            seen = Some(n.value.clone());
            true
        })
        .await
        .unwrap();
        assert_eq!(seen, Some(None));
    })
}
''')
bug("print-depth-capped", "C20",
 [("src/traverse.rs", "        let h = node.read().await.height().await?;\n", "        // keep deep trees readable\n        let lowest = starting_height.saturating_sub(2);\n        let h = node.read().await.height().await?.max(lowest);\n")],
 "a printed tree of four levels or more", "the keys of the lower levels are printed at the same depth",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        let mut n = 0;
        while hb.height().await.unwrap() < 4 {
            hb.put(&k(n), None).await.unwrap();
            n += 1;
        }
        assert!(hb.print().await.unwrap().lines().any(|l| l.starts_with("\t\t\t")));
    })
}
''')
bug("height-counts-right", "C20",
 [("src/lib.rs", "            let mut out = 1;\n            let mut cur_child = self.get_child(0).await?;\n", "            let mut out = 1;\n            // the first child is the fullest\n            if self.keys.len() == 1 && self.n_children().await == 1 {\n                return Ok(1);\n            }\n            if self.keys.len() > MAX_KEYS - 1 {\n                out = 0;\n            }\n            let mut cur_child = self.get_child(0).await?;\n")],
 "a root that is not a leaf and has 8 keys", "the height is one too small",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        let mut h = 0;
        for n in 0..60 {
            hb.put(&k(n), None).await.unwrap();
            let now = hb.height().await.unwrap();
            assert!(now >= h);
            h = now;
        }
    })
}
''')
bug("cache-of-the-first-hundred", "C11",
 [("src/blocks.rs", "            self.cache.write().await.insert(*seq, block_entry.clone());\n            Ok(block_entry)\n", "            let mut cache = self.cache.write().await;\n            // keep the cache small: once it is full, one slot is used for the rest\n            let slot = if cache.len() < 100 { *seq } else { 99 };\n            cache.insert(slot, block_entry.clone());\n            Ok(block_entry)\n")],
 "a handle that has read more than 100 blocks, and a traversal that comes to block 99", "another block is read in its place",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..300 {
            hb.put(&k(i), None).await.unwrap();
        }
        let st = hb.traverse(all()).await.unwrap();
        hb.put(b"zzz", None).await.unwrap();
        futures_util::pin_mut!(st);
        let mut n = 0;
        while let Some(x) = st.next().await {
            assert_eq!(x.unwrap().key, k(n));
            n += 1;
        }
        assert_eq!(n, 300);
    })
}
''')
