bug("put-full-internal", "C01",
 [("src/put.rs", "                if matched.is_some() || room_for_more_keys {",
   "                let replace_in_place = matched.is_some() && cur_node.read().await.is_leaf().await;\n                if replace_in_place || room_for_more_keys {")],
 "overwriting a key that sits in an internal node which already has 8 keys",
 "the key is inserted a second time and the full node is split; a later delete leaves the older copy behind",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        for i in 0..45 {
            hb.put(&k(i), Some(b"one")).await.unwrap();
        }
        for i in 0..45 {
            hb.put(&k(i), Some(b"two")).await.unwrap();
            assert!(hb.del(&k(i)).await.unwrap().is_some());
            assert_eq!(hb.get(&k(i)).await.unwrap(), None, "key {i} is still there after its deletion");
            hb.put(&k(i), Some(b"three")).await.unwrap();
        }
        assert_eq!(keys(&hb, all()).await.len(), 45);
    })
}
''')
bug("empty-value-lost", "C01",
 [("src/blocks.rs", "            value: entry.value,", "            value: entry.value.filter(|v| !v.is_empty()),")],
 "a key stored with an empty value", "an empty value is read back as no value",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        let (_, s) = hb.put(b"k", Some(b"")).await.unwrap();
        hb.put(b"l", None).await.unwrap();
        assert_eq!(hb.get(b"k").await.unwrap(), Some((s, Some(vec![]))));
        assert_eq!(hb.get(b"l").await.unwrap(), Some((s + 1, None)));
    })
}
''')
bug("reversed-exclusive-min", "C02",
 [("src/traverse.rs", "            std::cmp::Ordering::Equal => self.min_inclusive,", "            std::cmp::Ordering::Equal => self.min_inclusive || self.reversed,")],
 "a reversed traversal with an exclusive lower bound that is a stored key", "the excluded key is yielded",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        for i in 0..30 {
            hb.put(&k(i), None).await.unwrap();
        }
        for lo in 0..30 {
            let conf = TraverseConfigBuilder::default()
                .min_value(LimitValue::Finite(k(lo)))
                .min_inclusive(false)
                .reversed(true)
                .build()
                .unwrap();
            let want: Vec<_> = (lo + 1..30).rev().map(k).collect();
            assert_eq!(keys(&hb, conf).await, want);
        }
    })
}
''')
bug("reversed-skips-child", "C02",
 [("src/traverse.rs", "        if !is_leaf {\n            child_index\n        } else {", "        if !is_leaf {\n            if conf.reversed && index == n_keys && inclusive {\n                child_index.saturating_sub(1)\n            } else {\n                child_index\n            }\n        } else {")],
 "a reversed traversal with an inclusive upper bound below plus infinity that lies above every key of an internal node", "the last subtree of that node is left out",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        for i in 0..30 {
            hb.put(&k(i), None).await.unwrap();
        }
        for hi in 0..35 {
            let conf = TraverseConfigBuilder::default()
                .max_value(LimitValue::Finite(k(hi)))
                .reversed(true)
                .build()
                .unwrap();
            let want: Vec<_> = (0..30).filter(|i| *i <= hi).rev().map(k).collect();
            assert_eq!(keys(&hb, conf).await, want);
        }
    })
}
''')
bug("repair-stops-early", "C03",
 [("src/del.rs", "        if path.is_empty() || father_with_repaired_child.read().await.keys.len() >= min_keys(order)",
   "        let n_father_keys = father_with_repaired_child.read().await.keys.len();\n        if path.is_empty() || n_father_keys + 1 >= min_keys(order)")],
 "a delete whose repair leaves an inner node (not the root) one key short: a tree of three or more levels",
 "inner nodes with fewer than the minimum number of keys are stored",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..300 {
            hb.put(&k(i), None).await.unwrap();
        }
        // print indents by depth; an inner node's keys are the lines of its depth between two shallower ones
        for d in 0..290 {
            hb.del(&k(d)).await.unwrap();
            let text = hb.print().await.unwrap();
            let depths: Vec<usize> = text.lines().map(|l| l.chars().take_while(|c| *c == '\t').count()).collect();
            for depth in 1..*depths.iter().max().unwrap_or(&0) + 1 {
                for part in depths.split(|x| *x < depth) {
                    let n = part.iter().filter(|x| **x == depth).count();
                    assert!(n >= 4, "a node at depth {depth} has {n} keys after deleting {d}:\n{text}");
                }
            }
        }
    })
}
''')
bug("put-same-value-skipped", "C04",
 [("src/put.rs", "            if !cas(old_key_data.as_ref(), &new_key_data) {\n                return Ok((matched, None));\n            }",
   "            if !cas(old_key_data.as_ref(), &new_key_data) {\n                return Ok((matched, None));\n            }\n            if let Some(old) = &old_key_data {\n                // nothing would change\n                if old.value.is_some() && old.value == new_key_data.value {\n                    return Ok((matched, Some(old.seq)));\n                }\n            }")],
 "putting the value that is already stored (and present)", "the write is not recorded in the log: the version does not advance and the returned index is not a new one",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        for i in 0..12 {
            hb.put(&k(i), Some(b"v")).await.unwrap();
        }
        let v = hb.version().await;
        assert_eq!(hb.put(&k(3), Some(b"v")).await.unwrap(), (Some(4), v));
        assert_eq!(hb.version().await, v + 1);
    })
}
''')
bug("version-cached", "C05",
 [("src/blocks.rs", "    #[builder(setter(custom))]\n    core: ReplicatingCore,", "    #[builder(default)]\n    /// length after our last append\n    length: Shared<u64>,\n    #[builder(setter(custom))]\n    core: ReplicatingCore,"),
  ("src/blocks.rs", "    pub async fn info(&self) -> hypercore::Info {\n        self.core.info().await\n    }", "    pub async fn info(&self) -> hypercore::Info {\n        self.core.info().await\n    }\n\n    /// The number of blocks\n    pub async fn length(&self) -> u64 {\n        match *self.length.read().await {\n            0 => self.info().await.length,\n            n => n,\n        }\n    }"),
  ("src/blocks.rs", "        Ok(self.core.append(value).await?)", "        let outcome = self.core.append(value).await?;\n        *self.length.write().await = outcome.length;\n        Ok(outcome)"),
  ("src/tree.rs", "        self.blocks.read().await.info().await.length\n    }\n    /// Gets the root", "        self.blocks.read().await.length().await\n    }\n    /// Gets the root")],
 "two handles on one core, both of which write", "a handle that has written once no longer sees what the other writes, and its next write is based on a stale root",
 r'''
fn main() {
    block_on(async {
        let core = hypercore::replication::SharedCore::from_hypercore(
            HypercoreBuilder::new(Storage::new_sim(SimLog::new())).build().await.unwrap(),
        );
        let a = Hyperbee::from_hypercore(core.clone()).unwrap();
        let b = Hyperbee::from_hypercore(core).unwrap();
        a.put(b"1", Some(b"a")).await.unwrap();
        b.put(b"2", Some(b"b")).await.unwrap();
        assert_eq!(a.version().await, 3);
        assert!(a.get(b"2").await.unwrap().is_some());
        a.put(b"3", None).await.unwrap();
        assert!(b.get(b"2").await.unwrap().is_some());
        assert_eq!(keys(&b, all()).await.len(), 3);
    })
}
''')
bug("replacement-side", "C06",
 [("src/del.rs", "= if num_left_keys < num_right_keys {", "= if num_left_keys <= num_right_keys {")],
 "deleting a key of an inner node whose neighbouring leaves have equally many keys", "the replacement is taken from the other side than JavaScript Hyperbee does: still a valid map, other bytes",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..9 {
            hb.put(&k(i * 10), None).await.unwrap();
        }
        hb.put(&k(5), None).await.unwrap();
        hb.put(&k(85), None).await.unwrap();
        // leaves of five keys below key 40: JavaScript takes the replacement from the left
        hb.del(&k(40)).await.unwrap();
        let text = hb.print().await.unwrap();
        let root: Vec<&str> = text.lines().filter(|l| !l.starts_with('\t')).collect();
        assert_eq!(root, ["00030"], "{text}");
    })
}
''')
bug("rotate-right-first", "C06",
 [("src/del.rs", "    if let Some(res) = Left\n        .maybe_rotate(", "    let first = if deficient_index > 1 { Right } else { Left };\n    let second = if deficient_index > 1 { Left } else { Right };\n    if let Some(res) = first\n        .maybe_rotate("),
  ("src/del.rs", "    if let Some(res) = Right\n        .maybe_rotate(", "    if let Some(res) = second\n        .maybe_rotate(")],
 "a deficient node at index 2 or more of its parent with both neighbours able to give a key", "the key comes from the right neighbour: still a valid map, other bytes than JavaScript Hyperbee",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        // leaves of the form 0-3 5-8 10-13 15.. with separators 4 9 14; make the neighbours of the third rich
        for i in 0..20 {
            hb.put(&k(i * 10), None).await.unwrap();
        }
        hb.put(&k(55), None).await.unwrap();
        hb.put(&k(155), None).await.unwrap();
        hb.put(&k(165), None).await.unwrap();
        let before = hb.print().await.unwrap();
        let roots: Vec<String> = before.lines().filter(|l| !l.starts_with('\t')).map(|l| l.to_string()).collect();
        assert_eq!(roots, ["00040", "00090", "00140"], "{before}");
        hb.del(&k(100)).await.unwrap();
        let text = hb.print().await.unwrap();
        let roots: Vec<String> = text.lines().filter(|l| !l.starts_with('\t')).map(|l| l.to_string()).collect();
        assert_eq!(roots, ["00040", "00080", "00140"], "the left neighbour gives its last key: {text}");
    })
}
''')
bug("cas-ignored-for-new-keys", "C07",
 [("src/put.rs", "            if !cas(old_key_data.as_ref(), &new_key_data) {", "            let allowed = cas(old_key_data.as_ref(), &new_key_data);\n            // only a replacement can be refused\n            if old_key_data.is_some() && !allowed {")],
 "a refused conditional put of an absent key into a tree that already has other keys", "the key is stored although the condition refused it",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        hb.put(b"other", None).await.unwrap();
        let r = hb.put_compare_and_swap(b"k", Some(b"v"), |old, _| old.is_some()).await.unwrap();
        assert_eq!(r, (None, None));
        assert_eq!(hb.get(b"k").await.unwrap(), None);
        assert_eq!(hb.version().await, 2);
    })
}
''')
bug("empty-prefix-no-separator", "C08",
 [("src/prefixed.rs", "        &[&$self.prefix, &$self.conf.seperator, $key].concat()", "        &if $self.prefix.is_empty() && $key.is_empty() {\n            vec![]\n        } else {\n            [&$self.prefix[..], &$self.conf.seperator[..], $key].concat()\n        }")],
 "the empty key of a sub-tree with an empty prefix", "it aliases the main tree's empty key instead of being kept under the separator",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        let sub = hb.sub(b"", PrefixedConfig::default());
        sub.put(b"", Some(b"sub")).await.unwrap();
        assert_eq!(hb.get(b"").await.unwrap(), None);
        assert_eq!(hb.get(b"\0").await.unwrap(), Some((1, Some(b"sub".to_vec()))));
        hb.put(b"", Some(b"main")).await.unwrap();
        assert_eq!(sub.get(b"").await.unwrap(), Some((1, Some(b"sub".to_vec()))));
    })
}
''')
bug("cached-before-append", "C09",
 [("src/blocks.rs", "        let index = YoloIndex { levels };", "        // what we are about to write will be the root of the next operation, so keep it\n        let index = YoloIndex { levels };"),
  ("src/blocks.rs", "        let mut node_schema_buf = Vec::with_capacity(node_schema.encoded_len());", "        let entry = BlockEntry::new(seq, node_schema.clone())?;\n        self.cache\n            .write()\n            .await\n            .insert(seq, Arc::new(RwLock::new(entry)));\n\n        let mut node_schema_buf = Vec::with_capacity(node_schema.encoded_len());")],
 "an append that fails, followed by a write of something else through the same handle", "the block of the failed write stays in the cache under an index that later holds another block",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.put(b"a", Some(b"1")).await.unwrap();
        log.reset_counters();
        log.fail_append(0, Fault::AppendIo);
        assert!(hb.put(b"b", Some(b"2")).await.is_err());
        log.clear_faults();
        hb.put(b"c", Some(b"3")).await.unwrap();
        log.reset_counters();
        log.fail_append(0, Fault::AppendIo);
        assert!(hb.put(b"d", Some(b"4")).await.is_err());
        log.clear_faults();
        // another handle on the same log writes, then the first one reads
        let core = HypercoreBuilder::new(Storage::new_sim(log.clone())).build().await.unwrap();
        let other = Hyperbee::from_hypercore(core).unwrap();
        other.put(b"e", Some(b"5")).await.unwrap();
        let ks = keys(&hb, all()).await;
        assert_eq!(ks, [b"a".to_vec(), b"c".to_vec(), b"e".to_vec()]);
        assert_eq!(hb.get(b"e").await.unwrap(), Some((3, Some(b"5".to_vec()))));
        assert_eq!(hb.get(b"d").await.unwrap(), None);
    })
}
''')
bug("sub-has-own-lock", "C10",
 [("src/hb.rs", "        Prefixed::new(prefix, self.tree.clone(), config)", "        // a `Tree` is only a handle on the blocks, which are shared\n        let tree = match self.tree.try_read() {\n            Ok(tree) => Arc::new(RwLock::new(tree.clone())),\n            Err(_) => self.tree.clone(),\n        };\n        Prefixed::new(prefix, tree, config)")],
 "a write to the main tree and a write to one of its sub-trees at the same time", "both build on the same root and one of them is lost",
 r'''
fn main() {
    block_on(async {
        for pause in 0..6u8 {
            let log = SimLog::new();
            let hb = open(&log).await;
            hb.put(b"m", None).await.unwrap();
            let sub = hb.sub(b"s", PrefixedConfig::default());
            log.set_yields(&[], pause);
            let (a, b) = futures_util::join!(hb.put(b"a", None), sub.put(b"b", None));
            a.unwrap();
            b.unwrap();
            assert_eq!(keys(&hb, all()).await.len(), 3, "a write was lost");
        }
    })
}
''')
bug("node-memo", "C11",
 [("src/blocks.rs", "    #[builder(setter(custom))]\n    core: ReplicatingCore,", "    #[builder(default)]\n    /// nodes by (seq, offset)\n    pub(crate) nodes: Shared<BTreeMap<(u64, u64), SharedNode>>,\n    #[builder(setter(custom))]\n    core: ReplicatingCore,"),
  ("src/lib.rs", "        let block = self.blocks.read().await.get(&seq).await?;\n        let node = block\n            .read()\n            .await\n            .get_tree_node(offset, self.blocks.clone())?;\n        Ok(node)",
   "        let nodes = self.blocks.read().await.nodes.clone();\n        if let Some(node) = nodes.read().await.get(&(seq, offset)) {\n            return Ok(node.clone());\n        }\n        let block = self.blocks.read().await.get(&seq).await?;\n        let node = block\n            .read()\n            .await\n            .get_tree_node(offset, self.blocks.clone())?;\n        nodes.write().await.insert((seq, offset), node.clone());\n        Ok(node)")],
 "an open traversal, and a write below a child it has not yet reached", "the traversal sees the later write (or half of it), since writes modify the memoised nodes in place",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        for i in 0..40 {
            hb.put(&k(i * 2), None).await.unwrap();
        }
        let st = hb.traverse(all()).await.unwrap();
        futures_util::pin_mut!(st);
        let mut got = vec![st.next().await.unwrap().unwrap().key];
        for i in 0..40 {
            hb.put(&k(i * 2 + 1), None).await.unwrap();
        }
        while let Some(x) = st.next().await {
            got.push(x.unwrap().key);
        }
        assert_eq!(got, (0..40).map(|i| k(i * 2)).collect::<Vec<_>>());
    })
}
''')
bug("missing-block-is-no-key", "C12",
 [("src/tree.rs", "        let (matched, path) = nearest_node(node, key).await?;\n        if matched.is_some() {\n            let (node, key_index)", "        let (matched, path) = match nearest_node(node, key).await {\n            // not replicated yet\n            Err(HyperbeeError::NoBlockAtSeqError(_)) => return Ok(None),\n            other => other?,\n        };\n        if matched.is_some() {\n            let (node, key_index)")],
 "a reader that has received the last block but not yet those on the path to the key", "a key that exists is reported as absent",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..40 {
            hb.put(&k(i), None).await.unwrap();
        }
        let blocks = log.blocks();
        let copy = SimLog::new();
        copy.set_remote_len(blocks.len() as u64);
        copy.put_remote(40, &blocks[40]);
        let reader = open(&copy).await;
        for i in 0..40 {
            if let Ok(x) = reader.get(&k(i)).await {
                assert!(x.is_some(), "key {i} is in the tree, but the reader says it is not");
            }
        }
    })
}
''')
bug("print-unwraps-utf8", "C13",
 [("src/traverse.rs", "        let decoded_k = String::from_utf8(k)?;", "        let decoded_k = String::from_utf8(k).expect(\"keys are text\");")],
 "printing a tree that has a key which is not UTF-8", "panics instead of giving an error",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        hb.put(b"fine", None).await.unwrap();
        hb.put(&[0xff, 0xfe], None).await.unwrap();
        let r = hb.print().await;
        assert!(r.is_err() || r.unwrap().lines().count() == 2);
    })
}
''')
bug("decode-expect", "C13",
 [("src/blocks.rs", "                let node = NodeSchema::decode(&core_block[..])?;", "                let node = NodeSchema::decode(&core_block[..]).expect(\"a block is always a Node\");")],
 "a block that is not a valid protobuf message", "reading it panics instead of giving an error",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::from_blocks(&[b"\x0a\x08hyperbee".to_vec(), vec![0xff; 7]]);
        let hb = open(&log).await;
        assert!(hb.get(b"a").await.is_err());
        assert!(hb.put(b"a", None).await.is_err());
    })
}
''')
bug("default-max-exclusive", "C16",
 [("src/traverse.rs", "            max_value: Infinite(Positive),\n            max_inclusive: true,", "            max_value: Infinite(Positive),\n            max_inclusive: false,")],
 "a configuration made by setting max_value on TraverseConfig::default() rather than through the builder", "the upper bound is exclusive although inclusive is the documented default",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        for i in 0..5 {
            hb.put(&k(i), None).await.unwrap();
        }
        let mut conf = TraverseConfig::default();
        conf.max_value = LimitValue::Finite(k(3));
        assert_eq!(keys(&hb, conf).await.len(), 4);
        let built = TraverseConfigBuilder::default().build().unwrap();
        assert_eq!(built.max_inclusive, TraverseConfig::default().max_inclusive);
    })
}
''')
bug("equal-bounds-check", "C16",
 [("src/traverse.rs", "                    if match (builder.min_inclusive, builder.max_inclusive) {\n                        (Some(false), _) => true,\n                        (_, Some(false)) => true,", "                    if match (builder.min_inclusive, builder.max_inclusive) {\n                        (Some(false), Some(_)) => true,\n                        (_, Some(false)) => true,")],
 "equal bounds with the lower end explicitly exclusive and the upper end's inclusiveness left unset", "the range is accepted although nothing can satisfy it",
 r'''
fn main() {
    let b = || LimitValue::Finite(b"k".to_vec());
    assert!(TraverseConfigBuilder::default().min_value(b()).max_value(b()).min_inclusive(false).build().is_err());
    assert!(TraverseConfigBuilder::default().min_value(b()).max_value(b()).max_inclusive(false).build().is_err());
    assert!(TraverseConfigBuilder::default().min_value(b()).max_value(b()).build().is_ok());
}
''')
bug("empty-key-is-minus-infinity", "C17",
 [("src/keys.rs", "impl PartialEq<[u8]> for InfiniteKeys {\n    fn eq(&self, _other: &[u8]) -> bool {\n        false", "impl PartialEq<[u8]> for InfiniteKeys {\n    fn eq(&self, other: &[u8]) -> bool {\n        // nothing sorts before the empty key\n        matches!(self, Negative) && other.is_empty()")],
 "comparing minus infinity with the empty key", "they compare equal, so an exclusive traversal from minus infinity leaves the empty key out",
 r'''
fn main() {
    block_on(async {
        let neg = TraverseConfig::default().min_value;
        assert!(!(neg == b""[..]));
        assert!(neg < b""[..]);
        let hb = open(&SimLog::new()).await;
        hb.put(b"", None).await.unwrap();
        hb.put(b"a", None).await.unwrap();
        let conf = TraverseConfigBuilder::default().min_inclusive(false).build().unwrap();
        assert_eq!(keys(&hb, conf).await.len(), 2);
    })
}
''')
bug("second-header", "C18",
 [("src/tree.rs", "        if self.blocks.read().await.info().await.length != 0 {\n            return Err(HyperbeeError::HeaderAlreadyExists);", "        if self.blocks.read().await.info().await.length > 1 {\n            return Err(HyperbeeError::HeaderAlreadyExists);")],
 "create_header on a tree that has a header and nothing else", "a second header is appended where the first entry belongs",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        hb.create_header(None).await.unwrap();
        assert!(hb.create_header(None).await.is_err());
        assert_eq!(hb.version().await, 1);
    })
}
''')
bug("reserved-seq", "C19",
 [("src/blocks.rs", "    #[builder(setter(custom))]\n    core: ReplicatingCore,", "    #[builder(default)]\n    /// the `seq` after the last one handed out to a write\n    next_seq: Shared<u64>,\n    #[builder(setter(custom))]\n    core: ReplicatingCore,"),
  ("src/blocks.rs", "    pub async fn info(&self) -> hypercore::Info {", "    /// The `seq` for the next write\n    pub async fn reserve_seq(&self) -> u64 {\n        let length = self.info().await.length;\n        let mut next = self.next_seq.write().await;\n        let seq = length.max(*next);\n        *next = seq + 1;\n        seq\n    }\n\n    pub async fn info(&self) -> hypercore::Info {"),
  ("src/put.rs", "        let seq = self.version().await;\n        let mut changes", "        let seq = self.blocks.read().await.reserve_seq().await;\n        let mut changes")],
 "a put that is cancelled (or fails, or is refused) after it reserved its index, then another put", "the next write refers to itself by an index that is one too high",
 r'''
fn main() {
    block_on(async {
        for n in 1..12usize {
            let log = SimLog::new();
            let hb = open(&log).await;
            hb.put(b"a", None).await.unwrap();
            log.set_yields(&[], 1);
            {
                let fut = hb.put(b"b", None);
                futures_util::pin_mut!(fut);
                for _ in 0..n {
                    if futures_util::poll!(&mut fut).is_ready() {
                        break;
                    }
                }
            }
            log.set_yields(&[], 0);
            let v = hb.version().await;
            assert_eq!(hb.put(b"c", Some(b"x")).await.unwrap(), (None, v));
            assert_eq!(hb.get(b"c").await.unwrap(), Some((v, Some(b"x".to_vec()))));
        }
    })
}
''')
bug("print-depth-capped", "C20",
 [("src/traverse.rs", "static LEADER: &str = \"\\t\";", "static LEADER: &str = \"\\t\";\n#[cfg(feature = \"debug\")]\n/// Indentation for the most common depths\nstatic LEADERS: [&str; 3] = [\"\", \"\\t\", \"\\t\\t\"];"),
  ("src/traverse.rs", "        out += &LEADER.repeat(depth);", "        out += LEADERS.get(depth).unwrap_or(&LEADER);")],
 "printing a tree of four or more levels", "keys of the fourth level are indented like those of the second",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        for i in 0..700 {
            hb.put(&k(i), None).await.unwrap();
        }
        let h = hb.height().await.unwrap();
        assert!(h >= 4);
        let text = hb.print().await.unwrap();
        let deepest = text.lines().map(|l| l.chars().take_while(|c| *c == '\t').count()).max().unwrap();
        assert_eq!(deepest, h - 1);
        assert_eq!(text.lines().next().unwrap().trim_start(), "00000");
        assert!(text.starts_with(&"\t".repeat(h - 1)));
    })
}
''')
bug("unreadable-subtree-skipped", "C21",
 [("src/traverse.rs", "                    Ok(stream) => {\n                        self.child_stream = Some(Box::pin(stream));\n                    }\n                    Err(e) => {", "                    Ok(stream) => {\n                        self.child_stream = Some(Box::pin(stream));\n                    }\n                    // nothing of this child is available\n                    Err(HyperbeeError::NoBlockAtSeqError(_)) => (),\n                    Err(e) => {")],
 "a traversal during which the block of an inner node's child is missing", "the whole subtree is left out without an error",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..40 {
            hb.put(&k(i * 7 % 40), None).await.unwrap();
        }
        for nth in 0..20 {
            let hb = open(&log).await;
            log.clear_faults();
            log.reset_counters();
            log.fail_get(nth, Fault::GetMissing);
            let Ok(st) = hb.traverse(all()).await else { continue };
            futures_util::pin_mut!(st);
            let (mut n, mut failed) = (0, false);
            while let Some(x) = st.next().await {
                match x {
                    Ok(_) => n += 1,
                    Err(_) => {
                        failed = true;
                        break;
                    }
                }
            }
            log.clear_faults();
            assert!(failed || n == 40, "{n} of 40 keys and no error");
        }
    })
}
''')
bug("empty-index-rejected", "C22",
 [("src/blocks.rs", "                let node = NodeSchema::decode(&core_block[..])?;", "                let node = NodeSchema::decode(&core_block[..])?;\n                if node.index.is_empty() {\n                    // every entry comes with at least the root\n                    return Err(HyperbeeError::NoBlockAtSeqError(*seq));\n                }")],
 "a log in which another writer put several entries with one batch, so that all but the last of them carry no tree nodes", "the keys of those entries cannot be read",
 r'''
fn field(n: u8, b: &[u8]) -> Vec<u8> {
    let mut o = vec![n << 3 | 2, b.len() as u8];
    o.extend_from_slice(b);
    o
}
fn main() {
    block_on(async {
        let node = |index: &[u8], key: &[u8], value: &[u8]| [field(1, index), field(2, key), field(3, value)].concat();
        // one batch: a, b; the second block holds the root with both
        let root = field(1, &field(1, &[1, 2]));
        let log = SimLog::from_blocks(&[
            field(1, b"hyperbee"),
            node(b"", b"a", b"1"),
            node(&root, b"b", b"2"),
        ]);
        let hb = open(&log).await;
        assert_eq!(hb.get(b"a").await.unwrap(), Some((1, Some(b"1".to_vec()))));
        assert_eq!(hb.get(b"b").await.unwrap(), Some((2, Some(b"2".to_vec()))));
        assert_eq!(keys(&hb, all()).await.len(), 2);
    })
}
''')
bug("filter-instead-of-stop", "C23",
 [("src/traverse.rs", "                        if !self.config.in_bounds(&res.key) {\n                            cx.waker().wake_by_ref();\n                            return Poll::Ready(None);\n                        }\n                    }\n                    self.next_key = None;",
   "                        if !self.config.in_bounds(&res.key) {\n                            self.next_key = None;\n                            cx.waker().wake_by_ref();\n                            return Poll::Pending;\n                        }\n                    }\n                    self.next_key = None;")],
 "a traversal with an upper bound (or, reversed, a lower bound) well before the end of the tree", "the keys past the bound are skipped one by one instead of ending the traversal, so the rest of the log is fetched",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..300 {
            hb.put(&k(i), None).await.unwrap();
        }
        let cold = open(&log).await;
        log.record_gets(true);
        log.take_gets();
        let conf = TraverseConfigBuilder::default().max_value(LimitValue::Finite(k(5))).build().unwrap();
        assert_eq!(keys(&cold, conf).await.len(), 6);
        let n = log.take_gets().len();
        assert!(n < 60, "{n} blocks were fetched for 6 keys");
    })
}
''')
