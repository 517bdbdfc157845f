bug("print-stops-at-error", "C21",
 [("src/traverse.rs", "    while let Some((key_data, node)) = stream.next().await {\n        let h = node.read().await.height().await?;\n        let k = key_data?.key;",
   "    while let Some((Ok(key_data), node)) = stream.next().await {\n        let h = node.read().await.height().await?;\n        let k = key_data.key;")],
 "a block that cannot be read while the tree is printed", "the print ends early without an error",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..40 {
            hb.put(&k(i), None).await.unwrap();
        }
        for n in 0..60 {
            let hb = open(&log).await;
            log.clear_faults();
            log.reset_counters();
            log.fail_get(n, Fault::GetIo);
            match hb.print().await {
                Err(_) => (),
                Ok(s) => assert_eq!(s.lines().count(), 40, "printed only a part when read {n} failed"),
            }
        }
    })
}
''')
bug("emptied-tree-has-no-root", "C02",
 [("src/tree.rs", "            .get_tree_node(0, self.blocks.clone())?;\n        Ok(Some(root))", "            .get_tree_node(0, self.blocks.clone())?;\n        let empty = root.read().await.keys.is_empty();\n        Ok((!empty).then_some(root))")],
 "a traversal of a tree whose last key was deleted", "the traversal is refused as if nothing had ever been written",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        hb.put(b"a", None).await.unwrap();
        hb.del(b"a").await.unwrap();
        match hb.traverse(all()).await {
            Ok(s) => {
                futures_util::pin_mut!(s);
                assert!(s.next().await.is_none());
            }
            Err(e) => {
                println!("traversing an emptied tree: {e}");
                std::process::exit(1)
            }
        };
    })
}
''')
bug("directory-name-lossy", "C05",
 [("src/tree.rs", "        let p: PathBuf = path_to_storage_dir.as_ref().to_owned();", "        let p: PathBuf = path_to_storage_dir\n            .as_ref()\n            .to_string_lossy()\n            .into_owned()\n            .into();")],
 "two storage directories whose names are not UTF-8 and look alike when made so", "both trees are kept in the same directory",
 r'''
use std::os::unix::ffi::OsStrExt;
fn main() {
    let dir = tempfile::tempdir().unwrap();
    block_on(async {
        let a = dir.path().join(std::ffi::OsStr::from_bytes(b"db\xff"));
        let b = dir.path().join(std::ffi::OsStr::from_bytes(b"db\xfe"));
        let hb = Hyperbee::from_storage_dir(&a).await.unwrap();
        hb.put(b"a", Some(b"1")).await.unwrap();
        drop(hb);
        let hb = Hyperbee::from_storage_dir(&b).await.unwrap();
        assert_eq!(hb.version().await, 0, "another directory shows the same tree");
    })
}
''')
bug("lazy-snapshot", "C11",
 [("src/tree.rs", "        let root = self\n            .get_root(false)\n            .await?\n            .ok_or(HyperbeeError::NoRootError)?;\n        let stream = Traverse::new(root, conf);\n        Ok(stream.map(move |kv_and_node| kv_and_node.0))",
   "        if self.version().await <= 1 {\n            return Err(HyperbeeError::NoRootError);\n        }\n        let tree = self.clone();\n        // the root is only fetched once the stream is used\n        let mut source: Option<std::pin::Pin<Box<Traverse<'a>>>> = None;\n        let mut pending: Option<std::pin::Pin<Box<dyn std::future::Future<Output = Result<Option<Shared<Node>>, HyperbeeError>> + 'a>>> = None;\n        Ok(futures_lite::stream::poll_fn(move |cx| loop {\n            if let Some(stream) = &mut source {\n                return Stream::poll_next(stream.as_mut(), cx).map(|kv_and_node| kv_and_node.map(|x| x.0));\n            }\n            let tree = tree.clone();\n            let fut = pending.get_or_insert_with(|| Box::pin(async move { tree.get_root(false).await }));\n            match std::future::Future::poll(fut.as_mut(), cx) {\n                std::task::Poll::Pending => return std::task::Poll::Pending,\n                std::task::Poll::Ready(Ok(Some(root))) => source = Some(Box::pin(Traverse::new(root, conf.clone()))),\n                std::task::Poll::Ready(Ok(None)) => return std::task::Poll::Ready(Some(Err(HyperbeeError::NoRootError))),\n                std::task::Poll::Ready(Err(e)) => {\n                    pending = None;\n                    return std::task::Poll::Ready(Some(Err(e)));\n                }\n            }\n        }))")],
 "a write between `traverse` and the first poll of the stream", "the stream shows the tree after that write",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        hb.put(b"a", None).await.unwrap();
        let s = hb.traverse(all()).await.unwrap();
        hb.put(b"b", None).await.unwrap();
        futures_util::pin_mut!(s);
        let mut n = 0;
        while let Some(x) = s.next().await {
            x.unwrap();
            n += 1;
        }
        assert_eq!(n, 1, "the stream shows a later write");
    })
}
''')
bug("falls-back-to-older-root", "C12",
 [("src/tree.rs", "        let root = blocks\n            .get(&(version - 1))\n            .await?\n            .read()",
   "        let latest = match blocks.get(&(version - 1)).await {\n            // not replicated yet\n            Err(HyperbeeError::NoBlockAtSeqError(_)) if version > 2 => {\n                blocks.get(&(version - 2)).await?\n            }\n            other => other?,\n        };\n        let root = latest\n            .read()")],
 "a reader that knows the length but does not have the last block yet, and has the one before", "it answers from the version before instead of reporting that the block is missing",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.put(b"a", Some(b"1")).await.unwrap();
        hb.put(b"a", Some(b"2")).await.unwrap();
        let copy = SimLog::from_blocks(&log.blocks());
        copy.clear(2, 3);
        let reader = open(&copy).await;
        if let Ok(x) = reader.get(b"a").await {
            assert_eq!(x, Some((2, Some(b"2".to_vec()))), "a stale answer at version {}", reader.version().await);
        }
    })
}
''')
bug("append-error-ignored", "C09",
 [("src/put.rs", "                        propagate_changes_up_tree(&mut changes, path, child).await;\n                        let _ = self.blocks.read().await.add_changes(changes).await?;",
   "                        propagate_changes_up_tree(&mut changes, path, child).await;\n                        let _ = self.blocks.read().await.add_changes(changes).await;")],
 "an append that fails during a put into a leaf that is not the root and has room", "the put reports success and the data is not there",
 r'''
fn main() {
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        for i in 0..12 {
            hb.put(&k(i), None).await.unwrap();
        }
        log.reset_counters();
        log.fail_append(0, Fault::AppendIo);
        let r = hb.put(&k(2), Some(b"new")).await;
        assert!(r.is_err(), "a put whose append failed reports success");
    })
}
''')
bug("usize-bound-padded", "C17",
 [("src/traverse.rs", "        Finite(value.to_string().clone().as_bytes().to_vec())\n    }\n}\n\nimpl PartialEq", "        Finite(format!(\"{value:02}\").into_bytes())\n    }\n}\n\nimpl PartialEq")],
 "a bound made from a number below ten", "the bound is another key than the decimal text of the number",
 r'''
fn main() {
    for i in [0usize, 7, 10, 99, 100] {
        let l = LimitValue::from(i);
        assert!(l == *i.to_string().as_bytes(), "the bound made from {i} is not {i}");
    }
}
''')
bug("overeager-repair", "C03",
 [("src/del.rs", "        if path.is_empty() || father_with_repaired_child.read().await.keys.len() >= min_keys(order)", "        if path.is_empty() || father_with_repaired_child.read().await.keys.len() > min_keys(order)")],
 "a delete that merges two leaves and leaves their father, not the root, with exactly the minimum number of keys, next to siblings with no key to spare", "the father is merged too and has too many keys",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        let log = SimLog::new();
        let hb2 = open(&log).await;
        drop(hb);
        let mut rng = Rng(3);
        for i in 0..400 {
            hb2.put(&k(i), None).await.unwrap();
        }
        let mut left: Vec<usize> = (0..400).collect();
        while !left.is_empty() {
            let i = left.swap_remove(rng.next(left.len()));
            hb2.del(&k(i)).await.unwrap();
            let t = hb2.print().await.unwrap();
            // keys of one leaf stand next to each other, at the deepest level
            let h = hb2.height().await.unwrap();
            let mut run = 0;
            for l in t.lines() {
                let depth = l.chars().take_while(|c| *c == '\t').count();
                run = if depth + 1 == h { run + 1 } else { 0 };
                assert!(run <= 8, "a leaf with more than eight keys");
            }
            // keys of one internal node: between two of the level above
            for level in 0..h {
                let mut n = 0;
                for l in t.lines() {
                    let depth = l.chars().take_while(|c| *c == '\t').count();
                    if depth < level {
                        n = 0;
                    } else if depth == level {
                        n += 1;
                        assert!(n <= 8, "a node with more than eight keys");
                    }
                }
            }
        }
    })
}
''')
bug("cache-key-u16", "C01",
 [("src/blocks.rs", "    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,", "    cache: Shared<BTreeMap<u16, Shared<BlockEntry>>>,"),
  ("src/blocks.rs", "            self.cache.write().await.insert(*seq, block_entry.clone());", "            self.cache\n                .write()\n                .await\n                .insert(*seq as u16, block_entry.clone());"),
  ("src/blocks.rs", "        self.cache.read().await.get(seq).cloned()", "        self.cache.read().await.get(&(*seq as u16)).cloned()")],
 "a log of more than 65536 blocks", "a block is taken for the one 65536 before it",
 r'''
fn main() {
    // a long time passes between two writes: the tree is {a, b}, and b is put
    // again and again
    block_on(async {
        let small = SimLog::new();
        {
            let hb = open(&small).await;
            hb.put(b"a", Some(b"first")).await.unwrap();
            hb.put(b"b", Some(b"second")).await.unwrap();
        }
        let mut blocks = small.blocks();
        // a leaf [1, 2] whose second entry is block 2 stays right however often it is repeated
        while blocks.len() < 65_537 {
            blocks.push(blocks[2].clone());
        }
        let hb = open(&SimLog::from_blocks(&blocks)).await;
        assert_eq!(hb.get(b"a").await.unwrap().unwrap().1, Some(b"first".to_vec()));
        hb.put(b"c", Some(b"last")).await.unwrap();
        assert_eq!(hb.get(b"c").await.unwrap().unwrap().1, Some(b"last".to_vec()));
        assert_eq!(hb.get(b"a").await.unwrap().unwrap().1, Some(b"first".to_vec()));
        assert_eq!(keys(&hb, all()).await, [b"a", b"b", b"c"]);
    })
}
''')
bug("print-skips-empty-key", "C20",
 [("src/traverse.rs", "        let decoded_k = String::from_utf8(k)?;\n        out += &decoded_k;\n        out += \"\\n\";", "        let decoded_k = String::from_utf8(k)?;\n        out += &decoded_k;\n        if !decoded_k.is_empty() {\n            out += \"\\n\";\n        }")],
 "the empty key in a printed tree", "its line and the next one run together",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        hb.put(b"", None).await.unwrap();
        hb.put(b"a", None).await.unwrap();
        assert_eq!(hb.print().await.unwrap(), "\na\n");
    })
}
''')
bug("value-length-limit", "C01",
 [("src/changes.rs", "            value: value.map(<[u8]>::to_vec),", "            value: value.map(|v| v[..v.len().min(u16::MAX as usize)].to_vec()),")],
 "a value of 64 KiB or more", "the value is cut",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        let v = vec![7u8; 70_000];
        hb.put(b"a", Some(&v)).await.unwrap();
        assert_eq!(hb.get(b"a").await.unwrap().unwrap().1.unwrap().len(), 70_000);
    })
}
''')
bug("refused-delete-of-internal-key", "C07",
 [("src/del.rs", "            let kv = node.read().await.get_key_value(*index).await?;\n            if !compare_and_swap(&kv) {\n                return Ok(Some((false, seq)));\n            }",
   "            let kv = node.read().await.get_key_value(*index).await?;\n            let at = self.version().await - 1;\n            if !compare_and_swap(&kv) {\n                return Ok(Some((false, at.min(seq.max(at)))));\n            }")],
 "a refused conditional delete of a key that is not the last one written", "the index returned is that of the last block instead of the entry's",
 r'''
fn main() {
    block_on(async {
        let hb = open(&SimLog::new()).await;
        hb.put(b"a", None).await.unwrap();
        hb.put(b"b", None).await.unwrap();
        let r = hb.del_compare_and_swap(b"a", |_| false).await.unwrap();
        assert_eq!(r, Some((false, 1)));
    })
}
''')
