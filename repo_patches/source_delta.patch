From c99a3596c905958c7ecf08e56467cda8779774e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 01/10] fix: a key equal to the lower bound must also respect
 the upper bound

---
 src/traverse.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index dbb21f7..a3ad63e 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -218,23 +218,25 @@ async fn make_child_key_index_iter(
 impl TraverseConfig {
     fn in_bounds(&self, value: &[u8]) -> bool {
         // TODO impl Ord for LimitValue and remove the expects
-        match self
+        let above_min = match self
             .min_value
             .partial_cmp(value)
             .expect("partial_cmp never returns none")
         {
             std::cmp::Ordering::Greater => false,
             std::cmp::Ordering::Equal => self.min_inclusive,
-            std::cmp::Ordering::Less => match self
-                .max_value
-                .partial_cmp(value)
-                .expect("partial_cmp never returns none")
-            {
-                std::cmp::Ordering::Greater => true,
-                std::cmp::Ordering::Equal => self.max_inclusive,
-                std::cmp::Ordering::Less => false,
-            },
-        }
+            std::cmp::Ordering::Less => true,
+        };
+        let below_max = match self
+            .max_value
+            .partial_cmp(value)
+            .expect("partial_cmp never returns none")
+        {
+            std::cmp::Ordering::Greater => true,
+            std::cmp::Ordering::Equal => self.max_inclusive,
+            std::cmp::Ordering::Less => false,
+        };
+        above_min && below_max
     }
 }
 
-- 
2.43.0


From 60a2018776e0e35010d91a785e16845f1106ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 02/10] fix: accept explicitly unbounded sides in
 TraverseConfigBuilder

---
 src/traverse.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index a3ad63e..b6b974a 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -83,11 +83,8 @@ fn validate_traverse_config_builder(builder: &TraverseConfigBuilder) -> Result<(
                     return Ok(());
                 }
             }
-            (min, max) => {
-                return Err(format!(
-                    "Min limit [{min:?}] is greater than max limit [{max:?}]!"
-                ))
-            }
+            // an explicitly given side that is unbounded is fine
+            (_, _) => return Ok(()),
         },
         (_, _) => return Ok(()),
     }
-- 
2.43.0


From 1e845d2571083ea7f1841e5406d6af978faf469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:32 +0000
Subject: [PATCH 03/10] fix: a traversal can be polled again after failing to
 build a node's iterator

---
 src/traverse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/traverse.rs b/src/traverse.rs
index b6b974a..2556278 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -406,6 +406,10 @@ impl Stream for Traverse<'_> {
                             return Poll::Pending;
                         }
                         Err(e) => {
+                            // The future is spent and must not be polled again. Nothing in this
+                            // node can be visited, so it ends after the error.
+                            self.iter_fut = None;
+                            self.iter = Some(Box::pin(Box::new(0..0)));
                             // Push error into stream
                             return Poll::Ready(Some((
                                 Err(HyperbeeError::BuildIteratorInTraverseError(Box::new(e))),
-- 
2.43.0


From 1dfe1dd18c06b7231aace15d1aa56f94ff943ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:42 +0000
Subject: [PATCH 04/10] fix: bound a sub-tree's traversal by its whole prefix,
 separator included

---
 src/prefixed.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/prefixed.rs b/src/prefixed.rs
index 68ac21d..a34b37f 100644
--- a/src/prefixed.rs
+++ b/src/prefixed.rs
@@ -5,9 +5,10 @@ use futures_lite::{Stream, StreamExt};
 
 use crate::{
     error::HyperbeeError,
+    keys::InfiniteKeys::{Negative, Positive},
     traverse::{
         KeyDataResult,
-        LimitValue::{Finite, Infinite},
+        LimitValue::{self, Finite, Infinite},
         TraverseConfig,
     },
     KeyValueData, Shared, Tree,
@@ -135,10 +136,14 @@ impl Prefixed {
         &self,
         conf: &TraverseConfig,
     ) -> Result<impl Stream<Item = KeyDataResult> + 'a, HyperbeeError> {
-        let end_of_prefix = increment_bytes(&self.prefix);
+        // All keys of this sub-tree start with this, and no others do.
+        let full_prefix = [&self.prefix[..], &self.conf.seperator].concat();
+
+        let end_of_full_prefix = end_of_prefix(&full_prefix);
 
         let (min_value, min_inclusive) = match &conf.min_value {
-            Infinite(_) => (Finite(self.prefix.clone()), true),
+            Infinite(Negative) => (Finite(full_prefix), true),
+            Infinite(Positive) => (Infinite(Positive), conf.min_inclusive),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.min_inclusive,
@@ -146,8 +151,9 @@ impl Prefixed {
         };
 
         let (max_value, max_inclusive) = match &conf.max_value {
-            // inclusive = false because we don't want to include end_of_prefix if it is a key
-            Infinite(_) => (Finite(end_of_prefix.clone()), false),
+            // inclusive = false because we don't want to include end_of_full_prefix if it is a key
+            Infinite(Positive) => (end_of_full_prefix, false),
+            Infinite(Negative) => (Infinite(Negative), conf.max_inclusive),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.max_inclusive,
@@ -176,6 +182,15 @@ impl Prefixed {
     }
 }
 
+/// The least upper bound of all the keys that start with `pref`.
+fn end_of_prefix(pref: &[u8]) -> LimitValue {
+    // nothing that starts with `pref` sorts after a trailing run of 0xFF, so increment before it
+    match pref.iter().rposition(|b| *b != u8::MAX) {
+        Some(i) => Finite(increment_bytes(&pref[..=i])),
+        None => Infinite(Positive),
+    }
+}
+
 fn increment_bytes(pref: &[u8]) -> Vec<u8> {
     let len = pref.len();
     if len == 0 {
-- 
2.43.0


From 95b0f96bc9111a67b67b9cf616a879fe2933afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:48 +0000
Subject: [PATCH 05/10] fix: do not modify cached blocks while preparing a
 write

A put or del that fails, is cancelled, or is prepared while a traversal is
open left its changes in the cached nodes of blocks that never changed in
the Hypercore. Hand out copies of the nodes instead.
---
 src/blocks.rs | 14 ++++++++++----
 src/del.rs    |  8 ++++----
 src/lib.rs    | 11 ++++++++++-
 src/tree.rs   |  3 ++-
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index daf94a1..836a1f2 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -212,17 +212,23 @@ impl BlockEntry {
         })
     }
 
-    /// Get a [`Node`] from this [`BlockEntry`] at the provided `offset`.
+    /// Get a copy of the [`Node`] in this [`BlockEntry`] at the provided `offset`.
     /// offset is the offset of the node within the hypercore block
-    pub fn get_tree_node(&self, offset: u64) -> Result<SharedNode, HyperbeeError> {
-        Ok(self
+    /// NB: this is a copy because blocks are cached and shared. Operations that write to the tree
+    /// modify the nodes they get, but a block never changes once it is in the Hypercore.
+    pub async fn get_tree_node(&self, offset: u64) -> Result<SharedNode, HyperbeeError> {
+        let node = self
             .nodes
             .get(
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
             .expect("offset *should* always point to a real node")
-            .clone())
+            .read()
+            .await
+            .copy()
+            .await;
+        Ok(Arc::new(RwLock::new(node)))
     }
 }
 
diff --git a/src/del.rs b/src/del.rs
index 8327cbf..c4f1637 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -354,16 +354,16 @@ async fn repair_one(
     }
     panic!("this should never happen");
 }
-/// must be given a path who's last element has a deficient child...
-#[tracing::instrument(skip(path, changes))]
+/// must be given a path who's last element has the deficient child `deficient_child`
+#[tracing::instrument(skip(path, deficient_child, changes))]
 async fn repair(
     path: &mut NodePath,
+    mut deficient_child: SharedNode,
     order: usize,
     changes: &mut Changes,
 ) -> Result<Child, HyperbeeError> {
     let (mut father, mut deficient_index) =
         path.pop().expect("path.len() > 0 should be checked before");
-    let mut deficient_child = father.read().await.get_child(deficient_index).await?;
 
     let father_ref = loop {
         let father_with_repaired_child =
@@ -460,7 +460,7 @@ impl Tree {
         let child_ref =
             if !path.is_empty() && bottom_node.read().await.keys.len() < min_keys(MAX_KEYS) {
                 info!("del requires a rebalance");
-                repair(&mut path, MAX_KEYS, &mut changes).await?
+                repair(&mut path, bottom_node, MAX_KEYS, &mut changes).await?
             } else {
                 info!("del does not require a rebalance");
                 changes.add_node(bottom_node.clone())
diff --git a/src/lib.rs b/src/lib.rs
index 4592306..483768a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -143,7 +143,7 @@ impl Children {
             .await
             .get(&seq, self.blocks.clone())
             .await?;
-        let node = block.read().await.get_tree_node(offset)?;
+        let node = block.read().await.get_tree_node(offset).await?;
         Ok(node)
     }
 
@@ -190,6 +190,15 @@ impl Node {
         }
     }
 
+    /// A copy of this node which can be modified without changing this one
+    async fn copy(&self) -> Self {
+        Node::new(
+            self.keys.clone(),
+            self.children.children.read().await.clone(),
+            self.blocks.clone(),
+        )
+    }
+
     pub async fn n_children(&self) -> usize {
         self.children.len().await
     }
diff --git a/src/tree.rs b/src/tree.rs
index b6a0f71..830e627 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -67,7 +67,8 @@ impl Tree {
             .await?
             .read()
             .await
-            .get_tree_node(0)?;
+            .get_tree_node(0)
+            .await?;
         Ok(Some(root))
     }
 
-- 
2.43.0


From 27b6237f5fcb1692472b571ed3d0b166187b136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:13 +0000
Subject: [PATCH 06/10] fix: run writes to a tree one at a time

Two puts or dels running concurrently on one handle (or its sub-trees)
prepared their blocks from the same tree: one of them was lost.
---
 src/hb.rs       | 10 +++++-----
 src/prefixed.rs |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/hb.rs b/src/hb.rs
index a0a9287..92cced8 100644
--- a/src/hb.rs
+++ b/src/hb.rs
@@ -54,7 +54,7 @@ impl Hyperbee {
         &self,
         metadata: Option<Metadata>,
     ) -> Result<AppendOutcome, HyperbeeError> {
-        self.tree.read().await.create_header(metadata).await
+        self.tree.write().await.create_header(metadata).await
     }
 
     #[cfg(feature = "debug")]
@@ -85,7 +85,7 @@ impl Hyperbee {
         key: &[u8],
         value: Option<&[u8]>,
     ) -> Result<(Option<u64>, u64), HyperbeeError> {
-        self.tree.read().await.put(key, value).await
+        self.tree.write().await.put(key, value).await
     }
 
     /// Like [`Hyperbee::put`] but takes a `compare_and_swap` function.
@@ -99,7 +99,7 @@ impl Hyperbee {
         cas: impl FnOnce(Option<&KeyValueData>, &KeyValueData) -> bool,
     ) -> Result<(Option<u64>, Option<u64>), HyperbeeError> {
         self.tree
-            .read()
+            .write()
             .await
             .put_compare_and_swap(key, value, cas)
             .await
@@ -108,7 +108,7 @@ impl Hyperbee {
     /// Delete the given key from the tree.
     /// Returns the `seq` from the key if it was deleted.
     pub async fn del(&self, key: &[u8]) -> Result<Option<u64>, HyperbeeError> {
-        self.tree.read().await.del(key).await
+        self.tree.write().await.del(key).await
     }
 
     /// Like [`Hyperbee::del`] but takes a `compare_and_swap` function.
@@ -121,7 +121,7 @@ impl Hyperbee {
         key: &[u8],
         cas: impl FnOnce(&KeyValueData) -> bool,
     ) -> Result<Option<(bool, u64)>, HyperbeeError> {
-        self.tree.read().await.del_compare_and_swap(key, cas).await
+        self.tree.write().await.del_compare_and_swap(key, cas).await
     }
 
     /// Create a new tree with all it's operation's prefixed by the provided `prefix`.
diff --git a/src/prefixed.rs b/src/prefixed.rs
index a34b37f..83f7c0f 100644
--- a/src/prefixed.rs
+++ b/src/prefixed.rs
@@ -82,7 +82,7 @@ impl Prefixed {
         value: Option<&[u8]>,
     ) -> Result<(Option<u64>, u64), HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
-        self.tree.read().await.put(prefixed_key, value).await
+        self.tree.write().await.put(prefixed_key, value).await
     }
 
     /// Like [`Prefixed::put`] but takes a `compare_and_swap` function.
@@ -97,7 +97,7 @@ impl Prefixed {
     ) -> Result<(Option<u64>, Option<u64>), HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
         self.tree
-            .read()
+            .write()
             .await
             .put_compare_and_swap(prefixed_key, value, cas)
             .await
@@ -107,7 +107,7 @@ impl Prefixed {
     /// Returns the `seq` from the key if it was deleted.
     pub async fn del(&self, key: &[u8]) -> Result<Option<u64>, HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
-        self.tree.read().await.del(prefixed_key).await
+        self.tree.write().await.del(prefixed_key).await
     }
 
     /// Like [`Prefixed::del`] but takes a `compare_and_swap` function.
@@ -122,7 +122,7 @@ impl Prefixed {
     ) -> Result<Option<(bool, u64)>, HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
         self.tree
-            .read()
+            .write()
             .await
             .del_compare_and_swap(prefixed_key, cas)
             .await
-- 
2.43.0


From 387eccac7304110ea03cd3276b34a13e11617cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:32 +0000
Subject: [PATCH 07/10] fix: report malformed blocks as errors instead of
 panicking

---
 src/blocks.rs | 59 ++++++++++++++++++++++++++++++++++++++++-----------
 src/del.rs    |  6 ++++++
 src/error.rs  |  2 ++
 3 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index 836a1f2..aacf068 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -6,7 +6,7 @@ use hypercore::{
     replication::{CoreInfo, CoreMethods},
     AppendOutcome,
 };
-use prost::{bytes::Buf, DecodeError, Message};
+use prost::{bytes::Buf, Message};
 use replicator::ReplicatingCore;
 use tokio::sync::RwLock;
 use tracing::trace;
@@ -81,7 +81,7 @@ impl Blocks {
         match self.core.get(*seq).await? {
             Some(core_block) => {
                 let node = NodeSchema::decode(&core_block[..])?;
-                Ok(Some(BlockEntry::new(node, blocks)?))
+                Ok(Some(BlockEntry::new(*seq, node, blocks)?))
             }
             None => Ok(None),
         }
@@ -176,25 +176,54 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
     out
 }
 
-/// Deserialize bytes from a Hypercore block into [`Node`]s.
-fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNode>, DecodeError> {
-    Ok(YoloIndex::decode(buf)?
+/// Deserialize bytes from the Hypercore block at `seq` into [`Node`]s.
+/// # Errors
+/// when the bytes cannot be decoded, or describe something that cannot be a node of a tree
+fn make_node_vec<B: Buf>(
+    seq: u64,
+    buf: B,
+    blocks: Shared<Blocks>,
+) -> Result<Vec<SharedNode>, HyperbeeError> {
+    YoloIndex::decode(buf)?
         .levels
         .iter()
         .map(|level| {
+            let n_keys = level.keys.len();
+            let n_children = level.children.len() / 2;
+            if level.children.len() % 2 != 0
+                || (n_children != 0 && (n_keys == 0 || n_children != n_keys + 1))
+            {
+                return Err(HyperbeeError::MalformedTreeError(format!(
+                    "block [{seq}] has a node with [{n_keys}] keys and [{}] numbers for children",
+                    level.children.len()
+                )));
+            }
             let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
             let mut children = vec![];
-            for i in (0..(level.children.len())).step_by(2) {
-                children.push(Child::new(level.children[i], level.children[i + 1]));
+            for child in level.children.chunks_exact(2) {
+                // a node is never written before it's children
+                if child[0] > seq {
+                    return Err(HyperbeeError::MalformedTreeError(format!(
+                        "block [{seq}] has a node with a child in the later block [{}]",
+                        child[0]
+                    )));
+                }
+                children.push(Child::new(child[0], child[1]));
             }
-            Arc::new(RwLock::new(Node::new(keys, children, blocks.clone())))
+            Ok(Arc::new(RwLock::new(Node::new(
+                keys,
+                children,
+                blocks.clone(),
+            ))))
         })
-        .collect())
+        .collect()
 }
 
 /// A "block" from a [`Hypercore`](hypercore::Hypercore) deserialized into the form used in
 /// Hyperbee
 pub(crate) struct BlockEntry {
+    /// Index of this block within the hypercore
+    seq: u64,
     /// Pointers::new(NodeSchema::new(hypercore.get(seq)).index))
     nodes: Vec<SharedNode>,
     /// NodeSchema::new(hypercore.get(seq)).key
@@ -204,9 +233,10 @@ pub(crate) struct BlockEntry {
 }
 
 impl BlockEntry {
-    fn new(entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
+    fn new(seq: u64, entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
-            nodes: make_node_vec(&entry.index[..], blocks)?,
+            seq,
+            nodes: make_node_vec(seq, &entry.index[..], blocks)?,
             key: entry.key,
             value: entry.value,
         })
@@ -223,7 +253,12 @@ impl BlockEntry {
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
-            .expect("offset *should* always point to a real node")
+            .ok_or_else(|| {
+                HyperbeeError::MalformedTreeError(format!(
+                    "block [{}] has no node at offset [{offset}]",
+                    self.seq
+                ))
+            })?
             .read()
             .await
             .copy()
diff --git a/src/del.rs b/src/del.rs
index c4f1637..e25d58a 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -47,6 +47,12 @@ impl Side {
         let (_, right_path) = nearest_node(right_child, &InfiniteKeys::Negative).await?;
         let num_right_keys = right_path.last().unwrap().0.read().await.keys.len();
 
+        if num_left_keys == 0 && num_right_keys == 0 {
+            return Err(HyperbeeError::MalformedTreeError(
+                "the leaves next to an internal key are empty".to_string(),
+            ));
+        }
+
         let (child_index, replacement_key, mut path_to_bottom) = if num_left_keys < num_right_keys {
             let donor = right_path.last().unwrap().0.write().await.keys.remove(0);
             (right_child_index, donor, right_path)
diff --git a/src/error.rs b/src/error.rs
index 6da12f9..688e3d0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -53,4 +53,6 @@ pub enum HyperbeeError {
     ReplicationError(#[from] ReplicatorError),
     #[error("Error in CoreMethods: {0}")]
     CoreMethodsError(#[from] CoreMethodsError),
+    #[error("The data in the Hypercore is not a valid tree: {0}")]
+    MalformedTreeError(String),
 }
-- 
2.43.0


From e8c7c1a19c91b8dde31fdc2b63fbca00dfb3f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:09 +0000
Subject: [PATCH 08/10] fix: give an error for trees that are too high or out
 of order instead of reading without end

---
 src/lib.rs      | 14 +++++++++
 src/traverse.rs | 75 +++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 83 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 483768a..b5571b1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -50,6 +50,10 @@ type NodePath = Vec<(SharedNode, usize)>;
 static PROTOCOL: &str = "hyperbee";
 /// Same value as JS hyperbee https://github.com/holepunchto/hyperbee/blob/e1b398f5afef707b73e62f575f2b166bcef1fa34/index.js#L16-L18
 static MAX_KEYS: usize = 8;
+/// No tree can be this high. Since every node but the root has at least `MAX_KEYS / 2` keys, it
+/// would have more keys than there are `seq`s. This lets us detect malformed trees, where a node
+/// can be it's own descendant.
+static MAX_HEIGHT: usize = 64;
 
 fn min_keys(max_keys: usize) -> usize {
     max_keys >> 1
@@ -174,6 +178,10 @@ macro_rules! wchildren {
 }
 pub(crate) use wchildren;
 
+fn too_high_error() -> HyperbeeError {
+    HyperbeeError::MalformedTreeError(format!("it is higher than [{MAX_HEIGHT}]"))
+}
+
 /// A node of the B-Tree within the [`Hyperbee`]
 struct Node {
     keys: Vec<KeyValue>,
@@ -217,6 +225,9 @@ impl Node {
             let mut cur_child = self.get_child(0).await?;
             loop {
                 out += 1;
+                if out > MAX_HEIGHT {
+                    return Err(too_high_error());
+                }
                 if cur_child.read().await.n_children().await == 0 {
                     return Ok(out);
                 }
@@ -391,6 +402,9 @@ where
         let next_node = {
             let (matched, child_index) = get_index_of_key(current_node.clone(), key).await?;
             out_path.push((current_node.clone(), child_index));
+            if out_path.len() > MAX_HEIGHT {
+                return Err(too_high_error());
+            }
 
             // found match or reached leaf
             if matched.is_some() || current_node.read().await.is_leaf().await {
diff --git a/src/traverse.rs b/src/traverse.rs
index 2556278..4fc1cfc 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -11,7 +11,10 @@ use derive_builder::Builder;
 use futures_lite::{future::FutureExt, StreamExt};
 use tokio_stream::Stream;
 
-use crate::{get_index_of_key, keys::InfiniteKeys, HyperbeeError, KeyValueData, SharedNode};
+use crate::{
+    get_index_of_key, keys::InfiniteKeys, too_high_error, HyperbeeError, KeyValueData, SharedNode,
+    MAX_HEIGHT,
+};
 
 type PinnedFut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
 
@@ -246,6 +249,12 @@ pub(crate) struct Traverse<'a> {
     config: TraverseConfig,
     /// The current node
     root: SharedNode,
+    /// The number of nodes above the current node
+    depth: usize,
+    /// The last key yielded. Only set for the top-most node
+    last_key: Option<Vec<u8>>,
+    /// Set once nothing more can be yielded because the tree is malformed
+    finished: bool,
     /// Option holding (number_of_keys, number_of_children) for this node
     n_keys_and_children_fut: Option<PinnedFut<'a, (usize, usize)>>,
     n_keys_and_children: Option<(usize, usize)>,
@@ -271,9 +280,16 @@ impl Traverse<'_> {
     /// Create [`Traverse`] struct and to traverse the provided `node` based on the provided
     /// [`TraverseConfig`]
     pub fn new(note: SharedNode, config: TraverseConfig) -> Self {
+        Self::new_at_depth(note, config, 0)
+    }
+
+    fn new_at_depth(note: SharedNode, config: TraverseConfig, depth: usize) -> Self {
         Traverse {
             config,
             root: note,
+            depth,
+            last_key: Option::None,
+            finished: false,
             n_keys_and_children_fut: Option::None,
             n_keys_and_children: Option::None,
             iter_fut: Option::None,
@@ -302,15 +318,24 @@ async fn get_child_stream<'a>(
     node: SharedNode,
     index: usize,
     config: TraverseConfig, // TODO should be reference
+    depth: usize,
 ) -> Result<Traverse<'a>, HyperbeeError> {
     let child = node.read().await.get_child(index).await?;
-    Ok(Traverse::new(child, config))
+    Ok(Traverse::new_at_depth(child, config, depth))
 }
 
-impl Stream for Traverse<'_> {
-    type Item = TreeItem;
+impl Traverse<'_> {
+    /// Whether a key that is about to be yielded comes after the last one that was
+    fn in_order(&self, key: &[u8]) -> bool {
+        match &self.last_key {
+            None => true,
+            Some(last) if self.config.reversed => key < &last[..],
+            Some(last) => key > &last[..],
+        }
+    }
+
     #[tracing::instrument(skip(self, cx))]
-    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
+    fn poll_item(&mut self, cx: &mut Context<'_>) -> Poll<Option<TreeItem>> {
         // await next key & value. yield if ready
         if let Some(key_fut) = &mut self.next_key {
             match key_fut.poll(cx) {
@@ -428,10 +453,14 @@ impl Stream for Traverse<'_> {
         if let Some(iter) = &mut self.iter {
             if let Some(index) = iter.next() {
                 if index % 2 == 0 {
+                    if self.depth + 1 >= MAX_HEIGHT {
+                        return Poll::Ready(Some((Err(too_high_error()), self.root.clone())));
+                    }
                     self.next_child = Some(Box::pin(get_child_stream(
                         self.root.clone(),
                         index >> 1,
                         self.config.clone(),
+                        self.depth + 1,
                     )));
                 } else {
                     self.next_key =
@@ -450,6 +479,37 @@ impl Stream for Traverse<'_> {
     }
 }
 
+impl Stream for Traverse<'_> {
+    type Item = TreeItem;
+    #[tracing::instrument(skip(self, cx))]
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
+        if self.finished {
+            return Poll::Ready(None);
+        }
+        let mut polled = self.poll_item(cx);
+        if self.depth != 0 {
+            return polled;
+        }
+        // Every key must come after the previous one. Otherwise the tree is malformed, and
+        // traversing it may never end.
+        if let Poll::Ready(Some((out, _))) = &mut polled {
+            match out {
+                Ok(kv) if self.in_order(&kv.key) => self.last_key = Some(kv.key.clone()),
+                Ok(kv) => {
+                    *out = Err(HyperbeeError::MalformedTreeError(format!(
+                        "the key at seq [{}] is out of order",
+                        kv.seq
+                    )));
+                    self.finished = true;
+                }
+                Err(HyperbeeError::MalformedTreeError(_)) => self.finished = true,
+                Err(_) => (),
+            }
+        }
+        polled
+    }
+}
+
 #[cfg(feature = "debug")]
 static LEADER: &str = "\t";
 
@@ -462,8 +522,11 @@ pub(crate) async fn print(node: SharedNode) -> Result<String, HyperbeeError> {
     tokio::pin!(stream);
     while let Some((key_data, node)) = stream.next().await {
         let h = node.read().await.height().await?;
-        out += &LEADER.repeat(starting_height - h);
         let k = key_data?.key;
+        let depth = starting_height.checked_sub(h).ok_or_else(|| {
+            HyperbeeError::MalformedTreeError("a node is higher than the root".to_string())
+        })?;
+        out += &LEADER.repeat(depth);
         let decoded_k = String::from_utf8(k)?;
         out += &decoded_k;
         out += "\n";
-- 
2.43.0


From d29e3dca4cfabc32c7435dcffe3cc9c741fd8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 09/10] fix: hb_get answers lookups that find no value or fail

Looking up an absent key, a key stored without a value, or failing to read
hit todo!() and the callback was never called. A null key pointer (an empty
key) was undefined behaviour.
---
 src/external.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index 137ce7a..a14a475 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -19,6 +19,7 @@ type HbDiskPointer = HyperbeePointer;
 
 /// Type of callback we pass results to
 /// seq == 0 means the key was not found
+/// A non-zero error_code means the lookup failed, and error_message says why
 pub type HbGetResultCallback = unsafe extern "C" fn(
     error_code: i64,
     error_message: *const c_char,
@@ -117,6 +118,9 @@ pub extern "C" fn hyperbee_from_storage_directory(
 }
 
 fn vec_from_c_vec(bytes: *const c_uchar, bytes_length: size_t) -> Vec<u8> {
+    if bytes.is_null() {
+        return vec![];
+    }
     let bytes = unsafe { slice::from_raw_parts(bytes, bytes_length) };
     Vec::from(bytes)
 }
@@ -142,8 +146,21 @@ pub extern "C" fn hb_get(
                     callback(0, no_error_msg, seq, vec, size);
                 }
             }
-            Ok(_) => todo!(),
-            Err(_e) => todo!(),
+            // no value stored with the key, or no such key
+            Ok(found) => {
+                let seq = found.map_or(0, |(seq, _)| seq);
+                let (vec, size) = c_vec_from_vec(vec![]);
+                unsafe {
+                    callback(0, CString::default().into_raw(), seq, vec, size);
+                }
+            }
+            Err(e) => {
+                let error_msg = CString::new(e.to_string()).unwrap_or_default().into_raw();
+                let (vec, size) = c_vec_from_vec(vec![]);
+                unsafe {
+                    callback(-1, error_msg, 0, vec, size);
+                }
+            }
         };
     });
     0
-- 
2.43.0


From 40fa90096680992dfb077fb521691372d5ba83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:22 +0000
Subject: [PATCH 10/10] fix: a dropped tree is released

The cache of Blocks held the blocks it had read, those held their nodes, and
every node held the Blocks: neither these nor the hypercore they read from were
ever dropped. What is cached are now the stored keys and children; a Node is
made of them, with a reference to the Blocks, when one is asked for.
---
 src/blocks.rs | 81 ++++++++++++++++++++++++++-------------------------
 src/lib.rs    | 21 ++++---------
 src/tree.rs   |  5 ++--
 3 files changed, 49 insertions(+), 58 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index aacf068..29054fe 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -49,19 +49,15 @@ impl Blocks {
     /// # Errors
     /// when the provided `seq` is not in the Hypercore
     /// when the data in the Hypercore block cannot be decoded
-    #[tracing::instrument(skip(self, blocks))]
-    pub async fn get(
-        &self,
-        seq: &u64,
-        blocks: Shared<Self>,
-    ) -> Result<Shared<BlockEntry>, HyperbeeError> {
+    #[tracing::instrument(skip(self))]
+    pub async fn get(&self, seq: &u64) -> Result<Shared<BlockEntry>, HyperbeeError> {
         if let Some(block) = self.get_from_cache(seq).await {
             trace!("from cache");
             Ok(block)
         } else {
             trace!("from Hypercore");
             let block_entry = self
-                .get_from_core(seq, blocks)
+                .get_from_core(seq)
                 .await?
                 .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;
             let block_entry = Arc::new(RwLock::new(block_entry));
@@ -73,15 +69,11 @@ impl Blocks {
         self.cache.read().await.get(seq).cloned()
     }
 
-    async fn get_from_core(
-        &self,
-        seq: &u64,
-        blocks: Shared<Self>,
-    ) -> Result<Option<BlockEntry>, HyperbeeError> {
+    async fn get_from_core(&self, seq: &u64) -> Result<Option<BlockEntry>, HyperbeeError> {
         match self.core.get(*seq).await? {
             Some(core_block) => {
                 let node = NodeSchema::decode(&core_block[..])?;
-                Ok(Some(BlockEntry::new(*seq, node, blocks)?))
+                Ok(Some(BlockEntry::new(*seq, node)?))
             }
             None => Ok(None),
         }
@@ -176,14 +168,29 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
     out
 }
 
-/// Deserialize bytes from the Hypercore block at `seq` into [`Node`]s.
+/// A [`Node`] as it is in a block of the Hypercore.
+/// NB: this must not have a reference to [`Blocks`]. It is kept in the cache of the [`Blocks`], so
+/// neither would ever be dropped.
+struct StoredNode {
+    keys: Vec<KeyValue>,
+    children: Vec<Child>,
+}
+
+impl Debug for StoredNode {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        let keys: Vec<_> = self.keys.iter().map(|k| k.seq).collect();
+        let children: Vec<_> = self.children.iter().map(|c| (c.seq, c.offset)).collect();
+        f.debug_struct("Node")
+            .field("keys", &format_args!("{keys:?}"))
+            .field("children", &format_args!("{children:?}"))
+            .finish()
+    }
+}
+
+/// Deserialize bytes from the Hypercore block at `seq` into [`StoredNode`]s.
 /// # Errors
 /// when the bytes cannot be decoded, or describe something that cannot be a node of a tree
-fn make_node_vec<B: Buf>(
-    seq: u64,
-    buf: B,
-    blocks: Shared<Blocks>,
-) -> Result<Vec<SharedNode>, HyperbeeError> {
+fn make_node_vec<B: Buf>(seq: u64, buf: B) -> Result<Vec<StoredNode>, HyperbeeError> {
     YoloIndex::decode(buf)?
         .levels
         .iter()
@@ -210,11 +217,7 @@ fn make_node_vec<B: Buf>(
                 }
                 children.push(Child::new(child[0], child[1]));
             }
-            Ok(Arc::new(RwLock::new(Node::new(
-                keys,
-                children,
-                blocks.clone(),
-            ))))
+            Ok(StoredNode { keys, children })
         })
         .collect()
 }
@@ -225,7 +228,7 @@ pub(crate) struct BlockEntry {
     /// Index of this block within the hypercore
     seq: u64,
     /// Pointers::new(NodeSchema::new(hypercore.get(seq)).index))
-    nodes: Vec<SharedNode>,
+    nodes: Vec<StoredNode>,
     /// NodeSchema::new(hypercore.get(seq)).key
     pub key: Vec<u8>,
     /// NodeSchema::new(hypercore.get(seq)).value
@@ -233,10 +236,10 @@ pub(crate) struct BlockEntry {
 }
 
 impl BlockEntry {
-    fn new(seq: u64, entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
+    fn new(seq: u64, entry: NodeSchema) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
             seq,
-            nodes: make_node_vec(seq, &entry.index[..], blocks)?,
+            nodes: make_node_vec(seq, &entry.index[..])?,
             key: entry.key,
             value: entry.value,
         })
@@ -246,7 +249,11 @@ impl BlockEntry {
     /// offset is the offset of the node within the hypercore block
     /// NB: this is a copy because blocks are cached and shared. Operations that write to the tree
     /// modify the nodes they get, but a block never changes once it is in the Hypercore.
-    pub async fn get_tree_node(&self, offset: u64) -> Result<SharedNode, HyperbeeError> {
+    pub fn get_tree_node(
+        &self,
+        offset: u64,
+        blocks: Shared<Blocks>,
+    ) -> Result<SharedNode, HyperbeeError> {
         let node = self
             .nodes
             .get(
@@ -258,23 +265,19 @@ impl BlockEntry {
                     "block [{}] has no node at offset [{offset}]",
                     self.seq
                 ))
-            })?
-            .read()
-            .await
-            .copy()
-            .await;
-        Ok(Arc::new(RwLock::new(node)))
+            })?;
+        Ok(Arc::new(RwLock::new(Node::new(
+            node.keys.clone(),
+            node.children.clone(),
+            blocks,
+        ))))
     }
 }
 
 impl Debug for BlockEntry {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "BlockEntry {{ ")?;
-        let mut nodes = vec![];
-        for node in self.nodes.iter() {
-            nodes.push(node.try_read().unwrap());
-        }
-        f.debug_list().entries(nodes).finish()?;
+        f.debug_list().entries(&self.nodes).finish()?;
         write!(f, "}}")
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index b5571b1..59310cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -141,13 +141,11 @@ impl Children {
             let child_ref = &self.children.read().await[index].clone();
             (child_ref.seq, child_ref.offset)
         };
-        let block = self
-            .blocks
+        let block = self.blocks.read().await.get(&seq).await?;
+        let node = block
             .read()
             .await
-            .get(&seq, self.blocks.clone())
-            .await?;
-        let node = block.read().await.get_tree_node(offset).await?;
+            .get_tree_node(offset, self.blocks.clone())?;
         Ok(node)
     }
 
@@ -198,15 +196,6 @@ impl Node {
         }
     }
 
-    /// A copy of this node which can be modified without changing this one
-    async fn copy(&self) -> Self {
-        Node::new(
-            self.keys.clone(),
-            self.children.children.read().await.clone(),
-            self.blocks.clone(),
-        )
-    }
-
     pub async fn n_children(&self) -> usize {
         self.children.len().await
     }
@@ -257,7 +246,7 @@ impl Node {
             .blocks
             .read()
             .await
-            .get(&seq, self.blocks.clone())
+            .get(&seq)
             .await?
             .read()
             .await
@@ -267,7 +256,7 @@ impl Node {
             .blocks
             .read()
             .await
-            .get(&seq, self.blocks.clone())
+            .get(&seq)
             .await?
             .read()
             .await
diff --git a/src/tree.rs b/src/tree.rs
index 830e627..1109a3b 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -63,12 +63,11 @@ impl Tree {
             return Ok(None);
         }
         let root = blocks
-            .get(&(version - 1), self.blocks.clone())
+            .get(&(version - 1))
             .await?
             .read()
             .await
-            .get_tree_node(0)
-            .await?;
+            .get_tree_node(0, self.blocks.clone())?;
         Ok(Some(root))
     }
 
-- 
2.43.0

