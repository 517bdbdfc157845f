//! Reference models: an ordered map with log indexes, and a transcription of the
//! JavaScript Hyperbee algorithm (put, del, split, rebalance, node order) that
//! produces the exact blocks.
use crate::wire::{self, Block, Level};
use std::collections::BTreeMap;

pub type Entry = (u64, Option<Vec<u8>>);
pub type Map = BTreeMap<Vec<u8>, Entry>;

pub const MIN_KEYS: usize = 4;
pub const MAX_KEYS: usize = 8;

#[derive(Clone, Debug)]
struct WChild {
    seq: u64,
    offset: u64,
    loaded: Option<usize>,
}
#[derive(Clone, Debug)]
struct WNode {
    keys: Vec<u64>,
    children: Vec<WChild>,
    changed: bool,
}

/// Which structural events one operation caused (for coverage classes).
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq)]
pub struct Events {
    pub splits: u32,
    pub new_root: bool,
    pub replaced: bool,
    pub internal_del: bool,
    pub from_right: bool,
    pub rot_left: u32,
    pub rot_right: u32,
    pub merge_left: u32,
    pub merge_right: u32,
    pub shrink: bool,
}

#[derive(Clone, Default, Debug)]
pub struct JsBee {
    pub raw: Vec<Vec<u8>>,
    /// `None` for the header
    pub blocks: Vec<Option<Block>>,
    pub map: Map,
    pub last: Events,
    /// Blocks 1 to n of the log, when there are too many to hold. With this, `map` knows only
    /// of later writes, and `raw` and `blocks` go on after block n.
    pub giant: Option<Giant>,
}

/// A complete tree that is too large to write down: every node below the root has `ways`
/// children (and one key less), the root `top`. Its log holds the keys in order, and each
/// block the nodes whose largest key it is.
#[derive(Clone, Copy, Debug)]
pub struct Giant {
    pub ways: u64,
    pub top: u64,
    pub height: u32,
}
impl Giant {
    /// The number of keys, and of blocks after the header.
    pub fn n(&self) -> u64 {
        self.top * self.ways.pow(self.height - 1) - 1
    }
    pub fn key(&self, rank: u64) -> Vec<u8> {
        (2 * rank).to_be_bytes().to_vec()
    }
    pub fn rank(&self, key: &[u8]) -> Option<u64> {
        let x = u64::from_be_bytes(key.try_into().ok()?);
        (x % 2 == 0 && x > 0 && x / 2 <= self.n()).then_some(x / 2)
    }
    /// How many of the tree's keys are below this one.
    pub fn below(&self, key: &[u8]) -> u64 {
        let (mut lo, mut hi) = (0, self.n());
        while lo < hi {
            let mid = lo + (hi - lo).div_ceil(2);
            if self.key(mid).as_slice() < key {
                lo = mid
            } else {
                hi = mid - 1
            }
        }
        lo
    }
    pub fn entry(&self, rank: u64) -> Entry {
        let v = match rank % 11 {
            0 => None,
            1 => Some(vec![]),
            _ => Some(format!("g{rank}").into_bytes()),
        };
        (rank, v)
    }
    /// How many nodes end at this rank, the root not counted.
    fn ending(&self, rank: u64) -> u32 {
        let (mut x, mut v) = (rank + 1, 0);
        while v < self.height - 1 && x % self.ways == 0 {
            x /= self.ways;
            v += 1;
        }
        v
    }
    /// The node `h` levels high (counting from 1) that ends at `rank`.
    fn node(&self, h: u32, rank: u64) -> Level {
        let below = self.ways.pow(h - 1);
        let n = if h == self.height { self.top } else { self.ways };
        let base = rank + 1 - n * below;
        let keys = (1..n).map(|j| base + j * below).collect();
        let children = (1..=n)
            .filter(|_| h > 1)
            .map(|j| {
                let end = base + j * below - 1;
                (end, u64::from(self.ending(end) - (h - 1)) + u64::from(end == self.n()))
            })
            .collect();
        Level { keys, children }
    }
    fn subtree(&self, (rank, off): (u64, u64)) -> Option<Subtree> {
        let root = u64::from(rank == self.n());
        let h = match (off + 1).checked_sub(root) {
            _ if rank == 0 || rank > self.n() => return None,
            Some(0) => self.height,
            Some(i) => self.ending(rank).checked_sub(i as u32 - 1).filter(|h| *h > 0)?,
            None => return None,
        };
        let n = if h == self.height { self.top } else { self.ways };
        let count = n * self.ways.pow(h - 1) - 1;
        Some(Subtree { height: h as usize, own: n as usize - 1, count, min: self.key(rank + 1 - count), max: self.key(rank), mix: 0 })
    }
    pub fn block(&self, rank: u64) -> Block {
        let mut levels = vec![];
        if rank == self.n() {
            levels.push(self.node(self.height, rank));
        }
        for h in (1..=self.ending(rank)).rev() {
            levels.push(self.node(h, rank));
        }
        Block { levels, key: self.key(rank), value: self.entry(rank).1 }
    }
}

#[derive(Clone, Copy)]
struct Src<'a> {
    blocks: &'a [Option<Block>],
    giant: Option<&'a Giant>,
}
impl<'a> Src<'a> {
    fn get(&self, seq: u64) -> Option<std::borrow::Cow<'a, Block>> {
        use std::borrow::Cow::*;
        match self.giant {
            Some(g) if seq <= g.n() => Some(Owned(g.block(seq))),
            _ => self.blocks.get((seq - self.giant.map_or(0, Giant::n)) as usize).map(|b| Borrowed(b.as_ref().expect("block"))),
        }
    }
    fn len(&self) -> u64 {
        self.blocks.len() as u64 + self.giant.map_or(0, Giant::n)
    }
}

struct Work<'a> {
    blocks: Src<'a>,
    /// keys of entries not yet appended
    fresh: &'a [(Vec<u8>, Option<Vec<u8>>)],
    nodes: Vec<WNode>,
    ev: Events,
}

impl<'a> Work<'a> {
    fn load(&mut self, seq: u64, offset: u64) -> usize {
        let b = self.blocks.get(seq).expect("block");
        let l = &b.levels[offset as usize];
        self.nodes.push(WNode {
            keys: l.keys.clone(),
            children: l.children.iter().map(|&(seq, offset)| WChild { seq, offset, loaded: None }).collect(),
            changed: false,
        });
        self.nodes.len() - 1
    }
    fn create(&mut self) -> usize {
        self.nodes.push(WNode { keys: vec![], children: vec![], changed: true });
        self.nodes.len() - 1
    }
    fn child(&mut self, n: usize, i: usize) -> usize {
        let c = self.nodes[n].children[i].clone();
        match c.loaded {
            Some(x) => x,
            None => {
                let id = self.load(c.seq, c.offset);
                self.nodes[n].children[i].loaded = Some(id);
                id
            }
        }
    }
    fn key(&self, seq: u64) -> std::borrow::Cow<'_, [u8]> {
        use std::borrow::Cow::*;
        match self.blocks.get(seq) {
            Some(Borrowed(b)) => Borrowed(&b.key),
            Some(Owned(b)) => Owned(b.key),
            None => Borrowed(&self.fresh[(seq - self.blocks.len()) as usize].0),
        }
    }
    /// Ok(i): key found at i. Err(i): where it belongs.
    fn search(&self, n: usize, key: &[u8]) -> Result<usize, usize> {
        let (mut s, mut e) = (0, self.nodes[n].keys.len());
        while s < e {
            let mid = (s + e) >> 1;
            match key.cmp(&self.key(self.nodes[n].keys[mid])) {
                std::cmp::Ordering::Equal => return Ok(mid),
                std::cmp::Ordering::Less => e = mid,
                std::cmp::Ordering::Greater => s = mid + 1,
            }
        }
        Err(s)
    }
    fn is_leaf(&self, n: usize) -> bool {
        self.nodes[n].children.is_empty()
    }
    fn nkeys(&self, n: usize) -> usize {
        self.nodes[n].keys.len()
    }

    /// Insert the key of log index `seq`; returns the index it replaces, and the new root.
    fn put(&mut self, root: usize, key: &[u8], seq: u64) -> (Option<u64>, usize) {
        let mut stack = vec![];
        let mut node = root;
        while !self.is_leaf(node) {
            stack.push(node);
            self.nodes[node].changed = true;
            match self.search(node, key) {
                Ok(i) => {
                    let old = std::mem::replace(&mut self.nodes[node].keys[i], seq);
                    self.ev.replaced = true;
                    return (Some(old), root);
                }
                Err(i) => node = self.child(node, i),
            }
        }
        self.nodes[node].changed = true;
        match self.search(node, key) {
            Ok(i) => {
                let old = std::mem::replace(&mut self.nodes[node].keys[i], seq);
                self.ev.replaced = true;
                return (Some(old), root);
            }
            Err(i) => self.nodes[node].keys.insert(i, seq),
        }
        let mut root = root;
        while self.nkeys(node) > MAX_KEYS {
            self.ev.splits += 1;
            let len = self.nkeys(node) >> 1;
            let right = self.create();
            let at = self.nkeys(node) - len;
            self.nodes[right].keys = self.nodes[node].keys.split_off(at);
            let median = self.nodes[node].keys.pop().unwrap();
            if !self.is_leaf(node) {
                let at = self.nodes[node].children.len() - (len + 1);
                self.nodes[right].children = self.nodes[node].children.split_off(at);
            }
            let wc = |id| WChild { seq: 0, offset: 0, loaded: Some(id) };
            match stack.pop() {
                Some(parent) => {
                    let mkey = self.key(median).to_vec();
                    let i = self.search(parent, &mkey).unwrap_err();
                    self.nodes[parent].keys.insert(i, median);
                    self.nodes[parent].children.insert(i + 1, wc(right));
                    node = parent;
                }
                None => {
                    root = self.create();
                    self.nodes[root].keys.push(median);
                    self.nodes[root].children = vec![wc(node), wc(right)];
                    self.ev.new_root = true;
                    break;
                }
            }
        }
        (None, root)
    }

    /// Remove `key`; `None` when absent, else (removed seq, new root).
    fn del(&mut self, root: usize, key: &[u8]) -> Option<(u64, usize)> {
        let mut stack = vec![];
        let mut node = root;
        loop {
            stack.push(node);
            match self.search(node, key) {
                Ok(i) => {
                    let seq = self.nodes[node].keys[i];
                    if self.is_leaf(node) {
                        self.nodes[node].keys.remove(i);
                    } else {
                        self.ev.internal_del = true;
                        self.set_key_to_nearest_leaf(node, i, &mut stack);
                    }
                    for &n in &stack {
                        self.nodes[n].changed = true;
                    }
                    return Some((seq, self.rebalance(stack)));
                }
                Err(i) => {
                    if self.is_leaf(node) {
                        return None;
                    }
                    node = self.child(node, i);
                }
            }
        }
    }
    fn set_key_to_nearest_leaf(&mut self, node: usize, i: usize, stack: &mut Vec<usize>) {
        let (mut l, mut r) = (self.child(node, i), self.child(node, i + 1));
        let (mut lp, mut rp) = (vec![l], vec![r]);
        while !self.is_leaf(l) {
            l = self.child(l, self.nodes[l].children.len() - 1);
            lp.push(l);
        }
        while !self.is_leaf(r) {
            r = self.child(r, 0);
            rp.push(r);
        }
        if self.nkeys(l) < self.nkeys(r) {
            self.ev.from_right = true;
            stack.extend(rp);
            self.nodes[node].keys[i] = self.nodes[r].keys.remove(0);
        } else {
            stack.extend(lp);
            self.nodes[node].keys[i] = self.nodes[l].keys.pop().unwrap();
        }
    }
    fn rebalance(&mut self, mut stack: Vec<usize>) -> usize {
        let root = stack[0];
        while stack.len() > 1 {
            let node = stack.pop().unwrap();
            let parent = *stack.last().unwrap();
            if self.nkeys(node) >= MIN_KEYS {
                return root;
            }
            let n_ch = self.nodes[parent].children.len();
            let index = (0..n_ch)
                .find(|&i| self.nodes[parent].children[i].loaded == Some(node))
                .expect("bad parent");
            let left = (index > 0).then(|| self.child(parent, index - 1));
            let right = (index + 1 < n_ch).then(|| self.child(parent, index + 1));
            if let Some(l) = left.filter(|&l| self.nkeys(l) > MIN_KEYS) {
                self.ev.rot_left += 1;
                self.nodes[l].changed = true;
                let up = self.nodes[l].keys.pop().unwrap();
                let down = std::mem::replace(&mut self.nodes[parent].keys[index - 1], up);
                self.nodes[node].keys.insert(0, down);
                if let Some(c) = self.nodes[l].children.pop() {
                    self.nodes[node].children.insert(0, c);
                }
                return root;
            }
            if let Some(r) = right.filter(|&r| self.nkeys(r) > MIN_KEYS) {
                self.ev.rot_right += 1;
                self.nodes[r].changed = true;
                let up = self.nodes[r].keys.remove(0);
                let down = std::mem::replace(&mut self.nodes[parent].keys[index], up);
                self.nodes[node].keys.push(down);
                if !self.is_leaf(r) {
                    let c = self.nodes[r].children.remove(0);
                    self.nodes[node].children.push(c);
                }
                return root;
            }
            let (into, from, ki) = match left {
                Some(l) => {
                    self.ev.merge_left += 1;
                    (l, node, index - 1)
                }
                None => {
                    self.ev.merge_right += 1;
                    (node, right.expect("a sibling"), index)
                }
            };
            let median = self.nodes[parent].keys[ki];
            let (k, c) = (self.nodes[from].keys.clone(), self.nodes[from].children.clone());
            self.nodes[into].changed = true;
            self.nodes[into].keys.push(median);
            self.nodes[into].keys.extend(k);
            self.nodes[into].children.extend(c);
            self.nodes[parent].keys.remove(ki);
            self.nodes[parent].children.remove(ki + 1);
            self.nodes[parent].changed = true;
        }
        if self.nkeys(root) == 0 && !self.is_leaf(root) {
            self.ev.shrink = true;
            return self.child(root, 0);
        }
        root
    }
    /// Assign offsets in pre-order to the changed nodes.
    fn index_changes(&mut self, n: usize, seq: u64, order: &mut Vec<usize>) -> u64 {
        let off = order.len() as u64;
        order.push(n);
        self.nodes[n].changed = false;
        for i in 0..self.nodes[n].children.len() {
            let Some(c) = self.nodes[n].children[i].loaded else { continue };
            if !self.nodes[c].changed {
                continue;
            }
            let o = self.index_changes(c, seq, order);
            self.nodes[n].children[i].seq = seq;
            self.nodes[n].children[i].offset = o;
        }
        off
    }
    fn level(&self, n: usize) -> Level {
        let n = &self.nodes[n];
        Level { keys: n.keys.clone(), children: n.children.iter().map(|c| (c.seq, c.offset)).collect() }
    }
}

#[derive(Clone, Debug)]
pub enum BatchOp {
    Put(Vec<u8>, Option<Vec<u8>>),
    Del(Vec<u8>),
}

impl JsBee {
    pub fn len(&self) -> u64 {
        self.raw.len() as u64 + self.giant.map_or(0, |g| g.n())
    }
    /// A block's content; not the header's.
    pub fn block(&self, seq: u64) -> std::borrow::Cow<'_, Block> {
        self.src().get(seq).expect("block")
    }
    /// A block as stored, one that is not made.
    pub fn raw_at(&self, seq: u64) -> &Vec<u8> {
        &self.raw[(seq - self.giant.map_or(0, |g| g.n())) as usize]
    }
    fn src(&self) -> Src<'_> {
        Src { blocks: &self.blocks, giant: self.giant.as_ref() }
    }
    pub fn ensure_header(&mut self) {
        if self.raw.is_empty() {
            self.push_header(wire::default_header());
        }
    }
    pub fn push_header(&mut self, raw: Vec<u8>) {
        assert!(self.raw.is_empty());
        self.raw.push(raw);
        self.blocks.push(None);
    }
    pub fn has_root(&self) -> bool {
        self.len() > 1
    }
    fn append(&mut self, b: Block) {
        self.raw.push(wire::encode_block(&b));
        self.blocks.push(Some(b));
    }
    pub fn put(&mut self, key: &[u8], value: Option<&[u8]>) -> (Option<u64>, u64) {
        self.ensure_header();
        let seq = self.len();
        let fresh = [(key.to_vec(), value.map(<[u8]>::to_vec))];
        let mut w = Work { blocks: self.src(), fresh: &fresh, nodes: vec![], ev: Events::default() };
        let root = if seq > 1 { w.load(seq - 1, 0) } else { w.create() };
        let (was, root) = w.put(root, key, seq);
        let mut order = vec![];
        w.index_changes(root, seq, &mut order);
        let levels = order.iter().map(|&n| w.level(n)).collect();
        self.last = w.ev;
        let [(key, value)] = fresh;
        self.append(Block { levels, key: key.clone(), value: value.clone() });
        let old = self.map.insert(key, (seq, value));
        assert!(self.giant.is_some() || old.map(|o| o.0) == was);
        (was, seq)
    }
    pub fn del(&mut self, key: &[u8]) -> Option<u64> {
        self.last = Events::default();
        if self.len() <= 1 {
            return None;
        }
        let seq = self.len();
        let mut w = Work { blocks: self.src(), fresh: &[], nodes: vec![], ev: Events::default() };
        let root = w.load(seq - 1, 0);
        let (old, root) = w.del(root, key)?;
        let mut order = vec![];
        w.index_changes(root, seq, &mut order);
        let levels = order.iter().map(|&n| w.level(n)).collect();
        self.last = w.ev;
        self.append(Block { levels, key: key.to_vec(), value: None });
        let was = self.map.remove(key).map(|e| e.0);
        assert!(self.giant.is_some() || was == Some(old));
        Some(old)
    }
    /// Apply several operations and append them at once, as a JavaScript batch
    /// does: only the last block's node 0 is a root; `place` chooses, for every
    /// other changed node, in which block of the batch it is stored and in what
    /// order (never in a later block than its parent).
    pub fn batch(&mut self, ops: &[BatchOp], place: &[u8]) {
        self.ensure_header();
        let base = self.len();
        let mut fresh: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
        let mut eff = vec![];
        let mut map = self.map.clone();
        for op in ops {
            match op {
                BatchOp::Put(k, v) => {
                    map.insert(k.clone(), (base + fresh.len() as u64, v.clone()));
                    fresh.push((k.clone(), v.clone()));
                    eff.push(op);
                }
                BatchOp::Del(k) => {
                    if map.remove(k).is_some() {
                        fresh.push((k.clone(), None));
                        eff.push(op);
                    }
                }
            }
        }
        if fresh.is_empty() {
            return;
        }
        let mut w = Work { blocks: self.src(), fresh: &fresh, nodes: vec![], ev: Events::default() };
        let mut root = if base > 1 { w.load(base - 1, 0) } else { w.create() };
        w.nodes[root].changed = true;
        for (i, op) in eff.iter().enumerate() {
            match op {
                BatchOp::Put(k, _) => root = w.put(root, k, base + i as u64).1,
                BatchOp::Del(k) => root = w.del(root, k).expect("present").1,
            }
        }
        let n = fresh.len();
        // place the nodes, parents before children
        let mut slots: Vec<Vec<usize>> = vec![vec![]; n];
        let mut p = place.iter().copied().cycle();
        let mut next = move || if place.is_empty() { 0 } else { p.next().unwrap() };
        slots[n - 1].push(root);
        w.nodes[root].changed = false;
        let mut todo = vec![(root, n - 1)];
        let mut at: BTreeMap<usize, usize> = BTreeMap::new();
        at.insert(root, n - 1);
        while let Some((nd, blk)) = todo.pop() {
            for i in 0..w.nodes[nd].children.len() {
                let Some(c) = w.nodes[nd].children[i].loaded else { continue };
                if !w.nodes[c].changed {
                    continue;
                }
                w.nodes[c].changed = false;
                let b = next();
                // mostly the last block, sometimes earlier ones
                let dest = if b < 128 { blk } else { blk - (b as usize % (blk + 1)) };
                let lo = usize::from(dest == n - 1);
                let pos = lo + next() as usize % (slots[dest].len() - lo + 1);
                slots[dest].insert(pos, c);
                at.insert(c, dest);
                todo.push((c, dest));
            }
        }
        let loc = |c: usize| -> Option<(u64, u64)> {
            let b = *at.get(&c)?;
            Some((base + b as u64, slots[b].iter().position(|&x| x == c).unwrap() as u64))
        };
        let blocks: Vec<Vec<Level>> = slots
            .iter()
            .map(|s| {
                s.iter()
                    .map(|&nd| Level {
                        keys: w.nodes[nd].keys.clone(),
                        children: w.nodes[nd]
                            .children
                            .iter()
                            .map(|c| c.loaded.and_then(loc).unwrap_or((c.seq, c.offset)))
                            .collect(),
                    })
                    .collect()
            })
            .collect();
        for (levels, (key, value)) in blocks.into_iter().zip(fresh) {
            self.append(Block { levels, key, value });
        }
        self.map = map;
    }
    pub fn height(&self) -> usize {
        if self.len() <= 1 {
            return 0;
        }
        let mut at = (self.len() - 1, 0);
        let mut h = 1;
        loop {
            let b = self.src().get(at.0).unwrap();
            match b.levels[at.1 as usize].children.first() {
                None => return h,
                Some(c) => {
                    at = *c;
                    h += 1;
                }
            }
        }
    }
}

/// What [`check_tree`] learned.
#[derive(Debug, Default)]
pub struct Shape {
    pub height: usize,
    pub nodes: usize,
    /// (key, seq, depth) in order
    pub keys: Vec<(Vec<u8>, u64, usize)>,
}

/// Decode a log and check every B-tree invariant of the tree its last block roots.
pub fn check_tree(raw: &[Vec<u8>]) -> Result<Shape, String> {
    if raw.len() <= 1 {
        return Ok(Shape::default());
    }
    let blocks: Vec<Option<Block>> = raw
        .iter()
        .enumerate()
        .map(|(i, b)| {
            if i == 0 {
                Ok(None)
            } else {
                wire::decode_block(b).map(Some).map_err(|e| format!("block {i}: {e}"))
            }
        })
        .collect::<Result<_, _>>()?;
    check_blocks(&blocks)
}
/// The same for blocks that are decoded already (`None` for the header).
pub fn check_blocks(blocks: &[Option<Block>]) -> Result<Shape, String> {
    let mut sh = Shape::default();
    if blocks.len() <= 1 {
        return Ok(sh);
    }
    let mut seen = std::collections::BTreeSet::new();
    walk(blocks, (blocks.len() as u64 - 1, 0), 0, &mut sh, &mut seen)?;
    for w in sh.keys.windows(2) {
        if w[0].0 >= w[1].0 {
            return Err(format!("keys out of order in the stored tree: {:?} then {:?}", w[0].0, w[1].0));
        }
    }
    Ok(sh)
}
fn walk(
    blocks: &[Option<Block>],
    at: (u64, u64),
    depth: usize,
    sh: &mut Shape,
    seen: &mut std::collections::BTreeSet<(u64, u64)>,
) -> Result<(), String> {
    if !seen.insert(at) {
        return Err(format!("node {at:?} is referenced twice"));
    }
    let l = blocks
        .get(at.0 as usize)
        .and_then(|b| b.as_ref())
        .and_then(|b| b.levels.get(at.1 as usize))
        .ok_or(format!("reference to a node {at:?} that does not exist"))?;
    sh.nodes += 1;
    if l.keys.len() > MAX_KEYS {
        return Err(format!("node {at:?} has {} keys", l.keys.len()));
    }
    if depth > 0 && l.keys.len() < MIN_KEYS {
        return Err(format!("non-root node {at:?} has only {} keys", l.keys.len()));
    }
    if l.children.is_empty() {
        if sh.height == 0 {
            sh.height = depth + 1;
        } else if sh.height != depth + 1 {
            return Err(format!("leaf {at:?} at depth {} but others at {}", depth + 1, sh.height));
        }
    } else if l.children.len() != l.keys.len() + 1 {
        return Err(format!("node {at:?}: {} keys, {} children", l.keys.len(), l.children.len()));
    }
    for i in 0..=l.keys.len() {
        if let Some(c) = l.children.get(i) {
            if c.0 > at.0 {
                return Err(format!("node {at:?} refers to the later block {}", c.0));
            }
            walk(blocks, *c, depth + 1, sh, seen)?;
        }
        if let Some(&k) = l.keys.get(i) {
            let b = blocks
                .get(k as usize)
                .and_then(|b| b.as_ref())
                .ok_or(format!("node {at:?} refers to entry {k} that does not exist"))?;
            sh.keys.push((b.key.clone(), k, depth));
        }
    }
    Ok(())
}

/// Checks the tree after every write, looking only at what is new: blocks never change, so
/// neither does what is known about a subtree.
#[derive(Default)]
pub struct Checker {
    pub giant: Option<Giant>,
    /// blocks after the giant's (or all, the header as `None`)
    blocks: Vec<Option<Block>>,
    known: std::collections::HashMap<(u64, u64), std::rc::Rc<Subtree>>,
}
#[derive(Debug)]
pub struct Subtree {
    pub height: usize,
    own: usize,
    pub count: u64,
    min: Vec<u8>,
    max: Vec<u8>,
    /// sum over all entries; those of the giant are not counted
    pub mix: u64,
}
pub fn mix(key: &[u8], seq: u64) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (key, seq).hash(&mut h);
    h.finish()
}
impl Checker {
    pub fn new(giant: Option<Giant>) -> Self {
        Checker { giant, ..Default::default() }
    }
    fn src(&self) -> Src<'_> {
        Src { blocks: &self.blocks, giant: self.giant.as_ref() }
    }
    pub fn len(&self) -> u64 {
        self.src().len()
    }
    /// A block the library has appended.
    pub fn push(&mut self, raw: &[u8]) -> Result<(), String> {
        let n = self.len();
        let header = n == 0 || self.giant.is_some() && self.blocks.is_empty();
        let b = if header { None } else { Some(wire::decode_block(raw).map_err(|e| format!("block {n}: {e}"))?) };
        self.blocks.push(b);
        Ok(())
    }
    /// Check the tree of the newest block.
    pub fn check(&mut self) -> Result<Option<std::rc::Rc<Subtree>>, String> {
        let n = self.len();
        if n <= 1 {
            return Ok(None);
        }
        self.subtree((n - 1, 0)).map(Some)
    }
    fn key(&self, seq: u64) -> Result<std::borrow::Cow<'_, [u8]>, String> {
        use std::borrow::Cow::*;
        match self.get(seq) {
            Some(Borrowed(b)) => Ok(Borrowed(&b.key)),
            Some(Owned(b)) => Ok(Owned(b.key)),
            None => Err(format!("reference to entry {seq} that does not exist")),
        }
    }
    fn get(&self, seq: u64) -> Option<std::borrow::Cow<'_, Block>> {
        if seq == 0 || seq >= self.len() {
            return None;
        }
        self.src().get(seq)
    }
    fn subtree(&mut self, at: (u64, u64)) -> Result<std::rc::Rc<Subtree>, String> {
        if let Some(s) = self.known.get(&at) {
            return Ok(s.clone());
        }
        if let Some(s) = self.giant.and_then(|g| g.subtree(at)) {
            return Ok(std::rc::Rc::new(s));
        }
        let l = self
            .get(at.0)
            .and_then(|b| b.levels.get(at.1 as usize).cloned())
            .ok_or(format!("reference to a node {at:?} that does not exist"))?;
        if l.keys.len() > MAX_KEYS {
            return Err(format!("node {at:?} has {} keys", l.keys.len()));
        }
        if !l.children.is_empty() && l.children.len() != l.keys.len() + 1 {
            return Err(format!("node {at:?}: {} keys, {} children", l.keys.len(), l.children.len()));
        }
        let mut s = Subtree { height: 1, own: l.keys.len(), count: l.keys.len() as u64, min: vec![], max: vec![], mix: 0 };
        let mut last: Option<Vec<u8>> = None;
        let rises = |last: &Option<Vec<u8>>, k: &[u8]| match last {
            Some(x) if x.as_slice() >= k => Err(format!("keys out of order in node {at:?}: {x:?} then {k:?}")),
            _ => Ok(()),
        };
        for i in 0..=l.keys.len() {
            if let Some(&c) = l.children.get(i) {
                if c.0 > at.0 {
                    return Err(format!("node {at:?} refers to the later block {}", c.0));
                }
                let c = self.subtree(c)?;
                if c.own < MIN_KEYS {
                    return Err(format!("non-root node {:?} has only {} keys", l.children[i], c.own));
                }
                if i == 0 {
                    s.height = c.height + 1
                } else if s.height != c.height + 1 {
                    return Err(format!("node {at:?} has subtrees of height {} and {}", s.height - 1, c.height));
                }
                rises(&last, &c.min)?;
                if i == 0 {
                    s.min = c.min.clone();
                }
                last = Some(c.max.clone());
                s.count += c.count;
                s.mix = s.mix.wrapping_add(c.mix);
            }
            if let Some(&k) = l.keys.get(i) {
                let key = self.key(k)?;
                rises(&last, &key)?;
                if !self.giant.is_some_and(|g| k <= g.n()) {
                    s.mix = s.mix.wrapping_add(mix(&key, k));
                }
                if i == 0 && l.children.is_empty() {
                    s.min = key.to_vec();
                }
                last = Some(key.into_owned());
            }
        }
        s.max = last.unwrap_or_default();
        let s = std::rc::Rc::new(s);
        self.known.insert(at, s.clone());
        Ok(s)
    }
}
