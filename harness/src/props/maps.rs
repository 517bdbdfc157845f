//! C01, C03, C04, C05, C06: histories against the models.
use crate::{
    bee::{self, *},
    exec::{self, R},
    gen::{self, drive, Hist, Prim},
    model::{check_tree, mix, Checker, JsBee, Map},
    runner::{part, Ctx, Property, Tier},
    wire,
};
use hyperbee::Hyperbee;
use hypercore::sim::SimLog;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

pub fn record_events(cx: &mut Ctx, m: &JsBee) {
    let e = m.last;
    cx.add("splits", e.splits as u64);
    cx.class("root grows", e.new_root);
    cx.class("replaces", e.replaced);
    cx.class("deletes internal key", e.internal_del);
    cx.class("successor moves up", e.from_right);
    cx.add("rotate from left", e.rot_left as u64);
    cx.add("rotate from right", e.rot_right as u64);
    cx.add("merge with left", e.merge_left as u64);
    cx.add("merge with right", e.merge_right as u64);
    cx.class("cascading repair", e.merge_left + e.merge_right + e.rot_left + e.rot_right > 1);
    cx.class("root shrinks", e.shrink);
}
fn height_class(cx: &mut Ctx, h: usize) {
    cx.hit(match h {
        0 => "height 0",
        1 => "height 1",
        2 => "height 2",
        3 => "height 3",
        _ => "height 4+",
    });
}

pub struct Duo {
    pub hb: Hyperbee,
    pub log: SimLog,
    pub m: JsBee,
    pub stamp: u64,
    pub changed: bool,
}
impl Duo {
    pub fn new() -> Self {
        let (hb, log) = bee::fresh();
        Duo { hb, log, m: JsBee::default(), stamp: 0, changed: false }
    }
    pub fn map(&self) -> &Map {
        &self.m.map
    }
    /// Apply to both; compare results.
    pub fn apply(&mut self, p: &Prim) -> R<()> {
        self.changed = false;
        match p {
            Prim::Put(k, v) => {
                self.stamp += 1;
                let v = v.bytes(self.stamp);
                let want = self.m.put(k, v.as_deref());
                let got = ok("put", self.hb.put(k, v.as_deref()))?;
                self.changed = true;
                if got != want {
                    return Err(format!("put({}) returned {got:?}, expected {want:?}", show(k)));
                }
            }
            Prim::Del(k) => {
                let want = self.m.del(k);
                let got = ok("del", self.hb.del(k))?;
                self.changed = want.is_some();
                if got != want {
                    return Err(format!("del({}) returned {got:?}, expected {want:?}", show(k)));
                }
            }
            Prim::Get(k) => check_get(&self.hb, k, self.m.map.get(k))?,
        }
        Ok(())
    }
    pub fn go(&mut self, h: &Hist, mut each: impl FnMut(&mut Duo, &Prim) -> R<()>) -> R<()> {
        drive(self, &h.keys, &h.ops, |d| d.map(), |d, p| {
            d.apply(&p)?;
            each(d, &p)
        })
    }
}

// ---- C01 -------------------------------------------------------------------

fn absent_probes(h: &Hist) -> Vec<Vec<u8>> {
    let n = h.keys.len();
    let mut v: Vec<Vec<u8>> = (0..n).step_by((n / 24).max(1)).map(|i| h.keys.key(i)).collect();
    let mut more = vec![];
    for k in v.iter().take(12) {
        let mut a = k.clone();
        a.push(0);
        more.push(a);
        let mut b = k.clone();
        b.pop();
        more.push(b);
    }
    v.extend(more);
    v.push(vec![]);
    v.push(vec![0xff; 3]);
    v
}

fn c01(h: &Hist, cx: &mut Ctx) -> R<()> {
    let mut d = Duo::new();
    let probes = absent_probes(h);
    for p in &probes {
        check_get(&d.hb, p, None)?;
    }
    let (mut dels, mut n) = (0u64, 0usize);
    let mut maxh = 0;
    d.go(h, |d, p| {
        n += 1;
        match p {
            Prim::Put(k, _) | Prim::Del(k) | Prim::Get(k) => {
                check_get(&d.hb, k, d.m.map.get(k))?;
                if let Prim::Del(_) = p {
                    dels += u64::from(d.changed);
                }
                // neighbours of the touched key
                let near = d.m.map.range(k.clone()..).take(2).chain(d.m.map.range(..k.clone()).rev().take(2));
                for (k, e) in near {
                    check_get(&d.hb, k, Some(e))?;
                }
            }
        }
        if d.changed {
            record_events(cx, &d.m);
        }
        if n % 16 == 0 {
            maxh = maxh.max(d.m.height());
            check_scan(&d.hb, &d.m.map)?;
        }
        Ok(())
    })?;
    maxh = maxh.max(d.m.height());
    height_class(cx, maxh);
    check_all(&d.hb, &d.m.map, &probes)?;
    cx.nontrivial = dels > 0 && maxh >= 2;
    cx.note = Some(format!("{n} operations, {dels} effective deletes, height {maxh}, {} live", d.m.map.len()));
    Ok(())
}

/// A tree whose log is about to need more bytes for an index: built once, by the reference.
fn base(which: u8) -> &'static JsBee {
    use std::sync::OnceLock;
    static BASES: [OnceLock<JsBee>; 2] = [OnceLock::new(), OnceLock::new()];
    let keys = long_keys();
    let grow = |m: &mut JsBee, len: u64| {
        let mut i = m.len() as usize;
        while m.len() < len {
            if i % 11 == 10 {
                m.del(&keys.key(i * 7919 / 2));
            } else {
                m.put(&keys.key(i * 7919), Some(&(i as u32).to_be_bytes()));
            }
            i += 1;
        }
    };
    match which % 2 {
        0 => BASES[0].get_or_init(|| {
            let mut m = JsBee::default();
            grow(&mut m, 16_384 - 12);
            m
        }),
        _ => BASES[1].get_or_init(|| {
            let mut m = base(0).clone();
            grow(&mut m, 65_536 - 12);
            m
        }),
    }
}
fn long_keys() -> gen::Keys {
    gen::Keys { kind: 1, n: 50_000, extra: vec![vec![], vec![0xff; 4]] }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    which: u8,
    ops: Vec<gen::Op>,
    ranges: Vec<gen::RSel>,
}
fn strat_long(_: Tier) -> BoxedStrategy<Long> {
    (prop_oneof![2 => Just(0u8), 1 => Just(1u8)], vec(gen::op(12), 3..30), vec(gen::rsel(), 1..4))
        .prop_map(|(which, ops, ranges)| Long { which, ops, ranges })
        .boxed()
}
fn long_duo(c: &Long) -> R<Duo> {
    let m = base(c.which).clone();
    let (hb, log) = bee::over(&m.raw)?;
    Ok(Duo { hb, log, m, stamp: 1_000_000, changed: false })
}
/// a long log, over a length at which block indexes take another byte
fn c01_long(c: &Long, cx: &mut Ctx) -> R<()> {
    let mut d = long_duo(c)?;
    let keys = long_keys();
    let (start, mut n) = (d.m.len(), 0);
    let h = Hist { keys: keys.clone(), ops: c.ops.clone() };
    d.go(&h, |d, p| {
        n += 1;
        let (Prim::Put(k, _) | Prim::Del(k) | Prim::Get(k)) = p;
        check_get(&d.hb, k, d.m.map.get(k))?;
        let near = d.m.map.range(k.clone()..).take(3).chain(d.m.map.range(..k.clone()).rev().take(3));
        for (k, e) in near {
            check_get(&d.hb, k, Some(e))?;
        }
        Ok(())
    })?;
    for i in (0..50_000).step_by(1999) {
        let k = keys.key(i);
        check_get(&d.hb, &k, d.m.map.get(&k))?;
    }
    let (again, _) = bee::over(&d.log.blocks())?;
    for r in &c.ranges {
        let mut r = r.pick(&keys, &d.m.map);
        if r.max == B::PosInf || r.max_incl {
            // keep it short
            if let B::Key(k) = &r.min {
                if let Some((m, _)) = d.m.map.range(k.clone()..).nth(300) {
                    r.max = B::Key(m.clone());
                }
            }
        }
        if matches!((&r.min, &r.max), (B::Key(a), B::Key(z)) if a <= z) && r.want(&d.m.map).len() < 2000 {
            check_range(&d.hb, &r, &d.m.map)?;
            check_range(&again, &r, &d.m.map).map_err(|e| format!("reopened: {e}"))?;
            cx.hit("ranges");
        }
    }
    height_class(cx, d.m.height());
    cx.class("longer than 16384", d.m.len() > 16_384);
    cx.class("longer than 65536", d.m.len() > 65_536);
    cx.nontrivial = d.m.len() > start + 12;
    cx.note = Some(format!("{n} operations on a log of {start} blocks"));
    Ok(())
}
fn c06_long(c: &Long, cx: &mut Ctx) -> R<()> {
    let mut d = long_duo(c)?;
    let start = d.m.len();
    let mut cmp = start;
    let h = Hist { keys: long_keys(), ops: c.ops.clone() };
    d.go(&h, |d, p| same_blocks(d, p, &mut cmp))?;
    cx.class("longer than 16384", d.m.len() > 16_384);
    cx.class("longer than 65536", d.m.len() > 65_536);
    cx.nontrivial = cmp > start + 12;
    cx.note = Some(format!("blocks {start} to {cmp} compared"));
    Ok(())
}

fn strat_hist(t: Tier) -> BoxedStrategy<Hist> {
    match t {
        Tier::Quick => prop_oneof![2 => gen::hist(60, 40), 3 => gen::hist(320, 30)].boxed(),
        Tier::Thorough => prop_oneof![2 => gen::hist(60, 80), 3 => gen::hist(400, 60), 1 => gen::hist(1500, 40)].boxed(),
    }
}

pub fn c01_prop() -> Property {
    Property {
        id: "C01",
        level: "exploration",
        rule: "proptest generates a key space (decimal, big-endian, tiny alphabet with 00/fe/ff and the empty key, long shared prefix, prefix chains, hashed, explicit bytes) and a history of single and bulk puts, overwrites, deletes (mostly of live keys) and gets; every result is compared with an ordered-map model, with gets of the touched key and its neighbours after every operation and full scans. Other parts: deep trees, long logs, complete trees of up to 2^61 keys whose blocks are computed when read, keys and values of up to megabytes. Non-trivial: at least one effective delete and a tree of at least two levels at some point; in a giant tree, more than six levels and a write or range; with sizes, a block of more than 16383 bytes.",
        assumptions: &["hypercore and replicator are the offline stand-ins in /verif/stubs (append-only block list)"],
        parts: vec![
            part("history", 4000, 60000, strat_hist, c01),
            part("deep", 200, 4000, strat_deep, c01),
            part("long", 160, 4000, strat_long, c01_long),
            part("giant", 4000, 60000, super::giant::strat_writes, super::giant::plain),
            part("sizes", 600, 8000, super::sizes::strat, super::sizes::plain),
        ],
    }
}

// ---- C03 -------------------------------------------------------------------

fn c03(h: &Hist, cx: &mut Ctx) -> R<()> {
    // independent of the byte-exact model: its map only says what is live
    let (hb, log) = bee::fresh();
    struct S {
        hb: Hyperbee,
        map: Map,
        stamp: u64,
        mix: u64,
        ck: Checker,
    }
    let mut s = S { hb, map: Map::new(), stamp: 0, mix: 0, ck: Checker::default() };
    let (mut writes, mut maxh) = (0u64, 0);
    let whole = |s: &S| -> R<()> {
        let raw: Vec<Vec<u8>> = (0..log.len()).map(|i| log.block(i).unwrap_or_default()).collect();
        let sh = check_tree(&raw)?;
        let want: Vec<(&[u8], u64)> = s.map.iter().map(|(k, e)| (k.as_slice(), e.0)).collect();
        let got: Vec<(&[u8], u64)> = sh.keys.iter().map(|(k, s, _)| (k.as_slice(), *s)).collect();
        if want != got {
            let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            return Err(format!(
                "the stored tree has {} keys, expected {}; first difference at {i}: {:?} vs {:?}",
                got.len(), want.len(),
                got.get(i).map(|x| (show(x.0), x.1)), want.get(i).map(|x| (show(x.0), x.1))
            ));
        }
        Ok(())
    };
    drive(&mut s, &h.keys, &h.ops, |s| &s.map, |s, p| {
        let (k, new) = match &p {
            Prim::Put(k, v) => {
                s.stamp += 1;
                let v = v.bytes(s.stamp);
                let (_, seq) = ok("put", s.hb.put(k, v.as_deref()))?;
                (k, Some((seq, v)))
            }
            Prim::Del(k) => {
                ok("del", s.hb.del(k))?;
                (k, None)
            }
            Prim::Get(_) => return Ok(()),
        };
        if let Some(e) = &new {
            s.mix = s.mix.wrapping_add(mix(k, e.0));
        }
        if let Some(e) = match new {
            Some(e) => s.map.insert(k.clone(), e),
            None => s.map.remove(k),
        } {
            s.mix = s.mix.wrapping_sub(mix(k, e.0));
        }
        let after = |e: String| format!("after {}: {e}", show_prim(&p));
        for i in s.ck.len()..log.len() {
            s.ck.push(&log.block(i).unwrap_or_default()).map_err(after)?;
        }
        writes += 1;
        let (height, count, sum) = s.ck.check().map_err(after)?.map_or((0, 0, 0), |t| (t.height, t.count, t.mix));
        if maxh > height {
            cx.hit("tree got lower");
        }
        maxh = height.max(maxh);
        if (count, sum) != (s.map.len() as u64, s.mix) {
            whole(s).map_err(after)?;
            panic!("the two checks of the tree differ");
        }
        cx.class("deletes checked", matches!(p, Prim::Del(_)));
        Ok(())
    })?;
    whole(&s)?;
    height_class(cx, maxh);
    cx.nontrivial = maxh >= 2 && writes > 10;
    cx.note = Some(format!("{writes} writes checked, max height {maxh}"));
    Ok(())
}
pub fn show_prim(p: &Prim) -> String {
    match p {
        Prim::Put(k, _) => format!("put {}", show(k)),
        Prim::Del(k) => format!("del {}", show(k)),
        Prim::Get(k) => format!("get {}", show(k)),
    }
}

fn strat_shrink(_: Tier) -> BoxedStrategy<Hist> {
    gen::grow_drain(30, 260)
}
fn strat_deep(_: Tier) -> BoxedStrategy<Hist> {
    gen::grow_drain(350, 1100)
}

pub fn c03_prop() -> Property {
    Property {
        id: "C03",
        level: "exploration",
        rule: "as C01's histories plus grow-then-drain histories; after every write the raw log is decoded by an independent decoder and every B-tree invariant checked, and the entries of the tree (number, and hash sum of key and log index; all of them at the end) compared with the live set. Also complete trees of up to 2^61 keys whose blocks are computed when read. Non-trivial: more than ten writes and a tree of at least two levels; in a giant tree, more than six levels and a write.",
        assumptions: &["hypercore is the offline stand-in in /verif/stubs"],
        parts: vec![
            part("history", 4000, 60000, strat_hist, c03),
            part("shrink", 4000, 60000, strat_shrink, c03),
            part("deep", 400, 6000, strat_deep, c03),
            part("giant", 4000, 60000, super::giant::strat_writes, super::giant::shape),
        ],
    }
}

// ---- C06 -------------------------------------------------------------------

/// The library's blocks from `cmp` on are those JavaScript writes.
fn same_blocks(d: &Duo, p: &Prim, cmp: &mut u64) -> R<()> {
    let want = &d.m.raw;
    if d.log.len() != want.len() as u64 {
        return Err(format!("after {}: {} blocks, JavaScript writes {}", show_prim(p), d.log.len(), want.len()));
    }
    while *cmp < d.log.len() {
        let got = d.log.block(*cmp).unwrap_or_default();
        // the header is C18's business: JavaScript and Rust may differ in optional metadata
        if *cmp > 0 && got != want[*cmp as usize] {
            return Err(format!(
                "block {cmp} (written by {}): {:?} but JavaScript writes {:?}",
                show_prim(p), wire::decode_block(&got), wire::decode_block(&want[*cmp as usize])
            ));
        }
        *cmp += 1;
    }
    Ok(())
}
fn c06(h: &Hist, cx: &mut Ctx) -> R<()> {
    let mut d = Duo::new();
    let mut cmp = 0u64;
    let mut maxh = 0;
    d.go(h, |d, p| {
        same_blocks(d, p, &mut cmp)?;
        if d.changed {
            record_events(cx, &d.m);
            maxh = maxh.max(if cmp % 8 == 0 { d.m.height() } else { 0 });
        }
        Ok(())
    })?;
    maxh = maxh.max(d.m.height());
    height_class(cx, maxh);
    cx.nontrivial = maxh >= 2;
    cx.note = Some(format!("{cmp} blocks compared, height {maxh}"));
    Ok(())
}
pub fn c06_prop() -> Property {
    Property {
        id: "C06",
        level: "exploration",
        rule: "histories as in C01 and grow-then-drain histories run on the library and on a transcription of the JavaScript Hyperbee algorithm with its own protobuf encoder; every block is compared byte for byte; also in deep trees, long logs, complete trees of up to 2^61 keys, and with keys and values of up to megabytes. Non-trivial: a tree of at least two levels; in a giant tree, more than six and a write or range; with sizes, a block of more than 16383 bytes.",
        assumptions: &["the reference in harness/src/model.rs is a hand transcription of JavaScript Hyperbee's put, del, split, rebalance and index order; Node packages are not available offline to run the original"],
        parts: vec![
            part("history", 6000, 100000, strat_hist, c06),
            part("shrink", 8000, 100000, strat_shrink, c06),
            part("deep", 800, 20000, strat_deep, c06),
            part("long", 160, 4000, strat_long, c06_long),
            part("giant", 6000, 80000, super::giant::strat_writes, super::giant::bytes),
            part("sizes", 600, 8000, super::sizes::strat, super::sizes::bytes),
        ],
    }
}

// ---- C04 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prefixes {
    hist: Hist,
    cuts: Vec<u16>,
    noops: Vec<u16>,
}
fn strat_c04(t: Tier) -> BoxedStrategy<Prefixes> {
    let h = match t {
        Tier::Quick => prop_oneof![2 => gen::hist(60, 40), 2 => gen::hist(260, 20), 1 => strat_shrink(t)].boxed(),
        Tier::Thorough => strat_hist(t),
    };
    (h, vec(any::<u16>(), 1..10), vec(any::<u16>(), 1..6))
        .prop_map(|(hist, cuts, noops)| Prefixes { hist, cuts, noops })
        .boxed()
}
fn c04(c: &Prefixes, cx: &mut Ctx) -> R<()> {
    let mut d = Duo::new();
    // map after each log length
    let mut versions: Vec<Map> = vec![Map::new()];
    let mut blocks: Vec<Vec<u8>> = vec![];
    let mut n = 0usize;
    let version = |d: &Duo| exec::run(d.hb.version()).map_err(|h| h.0);
    if version(&d)? != 0 {
        return Err("a new tree reports a version other than 0".into());
    }
    let headed = c.noops[0] % 3 == 0;
    if headed {
        let at = ok("create_header", d.hb.create_header(None))?;
        d.m.ensure_header();
        blocks.push(d.log.block(0).unwrap_or_default());
        versions.push(Map::new());
        if (at.length, d.log.len(), version(&d)?) != (1, 1, 1) {
            return Err(format!("after create_header() = {at:?} the log has {} blocks and version() is {}", d.log.len(), version(&d)?));
        }
        cx.hit("header made first");
    }
    d.go(&c.hist, |d, p| {
        n += 1;
        let before = blocks.len() as u64;
        let want_len = if d.changed { before + 1 + u64::from(before == 0) } else { before };
        if d.log.len() != want_len {
            return Err(format!("{} took the log from {before} to {} blocks, expected {want_len}", show_prim(p), d.log.len()));
        }
        if version(d)? != want_len {
            return Err(format!("version() is {} but the log has {want_len} blocks", version(d)?));
        }
        for i in before..want_len {
            blocks.push(d.log.block(i).unwrap_or_default());
            versions.push(if i == 0 { Map::new() } else { d.m.map.clone() });
        }
        // operations that change nothing append nothing
        let pick = c.noops[n % c.noops.len()] as usize;
        if n % 9 == 0 && want_len > 0 {
            let absent = {
                let mut k = c.hist.keys.key(pick);
                while d.m.map.contains_key(&k) {
                    k.push(pick as u8);
                }
                k
            };
            if ok("del", d.hb.del(&absent))?.is_some() {
                return Err(format!("deleted the absent key {}", show(&absent)));
            }
            if let Some(k) = gen::nth_live(&d.m.map, pick) {
                ok("refused put", d.hb.put_compare_and_swap(&k, Some(b"no"), |_, _| false))?;
                ok("refused del", d.hb.del_compare_and_swap(&k, |_| false))?;
            }
            ok("refused put", d.hb.put_compare_and_swap(&absent, None, |_, _| false))?;
            check_scan(&d.hb, &d.m.map)?;
            ok("height", d.hb.height())?;
            if exec::run(d.hb.create_header(None)).map_err(|h| h.0)?.is_ok() {
                return Err("create_header() succeeded on a tree that has one".into());
            }
            cx.hit("no-op rounds");
            if d.log.len() != want_len {
                return Err("an operation that changes nothing appended a block".into());
            }
        }
        Ok(())
    })?;
    if d.log.blocks() != blocks {
        return Err("an existing block was altered".into());
    }
    let mut deep = false;
    for &cut in &c.cuts {
        let len = cut as usize % (blocks.len() + 1);
        let (old, _) = bee::over(&blocks[..len])?;
        let map = &versions[len];
        let v = exec::run(old.version()).map_err(|h| h.0)?;
        if v != len as u64 {
            return Err(format!("a log of {len} blocks opens at version {v}"));
        }
        let probes: Vec<Vec<u8>> = d.m.map.keys().step_by(7).cloned().collect();
        check_all(&old, map, &probes).map_err(|e| format!("log cut to {len} of {} blocks: {e}", blocks.len()))?;
        cx.hit("prefixes opened");
        deep |= map.len() > 8 && len < blocks.len();
    }
    cx.nontrivial = deep;
    cx.note = Some(format!("{} blocks, {} prefixes", blocks.len(), c.cuts.len()));
    Ok(())
}
pub fn c04_prop() -> Property {
    Property {
        id: "C04",
        level: "exploration",
        rule: "a history is run while block counts, version() and the bytes of all earlier blocks are checked (in a third of the cases after create_header); interspersed no-ops must append nothing; then random prefixes of the log are opened as trees of their own and compared entry by entry with the map recorded at that length. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: some opened prefix is shorter than the log and holds more than one node's worth of keys; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["hypercore is the offline stand-in in /verif/stubs"],
        parts: vec![part("prefixes", 6000, 60000, strat_c04, c04), part("tall", 3000, 60000, super::tall::strat, super::tall::c04)],
    }
}

// ---- C05 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Handles {
    hist: Hist,
    /// per primitive operation: 0 keep handle, 1.. see `c05`
    moves: Vec<u8>,
}
fn strat_c05(t: Tier) -> BoxedStrategy<Handles> {
    let h = match t {
        Tier::Quick => prop_oneof![2 => gen::hist(60, 40), 2 => gen::hist(220, 20)].boxed(),
        Tier::Thorough => strat_hist(t),
    };
    (h, vec(prop_oneof![3 => Just(0u8), 2 => any::<u8>()], 1..40))
        .prop_map(|(hist, moves)| Handles { hist, moves })
        .boxed()
}
/// several handles on one shared core, switched and reopened between operations
fn c05_core(c: &Handles, cx: &mut Ctx) -> R<()> {
    let log = SimLog::new();
    let shared = hypercore::replication::SharedCore::from(bee::core_of(&log));
    let open = || Hyperbee::from_hypercore(shared.clone()).map_err(|e| e.to_string());
    let mut hs = vec![open()?, open()?, open()?];
    struct S {
        m: JsBee,
        stamp: u64,
        n: usize,
    }
    let mut s = S { m: JsBee::default(), stamp: 0, n: 0 };
    let mut used = 0u32;
    let mut reopened = 0u32;
    let mut cur = 0;
    drive(&mut s, &c.hist.keys, &c.hist.ops, |s| &s.m.map, |s, p| {
        let mv = c.moves[s.n % c.moves.len()];
        s.n += 1;
        match mv % 8 {
            1 | 2 => cur = (mv / 8) as usize % hs.len(),
            3 => {
                hs[cur] = open()?;
                reopened += 1;
            }
            4 => {
                cur = (cur + 1) % hs.len();
                check_scan(&hs[cur], &s.m.map).map_err(|e| format!("handle {cur}: {e}"))?;
            }
            _ => (),
        }
        used |= 1 << cur;
        let hb = &hs[cur];
        match &p {
            Prim::Put(k, v) => {
                s.stamp += 1;
                let v = v.bytes(s.stamp);
                let want = s.m.put(k, v.as_deref());
                let got = ok("put", hb.put(k, v.as_deref()))?;
                if got != want {
                    return Err(format!("put({}) on handle {cur} returned {got:?}, expected {want:?}", show(k)));
                }
            }
            Prim::Del(k) => {
                let want = s.m.del(k);
                let got = ok("del", hb.del(k))?;
                if got != want {
                    return Err(format!("del({}) on handle {cur} returned {got:?}, expected {want:?}", show(k)));
                }
            }
            Prim::Get(_) => (),
        }
        let (Prim::Put(k, _) | Prim::Del(k) | Prim::Get(k)) = &p;
        for (i, hb) in hs.iter().enumerate() {
            check_get(hb, k, s.m.map.get(k)).map_err(|e| format!("handle {i}: {e}"))?;
            let v = exec::run(hb.version()).map_err(|h| h.0)?;
            if v != s.m.len() {
                return Err(format!("handle {i} reports version {v}, the log has {}", s.m.len()));
            }
        }
        Ok(())
    })?;
    for (i, hb) in hs.iter().enumerate() {
        check_all(hb, &s.m.map, &[]).map_err(|e| format!("handle {i}: {e}"))?;
    }
    check_all(&bee::over(&log.blocks())?.0, &s.m.map, &[]).map_err(|e| format!("fresh core: {e}"))?;
    if log.blocks()[..] != s.m.raw[..] && !s.m.raw.is_empty() && log.blocks()[1..] != s.m.raw[1..] {
        return Err("writes alternated between handles left another log than one handle would".into());
    }
    cx.class("two or more handles written through", used.count_ones() > 1);
    cx.add("reopened", reopened as u64);
    cx.nontrivial = used.count_ones() > 1 && s.m.map.len() > 8;
    cx.note = Some(format!("{} operations, {reopened} reopens, {} live", s.n, s.m.map.len()));
    Ok(())
}
/// one storage directory, closed and opened again between operations
fn c05_dir(c: &Handles, cx: &mut Ctx) -> R<()> {
    let dir = tempfile::Builder::new().prefix("hbcheck").tempdir().expect("tempdir");
    let path = dir.path().join("store");
    let open = || ok("from_storage_dir", Hyperbee::from_storage_dir(&path));
    struct S {
        m: JsBee,
        stamp: u64,
        n: usize,
        hb: Option<Hyperbee>,
    }
    let mut s = S { m: JsBee::default(), stamp: 0, n: 0, hb: Some(open()?) };
    let mut reopened = 0u32;
    drive(&mut s, &c.hist.keys, &c.hist.ops, |s| &s.m.map, |s, p| {
        let mv = c.moves[s.n % c.moves.len()];
        s.n += 1;
        if mv % 8 == 3 {
            s.hb = None;
            let hb = open()?;
            let v = exec::run(hb.version()).map_err(|h| h.0)?;
            if v != s.m.len() {
                return Err(format!("reopened at version {v}, expected {}", s.m.len()));
            }
            check_scan(&hb, &s.m.map).map_err(|e| format!("reopened: {e}"))?;
            s.hb = Some(hb);
            reopened += 1;
        }
        let hb = s.hb.as_ref().unwrap();
        match &p {
            Prim::Put(k, v) => {
                s.stamp += 1;
                let v = v.bytes(s.stamp);
                let want = s.m.put(k, v.as_deref());
                let got = ok("put", hb.put(k, v.as_deref()))?;
                if got != want {
                    return Err(format!("put({}) returned {got:?}, expected {want:?}", show(k)));
                }
            }
            Prim::Del(k) => {
                let want = s.m.del(k);
                let got = ok("del", hb.del(k))?;
                if got != want {
                    return Err(format!("del({}) returned {got:?}, expected {want:?}", show(k)));
                }
            }
            Prim::Get(k) => check_get(hb, k, s.m.map.get(k))?,
        }
        Ok(())
    })?;
    s.hb = None;
    let hb = open()?;
    check_all(&hb, &s.m.map, &[]).map_err(|e| format!("reopened at the end: {e}"))?;
    cx.add("reopened", reopened as u64 + 1);
    cx.nontrivial = reopened > 0 && s.m.map.len() > 8;
    cx.note = Some(format!("{} operations, {reopened} reopens in between", s.n));
    Ok(())
}
/// several trees in memory, each its own, and gone when dropped
fn c05_memory(c: &Handles, cx: &mut Ctx) -> R<()> {
    let open = || ok("from_ram", Hyperbee::from_ram());
    let mut hs = vec![open()?, open()?, open()?];
    struct S {
        ms: Vec<JsBee>,
        cur: usize,
        stamp: u64,
        n: usize,
    }
    let mut s = S { ms: vec![JsBee::default(), JsBee::default(), JsBee::default()], cur: 0, stamp: 0, n: 0 };
    let (mut used, mut renewed) = (0u32, 0u64);
    drive(&mut s, &c.hist.keys, &c.hist.ops, |s| &s.ms[s.cur].map, |s, p| {
        let mv = c.moves[s.n % c.moves.len()];
        s.n += 1;
        let cur = s.cur;
        used |= 1 << cur;
        let (hb, m) = (&hs[cur], &mut s.ms[cur]);
        match &p {
            Prim::Put(k, v) => {
                s.stamp += 1;
                let v = v.bytes(s.stamp);
                let want = m.put(k, v.as_deref());
                let got = ok("put", hb.put(k, v.as_deref()))?;
                if got != want {
                    return Err(format!("put({}) in tree {cur} returned {got:?}, expected {want:?}", show(k)));
                }
            }
            Prim::Del(k) => {
                let want = m.del(k);
                let got = ok("del", hb.del(k))?;
                if got != want {
                    return Err(format!("del({}) in tree {cur} returned {got:?}, expected {want:?}", show(k)));
                }
            }
            Prim::Get(_) => (),
        }
        let (Prim::Put(k, _) | Prim::Del(k) | Prim::Get(k)) = &p;
        for (i, hb) in hs.iter().enumerate() {
            check_get(hb, k, s.ms[i].map.get(k)).map_err(|e| format!("tree {i}: {e}"))?;
            let v = exec::run(hb.version()).map_err(|h| h.0)?;
            if v != s.ms[i].len() {
                return Err(format!("tree {i} in memory is at version {v}, expected {}", s.ms[i].len()));
            }
        }
        match mv % 8 {
            1 | 2 => s.cur = (mv / 8) as usize % hs.len(),
            3 if mv > 127 => {
                hs[cur] = open()?;
                s.ms[cur] = JsBee::default();
                renewed += 1;
            }
            _ => (),
        }
        Ok(())
    })?;
    for (i, hb) in hs.iter().enumerate() {
        check_all(hb, &s.ms[i].map, &[]).map_err(|e| format!("tree {i} in memory: {e}"))?;
    }
    cx.class("two or more trees written", used.count_ones() > 1);
    cx.add("replaced by a new one", renewed);
    cx.nontrivial = used.count_ones() > 1 && s.ms.iter().any(|m| m.map.len() > 8);
    cx.note = Some(format!("{} operations, {renewed} replaced, {:?} live", s.n, s.ms.iter().map(|m| m.map.len()).collect::<Vec<_>>()));
    Ok(())
}
/// A file name close to `base`, of any bytes.
fn os_name(bytes: &[u8]) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut b: Vec<u8> = bytes.iter().copied().filter(|b| *b != b'/' && *b != 0).take(60).collect();
    if b.is_empty() || b == b"." || b == b".." {
        b.push(b's');
    }
    std::ffi::OsString::from_vec(b)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dirs {
    #[serde(with = "crate::hex::many")]
    names: Vec<Vec<u8>>,
    keys: gen::Keys,
    /// store, key, what
    ops: Vec<(u8, u16, u8)>,
}
fn strat_dirs(_: Tier) -> BoxedStrategy<Dirs> {
    let stem = prop_oneof![
        3 => "[a-zA-Z .~é#%$*-]{1,8}".prop_map(|s| s.into_bytes()),
        2 => vec(any::<u8>(), 1..8),
    ];
    let near = |s: Vec<u8>, how: u8, b: u8| -> Vec<u8> {
        let mut t = s.clone();
        match how {
            0 => t.push(b' '),
            1 => t.push(b),
            2 => {
                t.pop();
            }
            3 => t = t.to_ascii_uppercase(),
            4 => {
                if let Some(l) = t.last_mut() {
                    *l = b
                }
            }
            5 => t.insert(0, b' '),
            6 => t.insert(0, b),
            7 => {
                // another byte that is not text
                t.push(0xff);
            }
            8 => t.push(0xfe),
            _ => t.extend_from_slice(".data".as_ref()),
        }
        t
    };
    (stem, vec((0u8..10, any::<u8>()), 1..4), gen::keys(40), vec((any::<u8>(), any::<u16>(), any::<u8>()), 4..60))
        .prop_map(move |(s, hows, keys, ops)| {
            let mut names = vec![s.clone()];
            names.extend(hows.iter().map(|&(h, b)| near(s.clone(), h, b)));
            Dirs { names, keys, ops }
        })
        .boxed()
}
/// several storage directories with similar names, each a tree of its own
fn c05_dirs(c: &Dirs, cx: &mut Ctx) -> R<()> {
    let dir = tempfile::Builder::new().prefix("hbcheck").tempdir().expect("tempdir");
    let mut names: Vec<_> = c.names.iter().map(|n| os_name(n)).collect();
    names.sort();
    names.dedup();
    let open = |i: usize| ok("from_storage_dir", Hyperbee::from_storage_dir(dir.path().join(&names[i])));
    let mut open_now: Vec<Option<Hyperbee>> = names.iter().map(|_| None).collect();
    let mut models: Vec<JsBee> = names.iter().map(|_| JsBee::default()).collect();
    let mut reopened = 0;
    for (n, &(w, k, what)) in c.ops.iter().enumerate() {
        let i = w as usize % names.len();
        if open_now[i].is_none() {
            open_now[i] = Some(open(i)?);
            reopened += u64::from(models[i].len() > 0);
            check_scan(open_now[i].as_ref().unwrap(), &models[i].map)
                .map_err(|e| format!("opened {:?} next to {:?}: {e}", names[i], names))?;
        }
        let hb = open_now[i].as_ref().unwrap();
        let key = c.keys.key(k as usize);
        match what % 8 {
            0 => {
                let (want, got) = (models[i].del(&key), ok("del", hb.del(&key))?);
                if want != got {
                    return Err(format!("del in {:?} gave {got:?}, expected {want:?}", names[i]));
                }
            }
            1 | 2 => open_now[i] = None,
            _ => {
                let v = format!("{n}");
                let want = models[i].put(&key, Some(v.as_bytes()));
                let got = ok("put", hb.put(&key, Some(v.as_bytes())))?;
                if want != got {
                    return Err(format!("put in {:?} gave {got:?}, expected {want:?}", names[i]));
                }
            }
        }
    }
    open_now.clear();
    for i in 0..names.len() {
        check_all(&open(i)?, &models[i].map, &[]).map_err(|e| format!("{:?} next to {:?}, opened at the end: {e}", names[i], names))?;
    }
    let mut there: Vec<_> = std::fs::read_dir(dir.path()).expect("scratch").flatten().map(|e| e.file_name()).collect();
    there.sort();
    if there != names {
        return Err(format!("asked for directories {names:?}, found {there:?}"));
    }
    cx.class("a name is not UTF-8", names.iter().any(|n| n.to_str().is_none()));
    cx.add("reopened", reopened);
    cx.nontrivial = names.len() > 1 && reopened > 0;
    cx.note = Some(format!("{names:?}"));
    Ok(())
}
pub fn c05_prop() -> Property {
    Property {
        id: "C05",
        level: "exploration",
        rule: "histories whose operations are spread over three handles on one core (switched, read through, dropped and reopened at generated points), and histories on a storage directory closed and reopened at generated points, and several directories with similar names (any bytes) side by side, and several trees in memory; all handles must agree with the map model after every operation. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: more than one node of keys and at least two handles written through, or a reopen in mid-history; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["hypercore, including its on-disk format, is the offline stand-in in /verif/stubs: what is decided is what hyperbee does with a correct hypercore"],
        parts: vec![
            part("handles", 12000, 60000, strat_c05, c05_core),
            part("directory", 4000, 16000, strat_c05, c05_dir),
            part("directories", 6000, 30000, strat_dirs, c05_dirs),
            part("memory", 2000, 10000, strat_c05, c05_memory),
            part("tall", 2500, 40000, super::tall::strat, super::tall::c05),
        ],
    }
}
