//! Trees too large to write down: complete trees of any height whose blocks are made when they
//! are asked for (parts of C01, C02 and C06).
use crate::{
    bee::{self, *},
    exec::R,
    gen::V,
    model::{mix, Checker, Entry, Giant, JsBee},
    runner::{Ctx, Tier},
    wire,
};
use hypercore::sim::SimLog;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{collections::BTreeMap, ops::Bound, sync::Arc};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum At {
    /// any key of the tree
    Rank(u64),
    /// near a key that separates subtrees of this height
    Edge(u8, u64, i8),
    /// near one written or deleted before
    Touched(u16),
    First(u8),
    Last(u8),
}
/// A place, and what to make of the key there: itself, the one between it and the next, the
/// one right after it, its first bytes, or no key at all of the tree's kind.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sel(At, u8);
pub fn sel() -> BoxedStrategy<Sel> {
    (
        prop_oneof![
            3 => any::<u64>().prop_map(At::Rank),
            4 => (1u8..30, any::<u64>(), -2i8..=2).prop_map(|(h, x, d)| At::Edge(h, x, d)),
            4 => any::<u16>().prop_map(At::Touched),
            1 => (0u8..12).prop_map(At::First),
            1 => (0u8..12).prop_map(At::Last),
        ],
        prop_oneof![6 => Just(0u8), 3 => Just(1u8), 1 => 2u8..6],
    )
        .prop_map(|(a, f)| Sel(a, f))
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Put(Sel, V),
    Del(Sel),
    Get(Sel),
    /// from here on: (inclusive, upwards or downwards, end: how many items further and inclusive)
    Range(Sel, bool, bool, Option<(u8, bool)>),
    /// from one end
    All(bool),
    Reopen,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ways: u8,
    top: u8,
    height: u8,
    ops: Vec<Op>,
}
fn strat(reads: u32) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        4 => (sel(), crate::gen::val()).prop_map(|(s, v)| Op::Put(s, v)),
        6 => sel().prop_map(Op::Del),
        1 => sel().prop_map(Op::Get),
        reads => (sel(), any::<bool>(), any::<bool>(), prop::option::of((0u8..20, any::<bool>()))).prop_map(|(s, i, r, e)| Op::Range(s, i, r, e)),
        1 => any::<bool>().prop_map(Op::All),
        1 => Just(Op::Reopen),
    ];
    (prop_oneof![3 => Just(5u8), 3 => Just(9u8), 2 => 5u8..=9], 2u8..=9, prop_oneof![1 => 2u8..6, 2 => 4u8..27], vec(op, 1..24))
        .prop_map(|(ways, top, mut height, ops)| {
            // indexes stay below 2^62
            while (height as f64 - 1.0) * (ways as f64).log2() + (top as f64).log2() > 61.5 {
                height -= 1;
            }
            Case { ways, top, height, ops }
        })
        .boxed()
}
pub fn strat_writes(_: Tier) -> BoxedStrategy<Case> {
    strat(2)
}
pub fn strat_reads(_: Tier) -> BoxedStrategy<Case> {
    strat(30)
}

/// The whole content: the tree as made, and what was done to it.
#[derive(Clone)]
pub struct World {
    pub g: Giant,
    pub over: BTreeMap<Vec<u8>, Option<Entry>>,
}
impl World {
    pub fn get(&self, k: &[u8]) -> Option<Entry> {
        match self.over.get(k) {
            Some(e) => e.clone(),
            None => self.g.rank(k).map(|r| self.g.entry(r)),
        }
    }
    pub fn next(&self, from: Option<(&[u8], bool)>, down: bool) -> Option<Item> {
        let n = self.g.n();
        let made = if !down {
            let mut r = match from {
                None => 1,
                Some((k, incl)) => {
                    let r = self.g.below(k) + 1;
                    r + u64::from(!incl && r <= n && self.g.key(r) == k)
                }
            };
            while r <= n && self.over.contains_key(&self.g.key(r)) {
                r += 1
            }
            (r <= n).then_some(r)
        } else {
            let mut r = match from {
                None => n,
                Some((k, incl)) => {
                    let r = self.g.below(k);
                    r + u64::from(incl && r < n && self.g.key(r + 1) == k)
                }
            };
            while r >= 1 && self.over.contains_key(&self.g.key(r)) {
                r -= 1
            }
            (r >= 1).then_some(r)
        };
        let made = made.map(|r| (self.g.key(r), self.g.entry(r)));
        let bound = match from {
            None => Bound::Unbounded,
            Some((k, true)) => Bound::Included(k.to_vec()),
            Some((k, false)) => Bound::Excluded(k.to_vec()),
        };
        let live = |(k, e): (&Vec<u8>, &Option<Entry>)| e.clone().map(|e| (k.clone(), e));
        let other = if !down {
            self.over.range((bound, Bound::Unbounded)).find_map(live)
        } else {
            self.over.range((Bound::Unbounded, bound)).rev().find_map(live)
        };
        let best = match (made, other) {
            (Some(a), Some(b)) => Some(if (a.0 < b.0) != down { a } else { b }),
            (a, b) => a.or(b),
        };
        best.map(|(k, (s, v))| (k, s, v))
    }
    pub fn items(&self, from: Option<(&[u8], bool)>, down: bool, n: usize) -> Vec<Item> {
        let mut out: Vec<Item> = vec![];
        while out.len() < n {
            let x = match out.last() {
                None => self.next(from, down),
                Some((k, _, _)) => self.next(Some((k, false)), down),
            };
            match x {
                None => break,
                Some(x) => out.push(x),
            }
        }
        out
    }
    pub fn pick(&self, s: &Sel) -> Vec<u8> {
        let n = self.g.n();
        let rank = match s.0 {
            At::Rank(x) => 1 + x % n,
            At::Edge(h, x, d) => {
                let h = u32::from(h) % self.g.height;
                let step = self.g.ways.pow(h);
                let i = x % (n / step + 1);
                (i * step).saturating_add_signed(d.into()).clamp(1, n)
            }
            At::Touched(i) => {
                if let Some(k) = self.over.keys().nth(i as usize % self.over.len().max(1)) {
                    return Self::form(k.clone(), s.1);
                }
                n / 2 + 1
            }
            At::First(d) => (1 + u64::from(d)).min(n),
            At::Last(d) => n.saturating_sub(d.into()).max(1),
        };
        Self::form(self.g.key(rank), s.1)
    }
    fn form(mut k: Vec<u8>, f: u8) -> Vec<u8> {
        match f {
            0 => (),
            1 => {
                if let Some(x) = k.last_mut() {
                    *x |= 1
                }
            }
            2 => k.push(0),
            3 => k.truncate(7),
            4 => k.clear(),
            _ => k = vec![0xff; 9],
        }
        k
    }
}

pub fn plain(c: &Case, cx: &mut Ctx) -> R<()> {
    run(c, cx, false)
}
pub fn bytes(c: &Case, cx: &mut Ctx) -> R<()> {
    run(c, cx, true)
}
/// C03: the stored tree after every write. Only the number of keys and their order are
/// known of a tree this large, not what each of them is.
pub fn shape(c: &Case, cx: &mut Ctx) -> R<()> {
    let g = Giant { ways: c.ways.into(), top: c.top.into(), height: c.height.into() };
    let n = g.n();
    let log = SimLog::made(&wire::default_header(), n, Arc::new(move |i| Some(wire::encode_block(&g.block(i)))));
    let hb = bee::open(&log)?;
    let mut w = World { g, over: BTreeMap::new() };
    let mut ck = Checker::new(Some(g));
    ck.push(&[])?;
    let mut count = n;
    let (mut sum, mut writes, mut lower, mut higher) = (0u64, 0u64, false, false);
    for op in &c.ops {
        let (k, new) = match op {
            Op::Put(s, v) => {
                let k = w.pick(s);
                let v = v.bytes(log.len());
                (k.clone(), Some((ok("put", hb.put(&k, v.as_deref()))?.1, v)))
            }
            Op::Del(s) => {
                let k = w.pick(s);
                ok("del", hb.del(&k))?;
                (k, None)
            }
            _ => continue,
        };
        count += u64::from(new.is_some());
        if let Some(e) = w.get(&k) {
            count -= 1;
            if e.0 > n {
                sum = sum.wrapping_sub(mix(&k, e.0));
            }
        }
        if let Some(e) = &new {
            sum = sum.wrapping_add(mix(&k, e.0));
        }
        w.over.insert(k.clone(), new);
        let after = |e: String| format!("after a write of {}: {e}", show(&k));
        for i in ck.len()..log.len() {
            ck.push(&log.block(i).unwrap_or_default()).map_err(after)?;
        }
        let t = ck.check().map_err(after)?.expect("not empty");
        if t.count != count || t.mix != sum {
            return Err(after(format!("the stored tree has {} keys, expected {count} (or other entries than were put)", t.count)));
        }
        writes += 1;
        lower |= t.height < c.height.into();
        higher |= t.height > c.height.into();
    }
    cx.class("indexes above 2^32", n > 1 << 32);
    cx.class("the tree got lower", lower);
    cx.class("the tree got higher", higher);
    cx.nontrivial = c.height > 6 && writes > 0;
    cx.note = Some(format!("{} ways, height {}, {n} keys, {writes} writes", c.ways, c.height));
    Ok(())
}
fn run(c: &Case, cx: &mut Ctx, same_bytes: bool) -> R<()> {
    let g = Giant { ways: c.ways.into(), top: c.top.into(), height: c.height.into() };
    let n = g.n();
    let log = SimLog::made(&wire::default_header(), n, Arc::new(move |i| Some(wire::encode_block(&g.block(i)))));
    let mut m = JsBee::default();
    m.ensure_header();
    m.giant = Some(g);
    let mut w = World { g, over: BTreeMap::new() };
    let mut hb = bee::open(&log)?;
    let (mut wrote, mut ranged, mut top, mut deep) = (0, 0, false, 0);
    let traverse = |hb: &hyperbee::Hyperbee, w: &World, r: Range, from: Option<(&[u8], bool)>, n: usize| -> R<()> {
        let mut want = w.items(from, r.rev, n);
        want.retain(|(k, _, _)| r.has(k));
        let got = collect("traverse", hb.traverse(r.conf()), n - 1)?;
        diff_items(&format!("traverse {} (the first {n})", show_range(&r)), &got, &want)
    };
    for op in &c.ops {
        let key = match op {
            Op::Put(s, v) => {
                let k = w.pick(s);
                let v = v.bytes(m.len());
                let want = m.put(&k, v.as_deref());
                let got = ok("put", hb.put(&k, v.as_deref()))?;
                if got != want {
                    return Err(format!("put({}) returned {got:?}, expected {want:?}", show(&k)));
                }
                w.over.insert(k.clone(), Some((want.1, v)));
                wrote += 1;
                Some(k)
            }
            Op::Del(s) => {
                let k = w.pick(s);
                let want = m.del(&k);
                if want != w.get(&k).map(|e| e.0) {
                    panic!("the two models differ");
                }
                let got = ok("del", hb.del(&k))?;
                if got != want {
                    return Err(format!("del({}) returned {got:?}, expected {want:?}", show(&k)));
                }
                if want.is_some() {
                    w.over.insert(k.clone(), None);
                    wrote += 1;
                }
                Some(k)
            }
            Op::Get(s) => Some(w.pick(s)),
            Op::Range(s, incl, down, end) => {
                let k = w.pick(s);
                let from = (k.as_slice(), *incl);
                let near = w.items(Some(from), *down, 24);
                let end = end.and_then(|(i, incl)| near.get(i as usize).map(|x| (B::Key(x.0.clone()), incl)));
                let (far, far_incl) = end.unwrap_or((if *down { B::NegInf } else { B::PosInf }, true));
                let r = if *down {
                    Range { min: far, min_incl: far_incl, max: B::Key(k.clone()), max_incl: *incl, rev: true }
                } else {
                    Range { min: B::Key(k.clone()), min_incl: *incl, max: far, max_incl: far_incl, rev: false }
                };
                traverse(&hb, &w, r, Some(from), 24)?;
                ranged += 1;
                None
            }
            Op::All(down) => {
                traverse(&hb, &w, Range::all(*down), None, 24)?;
                ranged += 1;
                None
            }
            Op::Reopen => {
                hb = bee::open(&log)?;
                None
            }
        };
        if log.len() != m.len() {
            return Err(format!("the log has {} blocks, expected {}", log.len(), m.len()));
        }
        if same_bytes && m.raw.len() > 1 {
            let got = log.block(m.len() - 1).unwrap_or_default();
            if got != *m.raw.last().unwrap() {
                return Err(format!(
                    "block {}: {:?} but JavaScript writes {:?}",
                    m.len() - 1,
                    wire::decode_block(&got),
                    wire::decode_block(m.raw.last().unwrap())
                ));
            }
        }
        deep = deep.max(m.last.splits + m.last.merge_left + m.last.merge_right);
        top |= m.last.new_root || m.last.shrink;
        if let Some(k) = key {
            check_get(&hb, &k, w.get(&k).as_ref())?;
            let (up, down) = (w.items(Some((&k, false)), false, 2), w.items(Some((&k, false)), true, 2));
            for (k, s, v) in up.into_iter().chain(down) {
                check_get(&hb, &k, Some(&(s, v)))?;
            }
        }
    }
    cx.add("writes", wrote);
    cx.add("ranges", ranged);
    cx.class("splits or merges through 4 or more levels", deep >= 4);
    cx.class("the tree gets higher or lower", top);
    cx.class("indexes above 2^32", n > 1 << 32);
    cx.class("indexes above 2^53", n > 1 << 53);
    cx.hit(match c.height {
        0..=6 => "height up to 6",
        7..=12 => "height 7 to 12",
        _ => "height 13 to 26",
    });
    cx.nontrivial = c.height > 6 && (wrote > 0 || ranged > 0);
    cx.note = Some(format!("{} ways, height {}, {n} keys, {wrote} writes, {ranged} ranges", c.ways, c.height));
    Ok(())
}

#[cfg(test)]
mod test {
    use super::*;
    /// The made blocks are a valid tree.
    #[test]
    fn made() {
        for ways in 5..=9 {
            for top in 2..=9 {
                for height in 1..=4 {
                    let g = Giant { ways, top, height };
                    let blocks: Vec<_> = std::iter::once(None).chain((1..=g.n()).map(|i| Some(g.block(i)))).collect();
                    let sh = crate::model::check_blocks(&blocks).unwrap();
                    assert_eq!(sh.height as u32, height);
                    assert_eq!(sh.keys.len() as u64, g.n());
                }
            }
        }
    }
}
