//! Generators shared by the checks: key spaces, values and operation histories.
use crate::{
    bee::{Range, B},
    model::Map,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

/// A deterministic enumeration of keys: `n` systematic ones of some kind, then
/// explicit byte strings.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Keys {
    pub kind: u8,
    pub n: u16,
    #[serde(with = "crate::hex::many")]
    pub extra: Vec<Vec<u8>>,
}
impl Keys {
    pub fn len(&self) -> usize {
        (self.n as usize + self.extra.len()).max(1)
    }
    pub fn key(&self, i: usize) -> Vec<u8> {
        let i = i % self.len();
        if i >= self.n as usize {
            return self.extra.get(i - self.n as usize).cloned().unwrap_or_default();
        }
        match self.kind {
            0 => i.to_string().into_bytes(),
            1 => (i as u16).to_be_bytes().to_vec(),
            2 => {
                // shortlex over a tiny alphabet, starting with the empty key
                const A: [u8; 4] = [0x00, b'a', 0xfe, 0xff];
                let (mut i, mut out) = (i, vec![]);
                while i > 0 {
                    i -= 1;
                    out.push(A[i % 4]);
                    i /= 4;
                }
                out
            }
            3 => {
                let mut k = b"a/long/shared/prefix/of/every/key/".to_vec();
                k.extend_from_slice(&(i as u16).to_be_bytes());
                k
            }
            4 => vec![if i % 2 == 0 { b'k' } else { 0xff }; i / 2],
            _ => {
                let x = (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                x.to_be_bytes()[..1 + (x % 7) as usize + 1].to_vec()
            }
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum V {
    None,
    Empty,
    /// a value unique to the write
    Uniq,
    /// unique and this long
    Big(u16),
}
impl V {
    pub fn bytes(self, stamp: u64) -> Option<Vec<u8>> {
        match self {
            V::None => None,
            V::Empty => Some(vec![]),
            V::Uniq => Some(format!("v{stamp}").into_bytes()),
            V::Big(n) => {
                let mut b = stamp.to_be_bytes().to_vec();
                b.resize(8 + n as usize, (stamp % 251) as u8);
                Some(b)
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Put(u16, V),
    /// put again a key that is live
    Again(u16, V),
    Del(u16),
    /// delete a key that is live
    DelLive(u16),
    Get(u16),
    Fill { from: u16, count: u16, step: u16, v: V },
    /// delete `count` live keys: from the smallest, the largest, next to each other, or strided
    Drain { at: u16, count: u16, mode: u8 },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Prim {
    Put(Vec<u8>, V),
    Del(Vec<u8>),
    Get(Vec<u8>),
}

pub fn nth_live(map: &Map, r: usize) -> Option<Vec<u8>> {
    if map.is_empty() {
        return None;
    }
    map.keys().nth(r % map.len()).cloned()
}

/// Run `ops`, expanding each against the current map.
pub fn drive<T>(
    t: &mut T,
    keys: &Keys,
    ops: &[Op],
    map: impl Fn(&T) -> &Map,
    mut apply: impl FnMut(&mut T, Prim) -> Result<(), String>,
) -> Result<(), String> {
    let k = |i: usize| keys.key(i);
    for op in ops {
        match *op {
            Op::Put(i, v) => apply(t, Prim::Put(k(i as usize), v))?,
            Op::Again(r, v) => {
                if let Some(key) = nth_live(map(t), r as usize) {
                    apply(t, Prim::Put(key, v))?
                }
            }
            Op::Del(i) => apply(t, Prim::Del(k(i as usize)))?,
            Op::DelLive(r) => {
                if let Some(key) = nth_live(map(t), r as usize) {
                    apply(t, Prim::Del(key))?
                }
            }
            Op::Get(i) => apply(t, Prim::Get(k(i as usize)))?,
            Op::Fill { from, count, step, v } => {
                for j in 0..(count as usize).min(keys.len()) {
                    apply(t, Prim::Put(k(from as usize + j * step as usize), v))?
                }
            }
            Op::Drain { at, count, mode } => {
                for j in 0..count as usize {
                    let m = map(t);
                    if m.is_empty() {
                        break;
                    }
                    let r = match mode % 4 {
                        0 => 0,
                        1 => m.len() - 1,
                        2 => (at as usize).min(m.len() - 1),
                        _ => at as usize + j * 7,
                    };
                    let key = nth_live(m, r).unwrap();
                    apply(t, Prim::Del(key))?
                }
            }
        }
    }
    Ok(())
}

pub fn val() -> BoxedStrategy<V> {
    prop_oneof![
        60 => Just(V::Uniq),
        20 => Just(V::None),
        10 => Just(V::Empty),
        9 => (0u16..600).prop_map(V::Big),
        // where lengths need one more byte
        1 => prop_oneof![4 => 110u16..130, 4 => 16340u16..16400, 1 => 65500u16..=65535].prop_map(V::Big),
    ]
    .boxed()
}
/// for many writes at once
pub fn small_val() -> BoxedStrategy<V> {
    prop_oneof![
        7 => Just(V::Uniq),
        2 => Just(V::None),
        1 => Just(V::Empty),
        1 => (0u16..200).prop_map(V::Big),
    ]
    .boxed()
}

/// Arbitrary explicit keys, biased to the edges of the byte order.
pub fn raw_key() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => vec(prop_oneof![Just(0u8), Just(1u8), Just(0xfeu8), Just(0xffu8), any::<u8>()], 0..5),
        1 => vec(any::<u8>(), 0..40),
        1 => (any::<u8>(), prop_oneof![20 => 100usize..400, 1 => 16_370usize..16_400]).prop_map(|(b, n)| vec![b; n]),
    ]
    .boxed()
}

pub fn keys(max_n: u16) -> BoxedStrategy<Keys> {
    let max_n = max_n.max(13);
    (
        prop_oneof![3 => Just(0u8), 2 => Just(1u8), 3 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8), 2 => Just(5u8)],
        prop_oneof![1 => 1u16..12, 2 => 12u16..60, 3 => (max_n / 4).max(13)..=max_n],
        vec(raw_key(), 0..6),
    )
        .prop_map(|(kind, n, extra)| Keys { kind, n: if kind == 4 { n.min(120) } else { n }, extra })
        .boxed()
}

pub fn op(max_bulk: u16) -> BoxedStrategy<Op> {
    let idx = any::<u16>();
    prop_oneof![
        5 => (idx, val()).prop_map(|(i, v)| Op::Put(i, v)),
        2 => (idx, val()).prop_map(|(i, v)| Op::Again(i, v)),
        1 => idx.prop_map(Op::Del),
        7 => idx.prop_map(Op::DelLive),
        1 => idx.prop_map(Op::Get),
        2 => (idx, 1..=max_bulk, stride(), small_val())
            .prop_map(|(from, count, step, v)| Op::Fill { from, count, step, v }),
        3 => (idx, 1..=max_bulk, 0u8..4).prop_map(|(at, count, mode)| Op::Drain { at, count, mode }),
    ]
    .boxed()
}

/// Steps that visit most of a key space before they repeat.
pub fn stride() -> BoxedStrategy<u16> {
    prop_oneof![4 => Just(1u16), 1 => Just(7u16), 1 => Just(13u16), 1 => Just(31u16), 1 => Just(101u16), 1 => Just(211u16), 2 => Just(65521u16)].boxed()
}

/// A key space of about `n` distinct keys.
pub fn wide_keys(lo: u16, hi: u16) -> BoxedStrategy<Keys> {
    (prop_oneof![2 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8), 3 => Just(5u8)], lo..=hi, vec(raw_key(), 0..3))
        .prop_map(|(kind, n, extra)| Keys { kind, n, extra })
        .boxed()
}
/// Trees grown to `lo..hi` keys and then taken down and changed, for deep repair cascades.
pub fn grow_drain(lo: u16, hi: u16) -> BoxedStrategy<Hist> {
    (
        wide_keys(lo, hi),
        stride(),
        vec(
            prop_oneof![
                4 => (any::<u16>(), 1u16..=hi / 3, 0u8..4).prop_map(|(at, count, mode)| Op::Drain { at, count, mode }),
                1 => (any::<u16>(), 1u16..=hi / 5, stride()).prop_map(|(from, count, step)| Op::Fill { from, count, step, v: V::Uniq }),
                3 => any::<u16>().prop_map(Op::DelLive),
                1 => (any::<u16>(), val()).prop_map(|(i, v)| Op::Again(i, v)),
            ],
            1..16,
        ),
    )
        .prop_map(|(keys, step, mut ops)| {
            ops.insert(0, Op::Fill { from: 0, count: keys.n, step, v: V::Uniq });
            Hist { keys, ops }
        })
        .boxed()
}

/// A history: a key space and operations on it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub keys: Keys,
    pub ops: Vec<Op>,
}

pub fn hist(max_n: u16, max_ops: usize) -> BoxedStrategy<Hist> {
    let grow = (any::<u16>(), 0..=max_n, stride(), small_val())
        .prop_map(|(from, count, step, v)| Op::Fill { from, count, step, v });
    let bulk = (max_n / 8).clamp(2, 40);
    (
        keys(max_n),
        prop_oneof![1 => Just(None), 3 => grow.prop_map(Some)],
        vec(op(bulk), 0..=max_ops),
    )
        .prop_map(|(keys, grow, mut ops)| {
            if let Some(g) = grow {
                ops.insert(0, g);
            }
            Hist { keys, ops }
        })
        .boxed()
}

/// A key chosen relative to what is stored.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum KSel {
    Space(u16),
    Live(u16),
    /// a live key with a zero byte appended: its immediate successor
    After(u16),
    /// a live key without its last byte
    Cut(u16),
    /// a live key with its last byte one up or down
    Bump(u16, bool),
    /// a live key with an 0xff appended
    Long(u16),
    Raw(#[serde(with = "crate::hex::one")] Vec<u8>),
}
impl KSel {
    pub fn pick(&self, keys: &Keys, map: &Map) -> Vec<u8> {
        let live = |i: u16| nth_live(map, i as usize).unwrap_or_else(|| keys.key(i as usize));
        match self {
            KSel::Space(i) => keys.key(*i as usize),
            KSel::Live(i) => live(*i),
            KSel::After(i) => {
                let mut k = live(*i);
                k.push(0);
                k
            }
            KSel::Long(i) => {
                let mut k = live(*i);
                k.push(0xff);
                k
            }
            KSel::Cut(i) => {
                let mut k = live(*i);
                k.pop();
                k
            }
            KSel::Bump(i, up) => {
                let mut k = live(*i);
                if let Some(b) = k.last_mut() {
                    *b = if *up { b.wrapping_add(1) } else { b.wrapping_sub(1) };
                }
                k
            }
            KSel::Raw(k) => k.clone(),
        }
    }
}
pub fn ksel() -> BoxedStrategy<KSel> {
    let i = any::<u16>();
    prop_oneof![
        1 => i.prop_map(KSel::Space),
        4 => i.prop_map(KSel::Live),
        1 => i.prop_map(KSel::After),
        1 => i.prop_map(KSel::Long),
        1 => i.prop_map(KSel::Cut),
        1 => (i, any::<bool>()).prop_map(|(i, b)| KSel::Bump(i, b)),
        1 => raw_key().prop_map(KSel::Raw),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BSel {
    None,
    Key(KSel),
    /// the infinity on the other side: nothing is in such a range
    Beyond,
}
/// A range chosen relative to what is stored.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RSel {
    pub min: BSel,
    pub min_incl: bool,
    pub max: BSel,
    pub max_incl: bool,
    pub rev: bool,
    /// leave an inverted range as it is
    pub keep: bool,
    /// put both bounds this close together instead (0: independent)
    pub near: u8,
}
impl RSel {
    pub fn pick(&self, keys: &Keys, map: &Map) -> Range {
        let b = |b: &BSel, inf: B, other: B| match b {
            BSel::None => inf,
            BSel::Beyond => other,
            BSel::Key(k) => B::Key(k.pick(keys, map)),
        };
        let mut r = Range {
            min: b(&self.min, B::NegInf, B::PosInf),
            min_incl: self.min_incl,
            max: b(&self.max, B::PosInf, B::NegInf),
            max_incl: self.max_incl,
            rev: self.rev,
        };
        if self.near > 0 {
            if let B::Key(k) = &r.min {
                if let Some(m) = map.range(k.clone()..).nth(self.near as usize - 1) {
                    r.max = B::Key(m.0.clone());
                }
            }
        }
        if let (B::Key(a), B::Key(z)) = (&r.min, &r.max) {
            if a > z && !self.keep {
                let (a, z) = (a.clone(), z.clone());
                r.min = B::Key(z);
                r.max = B::Key(a);
            }
        }
        r
    }
}
pub fn rsel() -> BoxedStrategy<RSel> {
    let b = || prop_oneof![8 => Just(BSel::None), 40 => ksel().prop_map(BSel::Key), 1 => Just(BSel::Beyond)];
    (
        b(),
        any::<bool>(),
        b(),
        any::<bool>(),
        any::<bool>(),
        prop::bool::weighted(0.08),
        prop_oneof![2 => Just(0u8), 1 => 1u8..24],
    )
        .prop_map(|(min, min_incl, max, max_incl, rev, keep, near)| RSel { min, min_incl, max, max_incl, rev, keep, near })
        .boxed()
}
