//! Keys and values of every size up to megabytes (parts of C01 and C06).
use crate::{
    bee::{self, *},
    exec::R,
    model::JsBee,
    runner::{Ctx, Tier},
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

/// So many bytes: near a power of two, or any.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Len(u8, i8);
impl Len {
    fn get(self) -> usize {
        ((1usize << self.0) as i64 + i64::from(self.1)).max(0) as usize
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// the length of the key, its last byte, the length of the value
    Put(Len, u8, Option<Len>),
    /// the n-th live key again
    Again(u8, Option<Len>),
    Del(u8),
    Absent(Len, u8),
}
fn len(most: u8) -> BoxedStrategy<Len> {
    (
        prop_oneof![3 => Just(7u8), 3 => Just(8u8), 4 => Just(14u8), 3 => Just(16u8), 4 => 0..=most, 1 => Just(most)],
        prop_oneof![2 => -2i8..=2, 3 => -48i8..=2],
    )
        .prop_map(move |(p, d)| Len(p.min(most), d))
        .boxed()
}
pub fn strat(t: Tier) -> BoxedStrategy<Vec<Op>> {
    let ops = |most: u8, n: usize| {
        let v = move || prop::option::weighted(0.85, len(most));
        let op = prop_oneof![
            6 => (len(most), 0u8..6, v()).prop_map(|(k, t, v)| Op::Put(k, t, v)),
            2 => (any::<u8>(), v()).prop_map(|(k, v)| Op::Again(k, v)),
            2 => any::<u8>().prop_map(Op::Del),
            1 => (len(most), 0u8..6).prop_map(|(k, t)| Op::Absent(k, t)),
        ];
        vec(op, 1..n).boxed()
    };
    match t {
        Tier::Quick => prop_oneof![12 => ops(17, 24), 2 => ops(21, 8), 1 => ops(23, 3)].boxed(),
        Tier::Thorough => prop_oneof![12 => ops(17, 40), 4 => ops(21, 12), 1 => ops(24, 4), 1 => ops(26, 3)].boxed(),
    }
}
fn key(n: usize, tail: u8) -> Vec<u8> {
    let mut k = vec![b'k'; n];
    if let Some(x) = k.last_mut() {
        *x = tail * 50;
    }
    k
}
fn run(ops: &[Op], cx: &mut Ctx, same_bytes: bool) -> R<()> {
    let (mut hb, log) = bee::fresh();
    let mut m = JsBee::default();
    let (mut most_k, mut most_v, mut most_b) = (0, 0, 0);
    for (i, op) in ops.iter().enumerate() {
        let nth = |m: &JsBee, r: u8| m.map.keys().nth(r as usize % m.map.len().max(1)).cloned();
        let val = |v: Option<Len>| v.map(|l| vec![b'0' + (i % 70) as u8; l.get()]);
        let k = match *op {
            Op::Put(l, t, _) | Op::Absent(l, t) => Some(key(l.get(), t)),
            Op::Again(r, _) | Op::Del(r) => nth(&m, r),
        };
        let Some(k) = k else { continue };
        match *op {
            Op::Put(_, _, v) | Op::Again(_, v) => {
                let v = val(v);
                most_k = most_k.max(k.len());
                most_v = most_v.max(v.as_ref().map_or(0, Vec::len));
                let want = m.put(&k, v.as_deref());
                let got = ok("put", hb.put(&k, v.as_deref()))?;
                if got != want {
                    return Err(format!("put({}) of {:?} bytes returned another result than expected", show(&k), v.map(|v| v.len())));
                }
            }
            Op::Del(_) => {
                let want = m.del(&k);
                let got = ok("del", hb.del(&k))?;
                if got != want {
                    return Err(format!("del({}) returned {got:?}, expected {want:?}", show(&k)));
                }
            }
            Op::Absent(..) => (),
        }
        if log.len() != m.len() {
            return Err(format!("the log has {} blocks, expected {}", log.len(), m.len()));
        }
        if let (Some(want), Some(got)) = (m.raw.last(), log.block(m.len().max(1) - 1)) {
            most_b = most_b.max(want.len());
            if same_bytes && got != *want {
                let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
                return Err(format!("block {}: {} bytes, but JavaScript writes {}; they differ from byte {at}", m.len() - 1, got.len(), want.len()));
            }
        }
        if i % 5 == 4 {
            hb = bee::open(&log)?;
        }
        check_get(&hb, &k, m.map.get(&k))?;
        check_scan(&hb, &m.map)?;
    }
    for (k, e) in &m.map {
        check_get(&hb, k, Some(e))?;
    }
    cx.class("a key above 16383 bytes", most_k > 16_383);
    cx.class("a key above 65535 bytes", most_k > 65_535);
    cx.class("a key above a million bytes", most_k > 1_000_000);
    cx.class("a value above 16383 bytes", most_v > 16_383);
    cx.class("a value above 65535 bytes", most_v > 65_535);
    cx.class("a value above a million bytes", most_v > 1_000_000);
    cx.nontrivial = most_b > 16_383;
    cx.note = Some(format!("{} operations, keys up to {most_k} bytes, values up to {most_v}, blocks up to {most_b}", ops.len()));
    Ok(())
}
pub fn plain(ops: &Vec<Op>, cx: &mut Ctx) -> R<()> {
    run(ops, cx, false)
}
pub fn bytes(ops: &Vec<Op>, cx: &mut Ctx) -> R<()> {
    run(ops, cx, true)
}
