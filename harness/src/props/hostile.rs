//! C13: logs written by somebody hostile or broken.
use crate::{
    bee::{self, *},
    exec::{self, R},
    gen::{self, Hist, KSel, RSel},
    model::Map,
    props::reads::grow_model,
    runner::{part, Ctx, Property, Tier},
    wire,
};
use futures_util::StreamExt;
use hyperbee::{Hyperbee, HyperbeeError};
use hypercore::sim::{self, SimLog};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

/// Polls one operation may take. Valid ones on these logs take far fewer.
const POLLS: u64 = 30_000;
/// Stack one operation may use. Valid ones use a few dozen kilobytes.
const STACK: usize = 1_500_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Seq {
    /// the block itself
    Own,
    /// this many blocks before it
    Back(u16),
    At(u16),
    Last,
    /// the next block to be appended, and later ones
    Future(u16),
    Huge,
}
impl Seq {
    fn pick(&self, own: u64, len: u64) -> u64 {
        match self {
            Seq::Own => own,
            Seq::Back(n) => own.saturating_sub(*n as u64),
            Seq::At(n) => *n as u64 % len.max(1),
            Seq::Last => len - 1,
            Seq::Future(n) => len + *n as u64,
            Seq::Huge => u64::MAX,
        }
    }
}
fn seq() -> BoxedStrategy<Seq> {
    prop_oneof![
        3 => Just(Seq::Own),
        2 => (1u16..4).prop_map(Seq::Back),
        4 => any::<u16>().prop_map(Seq::At),
        1 => Just(Seq::Last),
        3 => (0u16..3).prop_map(Seq::Future),
        1 => Just(Seq::Huge),
    ]
    .boxed()
}
fn off() -> BoxedStrategy<u64> {
    prop_oneof![6 => 0u64..5, 1 => 5u64..40, 1 => Just(u64::MAX), 1 => Just(1 << 32)].boxed()
}

/// Which block: counted from the end (where the tree is), or anywhere.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Blk {
    FromEnd(u16),
    Any(u16),
}
impl Blk {
    fn pick(&self, n: usize) -> usize {
        match self {
            Blk::FromEnd(i) => n - 1 - (*i as usize % n),
            Blk::Any(i) => *i as usize % n,
        }
    }
}
fn blk() -> BoxedStrategy<Blk> {
    prop_oneof![3 => Just(Blk::FromEnd(0)), 2 => (0u16..6).prop_map(Blk::FromEnd), 4 => any::<u16>().prop_map(Blk::Any)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Lv {
    KeySeq(u16, Seq),
    AddKey(u16, Seq),
    DelKey(u16),
    SwapKeys(u16, u16),
    ChildSeq(u16, Seq),
    ChildOff(u16, u64),
    Child(u16, Seq, u64),
    AddChild(u16, Seq, u64),
    DelChild(u16),
    DelChildren,
    SwapChildren(u16, u16),
    /// one number more in the list of children
    Odd(u64),
    Clear,
}
fn lv() -> BoxedStrategy<Lv> {
    let i = any::<u16>();
    prop_oneof![
        3 => (i, seq()).prop_map(|(a, b)| Lv::KeySeq(a, b)),
        1 => (i, seq()).prop_map(|(a, b)| Lv::AddKey(a, b)),
        1 => i.prop_map(Lv::DelKey),
        1 => (i, i).prop_map(|(a, b)| Lv::SwapKeys(a, b)),
        2 => (i, seq()).prop_map(|(a, b)| Lv::ChildSeq(a, b)),
        2 => (i, off()).prop_map(|(a, b)| Lv::ChildOff(a, b)),
        3 => (i, seq(), off()).prop_map(|(a, b, c)| Lv::Child(a, b, c)),
        2 => (i, seq(), off()).prop_map(|(a, b, c)| Lv::AddChild(a, b, c)),
        1 => i.prop_map(Lv::DelChild),
        1 => Just(Lv::DelChildren),
        1 => (i, i).prop_map(|(a, b)| Lv::SwapChildren(a, b)),
        1 => any::<u64>().prop_map(Lv::Odd),
        1 => Just(Lv::Clear),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Flip(Blk, u16, u8),
    Set(Blk, u16, u8),
    Trunc(Blk, u16),
    Insert(Blk, u16, #[serde(with = "crate::hex::one")] Vec<u8>),
    Cut(Blk, u16, u16),
    Swap(Blk, Blk),
    /// append a copy of a block
    Repeat(Blk),
    /// put a copy of one block in place of another
    Copy(Blk, Blk),
    Raw(Blk, #[serde(with = "crate::hex::one")] Vec<u8>),
    Remove(Blk),
    EntryKey(Blk, #[serde(with = "crate::hex::one")] Vec<u8>),
    /// store another entry's key
    SameKey(Blk, Blk),
    Level(Blk, u16, Lv),
    NoLevels(Blk),
    DropLevel(Blk, u16),
    AddLevel(Blk, Vec<Seq>, Vec<(Seq, u64)>),
    NoIndex(Blk),
    NoKey(Blk),
}
pub fn mutation() -> BoxedStrategy<Mut> {
    let i = any::<u16>();
    prop_oneof![
        3 => (blk(), i, 0u8..8).prop_map(|(a, b, c)| Mut::Flip(a, b, c)),
        2 => (blk(), i, prop_oneof![Just(0u8), Just(0xff), Just(0x7f), Just(0x80), any::<u8>()]).prop_map(|(a, b, c)| Mut::Set(a, b, c)),
        1 => (blk(), i).prop_map(|(a, b)| Mut::Trunc(a, b)),
        1 => (blk(), i, vec(any::<u8>(), 1..6)).prop_map(|(a, b, c)| Mut::Insert(a, b, c)),
        1 => (blk(), i, 1u16..6).prop_map(|(a, b, c)| Mut::Cut(a, b, c)),
        1 => (blk(), blk()).prop_map(|(a, b)| Mut::Swap(a, b)),
        1 => blk().prop_map(Mut::Repeat),
        1 => (blk(), blk()).prop_map(|(a, b)| Mut::Copy(a, b)),
        1 => (blk(), prop_oneof![2 => Just(vec![]), 2 => vec(any::<u8>(), 0..12), 1 => Just(wire::default_header())]).prop_map(|(a, b)| Mut::Raw(a, b)),
        1 => blk().prop_map(Mut::Remove),
        1 => (blk(), gen::raw_key()).prop_map(|(a, b)| Mut::EntryKey(a, b)),
        1 => (blk(), blk()).prop_map(|(a, b)| Mut::SameKey(a, b)),
        14 => (blk(), prop_oneof![2 => Just(0u16), 1 => i], lv()).prop_map(|(a, b, c)| Mut::Level(a, b, c)),
        1 => blk().prop_map(Mut::NoLevels),
        1 => (blk(), i).prop_map(|(a, b)| Mut::DropLevel(a, b)),
        1 => (blk(), vec(seq(), 0..4), vec((seq(), off()), 0..5)).prop_map(|(a, b, c)| Mut::AddLevel(a, b, c)),
        1 => blk().prop_map(Mut::NoIndex),
        1 => blk().prop_map(Mut::NoKey),
    ]
    .boxed()
}

/// A level whose list of children may have any length.
#[derive(Clone, Default)]
struct RawLevel {
    keys: Vec<u64>,
    ch: Vec<u64>,
}
#[derive(Clone, Default)]
struct RawBlock {
    levels: Vec<RawLevel>,
    key: Option<Vec<u8>>,
    value: Option<Vec<u8>>,
    no_index: bool,
}
impl RawBlock {
    fn of(raw: &[u8]) -> Option<Self> {
        let b = wire::decode_block(raw).ok()?;
        Some(RawBlock {
            levels: b
                .levels
                .into_iter()
                .map(|l| RawLevel { keys: l.keys, ch: l.children.iter().flat_map(|&(a, b)| [a, b]).collect() })
                .collect(),
            key: Some(b.key),
            value: b.value,
            no_index: false,
        })
    }
    fn encode(&self) -> Vec<u8> {
        let list = |f: u64, v: &[u64]| {
            let (mut b, mut out) = (vec![], vec![]);
            v.iter().for_each(|x| wire::varint(&mut b, *x));
            if !b.is_empty() {
                wire::bytes_field(&mut out, f, &b);
            }
            out
        };
        let mut index = vec![];
        for l in &self.levels {
            wire::bytes_field(&mut index, 1, &[list(1, &l.keys), list(2, &l.ch)].concat());
        }
        let mut out = vec![];
        if !self.no_index {
            wire::bytes_field(&mut out, 1, &index);
        }
        if let Some(k) = &self.key {
            wire::bytes_field(&mut out, 2, k);
        }
        if let Some(v) = &self.value {
            wire::bytes_field(&mut out, 3, v);
        }
        out
    }
}
fn edit(blocks: &mut [Vec<u8>], i: usize, f: impl FnOnce(&mut RawBlock)) {
    if let Some(mut b) = RawBlock::of(&blocks[i]) {
        f(&mut b);
        blocks[i] = b.encode();
    }
}
fn apply(blocks: &mut Vec<Vec<u8>>, m: &Mut) {
    let n = blocks.len();
    if n == 0 {
        return;
    }
    let at = |b: &Vec<u8>, p: u16| (!b.is_empty()).then(|| p as usize % b.len());
    match m {
        Mut::Flip(b, p, bit) => {
            let b = &mut blocks[b.pick(n)];
            if let Some(p) = at(b, *p) {
                b[p] ^= 1 << bit
            }
        }
        Mut::Set(b, p, v) => {
            let b = &mut blocks[b.pick(n)];
            if let Some(p) = at(b, *p) {
                b[p] = *v
            }
        }
        Mut::Trunc(b, p) => {
            let b = &mut blocks[b.pick(n)];
            if let Some(p) = at(b, *p) {
                b.truncate(p)
            }
        }
        Mut::Insert(b, p, x) => {
            let b = &mut blocks[b.pick(n)];
            let p = at(b, *p).unwrap_or(0);
            b.splice(p..p, x.iter().copied());
        }
        Mut::Cut(b, p, k) => {
            let b = &mut blocks[b.pick(n)];
            if let Some(p) = at(b, *p) {
                let e = (p + *k as usize).min(b.len());
                b.drain(p..e);
            }
        }
        Mut::Swap(a, b) => blocks.swap(a.pick(n), b.pick(n)),
        Mut::Repeat(a) => {
            let x = blocks[a.pick(n)].clone();
            blocks.push(x)
        }
        Mut::Copy(a, b) => blocks[b.pick(n)] = blocks[a.pick(n)].clone(),
        Mut::Raw(a, x) => blocks[a.pick(n)] = x.clone(),
        Mut::Remove(a) => {
            blocks.remove(a.pick(n));
        }
        Mut::EntryKey(a, k) => edit(blocks, a.pick(n), |b| b.key = Some(k.clone())),
        Mut::SameKey(a, z) => {
            if let Some(k) = RawBlock::of(&blocks[z.pick(n)]).and_then(|b| b.key) {
                edit(blocks, a.pick(n), |b| b.key = Some(k))
            }
        }
        Mut::NoLevels(a) => edit(blocks, a.pick(n), |b| b.levels.clear()),
        Mut::NoIndex(a) => edit(blocks, a.pick(n), |b| b.no_index = true),
        Mut::NoKey(a) => edit(blocks, a.pick(n), |b| b.key = None),
        Mut::DropLevel(a, l) => edit(blocks, a.pick(n), |b| {
            if !b.levels.is_empty() {
                let l = *l as usize % b.levels.len();
                b.levels.remove(l);
            }
        }),
        Mut::AddLevel(a, ..) | Mut::Level(a, ..) => {
            let own = a.pick(n);
            edit(blocks, own, |b| relevel(b, own as u64, n as u64, m))
        }
    }
}
/// Damage within the block at `own`.
pub fn damage(b: &mut Vec<u8>, own: u64, len: u64, m: &Mut) {
    let mut one = vec![std::mem::take(b)];
    match m {
        Mut::AddLevel(..) | Mut::Level(..) => edit(&mut one, 0, |b| relevel(b, own, len, m)),
        Mut::Swap(..) | Mut::Repeat(..) | Mut::Copy(..) | Mut::Remove(..) | Mut::SameKey(..) => (),
        _ => apply(&mut one, m),
    }
    *b = one.remove(0);
}
fn relevel(b: &mut RawBlock, own: u64, n: u64, m: &Mut) {
    let s = |s: &Seq| s.pick(own, n);
    match m {
        Mut::AddLevel(_, k, c) => b.levels.push(RawLevel {
            keys: k.iter().map(s).collect(),
            ch: c.iter().flat_map(|(x, o)| [s(x), *o]).collect(),
        }),
        Mut::Level(_, l, e) if !b.levels.is_empty() => {
            let l = *l as usize % b.levels.len();
            let l = &mut b.levels[l];
            let (nk, nc) = (l.keys.len(), l.ch.len() / 2);
            match e {
                Lv::KeySeq(i, x) if nk > 0 => l.keys[*i as usize % nk] = s(x),
                Lv::AddKey(i, x) => l.keys.insert(*i as usize % (nk + 1), s(x)),
                Lv::DelKey(i) if nk > 0 => {
                    l.keys.remove(*i as usize % nk);
                }
                Lv::SwapKeys(i, j) if nk > 0 => l.keys.swap(*i as usize % nk, *j as usize % nk),
                Lv::ChildSeq(i, x) if nc > 0 => l.ch[*i as usize % nc * 2] = s(x),
                Lv::ChildOff(i, o) if nc > 0 => l.ch[*i as usize % nc * 2 + 1] = *o,
                Lv::Child(i, x, o) if nc > 0 => {
                    let i = *i as usize % nc * 2;
                    l.ch[i] = s(x);
                    l.ch[i + 1] = *o
                }
                Lv::AddChild(i, x, o) => {
                    let i = *i as usize % (nc + 1) * 2;
                    l.ch.splice(i..i, [s(x), *o]);
                }
                Lv::DelChild(i) if nc > 0 => {
                    let i = *i as usize % nc * 2;
                    l.ch.drain(i..i + 2);
                }
                Lv::DelChildren => l.ch.clear(),
                Lv::SwapChildren(i, j) if nc > 0 => {
                    let (i, j) = (*i as usize % nc * 2, *j as usize % nc * 2);
                    l.ch.swap(i, j);
                    l.ch.swap(i + 1, j + 1);
                }
                Lv::Odd(x) => l.ch.push(*x),
                Lv::Clear => *l = RawLevel::default(),
                _ => (),
            }
        }
        _ => (),
    }
}

/// One use of the tree.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Use {
    Get(KSel),
    Scan(RSel),
    All(bool),
    SubScan(#[serde(with = "crate::hex::one")] Vec<u8>),
    Height,
    Print,
    Put(KSel),
    Del(KSel),
    PutIf(KSel, bool),
    DelIf(KSel, bool),
    Header,
    Reopen,
}
fn uses() -> BoxedStrategy<Vec<Use>> {
    vec(
        prop_oneof![
            5 => gen::ksel().prop_map(Use::Get),
            3 => gen::rsel().prop_map(Use::Scan),
            2 => any::<bool>().prop_map(Use::All),
            1 => gen::raw_key().prop_map(Use::SubScan),
            1 => Just(Use::Height),
            1 => Just(Use::Print),
            4 => gen::ksel().prop_map(Use::Put),
            6 => gen::ksel().prop_map(Use::Del),
            1 => (gen::ksel(), any::<bool>()).prop_map(|(k, b)| Use::PutIf(k, b)),
            1 => (gen::ksel(), any::<bool>()).prop_map(|(k, b)| Use::DelIf(k, b)),
            1 => Just(Use::Header),
            2 => Just(Use::Reopen),
        ],
        1..14,
    )
    .boxed()
}

/// Run one operation inside the budgets.
pub fn bounded<T>(what: &str, fut: impl std::future::Future<Output = T>) -> R<T> {
    sim::reset_stack_low();
    let base = sim::stack_here();
    let r = exec::run_budget(fut, POLLS).map_err(|h| format!("{what}: does not finish ({})", h.0))?;
    let low = sim::stack_low();
    if low != usize::MAX && base.saturating_sub(low) > STACK {
        return Err(format!("{what}: used over {} bytes of stack, growing with what the log contains", base - low));
    }
    Ok(r)
}

/// The key a block stores, leniently (the last one given, or none given at all).
fn entry_key(raw: &[u8]) -> Option<Vec<u8>> {
    let mut k = vec![];
    for (f, v) in wire::fields(raw).ok()? {
        if let (2, wire::Val::Bytes(b)) = (f, v) {
            k = b.to_vec()
        }
    }
    Some(k)
}
pub fn check_entry(what: &str, log: &SimLog, key: &[u8], seq: u64) -> R<()> {
    let raw = log.block(seq).ok_or(format!("{what}: reports an entry at {seq}, which does not exist"))?;
    match entry_key(&raw) {
        Some(k) if k != key => Err(format!("{what}: reports entry {seq}, whose key is {}, for key {}", show(&k), show(key))),
        _ => Ok(()),
    }
}

#[derive(Default)]
pub struct Seen {
    pub errors: u64,
    pub fine: u64,
}
impl Seen {
    pub fn note<T>(&mut self, r: &Result<T, HyperbeeError>) {
        match r {
            Ok(_) => self.fine += 1,
            Err(_) => self.errors += 1,
        }
    }
}

pub async fn drain(
    s: impl futures_util::Stream<Item = Result<hyperbee::KeyValueData, HyperbeeError>>,
    limit: usize,
) -> (Vec<Item>, Option<HyperbeeError>, bool) {
    let mut s = Box::pin(s);
    let mut out = vec![];
    while let Some(x) = s.next().await {
        match x {
            Ok(kv) => out.push(item(kv)),
            Err(e) => return (out, Some(e), false),
        }
        if out.len() > limit {
            return (out, None, true);
        }
    }
    (out, None, false)
}
fn scanned(what: &str, log: &SimLog, r: (Vec<Item>, Option<HyperbeeError>, bool), prefix: &[u8], range: Option<&Range>, seen: &mut Seen) -> R<()> {
    let (items, err, endless) = r;
    if endless {
        return Err(format!("{what}: yields more entries ({}) than the log has blocks", items.len()));
    }
    for (k, seq, _) in &items {
        let full = [prefix, k].concat();
        check_entry(what, log, &full, *seq)?;
        if range.is_some_and(|r| !r.has(k)) {
            return Err(format!("{what}: yields {}, which is outside the range", show(k)));
        }
    }
    match err {
        Some(_) => seen.errors += 1,
        None => seen.fine += 1,
    }
    Ok(())
}

pub fn exercise(log: &SimLog, keys: &gen::Keys, map: &Map, uses: &[Use], cx: &mut Ctx) -> R<Seen> {
    let mut hb: Hyperbee = bee::open(log)?;
    let mut seen = Seen::default();
    let mut stamp = 0u64;
    for u in uses {
        let blocks = log.len() as usize;
        let v = bounded("version", hb.version())?;
        if v != blocks as u64 {
            return Err(format!("version() is {v} for a log of {blocks} blocks"));
        }
        match u {
            Use::Get(k) => {
                let k = k.pick(keys, map);
                let r = bounded("get", hb.get(&k))?;
                seen.note(&r);
                if let Ok(Some((seq, _))) = r {
                    check_entry("get", log, &k, seq)?;
                }
            }
            Use::Scan(rs) => {
                let r = rs.pick(keys, map);
                let what = format!("traverse {}", show_range(&r));
                let got = bounded(&what, async { Ok::<_, HyperbeeError>(drain(hb.traverse(r.conf()).await?, blocks).await) })?;
                match got {
                    Err(_) => seen.errors += 1,
                    Ok(got) => scanned(&what, log, got, &[], Some(&r), &mut seen)?,
                }
            }
            Use::All(rev) => {
                let r = Range::all(*rev);
                let got = bounded("traverse", async { Ok::<_, HyperbeeError>(drain(hb.traverse(r.conf()).await?, blocks).await) })?;
                match got {
                    Err(_) => seen.errors += 1,
                    Ok(got) => scanned("traverse", log, got, &[], None, &mut seen)?,
                }
            }
            Use::SubScan(p) => {
                let sub = hb.sub(p, hyperbee::prefixed::PrefixedConfig { seperator: vec![] });
                let conf = Range::all(false).conf();
                let got = bounded("sub-tree traverse", async { Ok::<_, HyperbeeError>(drain(sub.traverse(&conf).await?, blocks).await) })?;
                match got {
                    Err(_) => seen.errors += 1,
                    Ok(got) => scanned("sub-tree traverse", log, got, p, None, &mut seen)?,
                }
            }
            Use::Height => {
                let r = bounded("height", hb.height())?;
                seen.note(&r);
                if let Ok(h) = r {
                    if h > 2000 {
                        return Err(format!("height() walks {h} levels"));
                    }
                }
            }
            Use::Print => seen.note(&bounded("print", hb.print())?),
            Use::Put(k) => {
                stamp += 1;
                let k = k.pick(keys, map);
                let v = format!("w{stamp}");
                let r = bounded("put", hb.put(&k, Some(v.as_bytes())))?;
                seen.note(&r);
                cx.class("write accepted", r.is_ok());
                if let Ok((_, seq)) = r {
                    if seq + 1 != log.len() {
                        return Err(format!("put reports log index {seq}, the log has {} blocks", log.len()));
                    }
                    check_entry("put", log, &k, seq)?;
                }
            }
            Use::Del(k) => {
                let k = k.pick(keys, map);
                let r = bounded("del", hb.del(&k))?;
                seen.note(&r);
                cx.class("write accepted", matches!(r, Ok(Some(_))));
                if let Ok(Some(seq)) = r {
                    check_entry("del", log, &k, seq)?;
                }
            }
            Use::PutIf(k, yes) => {
                let k = k.pick(keys, map);
                let mut bad = None;
                let r = bounded("put_compare_and_swap", hb.put_compare_and_swap(&k, None, |old, _| {
                    bad = old.filter(|o| o.key != k).map(|o| o.key.clone());
                    *yes
                }))?;
                seen.note(&r);
                if let Some(b) = bad {
                    return Err(format!("put_compare_and_swap({}) shows an entry with key {}", show(&k), show(&b)));
                }
            }
            Use::DelIf(k, yes) => {
                let k = k.pick(keys, map);
                let mut bad = None;
                let r = bounded("del_compare_and_swap", hb.del_compare_and_swap(&k, |old| {
                    bad = (old.key != k).then(|| old.key.clone());
                    *yes
                }))?;
                seen.note(&r);
                if let Some(b) = bad {
                    return Err(format!("del_compare_and_swap({}) shows an entry with key {}", show(&k), show(&b)));
                }
            }
            Use::Header => {
                let r = bounded("create_header", hb.create_header(None))?;
                if blocks > 0 && r.is_ok() {
                    return Err("create_header succeeded on a log that has blocks".into());
                }
            }
            Use::Reopen => hb = bee::open(log)?,
        }
    }
    Ok(seen)
}

// ---- valid logs, mutated ---------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mutated {
    hist: Hist,
    muts: Vec<Mut>,
    uses: Vec<Use>,
}
pub fn strat_mutated(t: Tier) -> BoxedStrategy<Mutated> {
    let h = match t {
        Tier::Quick => prop_oneof![2 => gen::hist(20, 8), 3 => gen::hist(90, 8), 1 => gen::grow_drain(30, 120)],
        Tier::Thorough => prop_oneof![2 => gen::hist(20, 12), 3 => gen::hist(90, 12), 2 => gen::grow_drain(30, 240)],
    };
    (h, prop_oneof![3 => vec(mutation(), 1..3), 1 => vec(mutation(), 3..10)], uses())
        .prop_map(|(hist, muts, uses)| Mutated { hist, muts, uses })
        .boxed()
}
impl Mutated {
    pub fn uses(&self) -> &[Use] {
        &self.uses
    }
}
/// The log of such a case, its keys and what was in it.
pub fn damaged_log(c: &Mutated) -> (SimLog, &gen::Keys, crate::model::JsBee) {
    let m = grow_model(&c.hist);
    let mut blocks = m.raw.clone();
    for x in &c.muts {
        apply(&mut blocks, x);
    }
    (SimLog::from_blocks(&blocks), &c.hist.keys, m)
}
fn mutated(c: &Mutated, cx: &mut Ctx) -> R<()> {
    let m = grow_model(&c.hist);
    let mut blocks = m.raw.clone();
    for x in &c.muts {
        apply(&mut blocks, x);
        cx.hit(format!("{x:?}").split('(').next().unwrap_or(""));
    }
    let changed = blocks != m.raw;
    let log = SimLog::from_blocks(&blocks);
    let seen = exercise(&log, &c.hist.keys, &m.map, &c.uses, cx)?;
    finish(seen, changed, cx);
    Ok(())
}
pub fn finish(seen: Seen, changed: bool, cx: &mut Ctx) {
    cx.add("operations that failed", seen.errors);
    cx.add("operations that answered", seen.fine);
    cx.nontrivial = changed && seen.errors > 0;
    cx.note = Some(format!("{} failed, {} answered", seen.errors, seen.fine));
}

// ---- random structures -----------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RLevel {
    keys: Vec<Seq>,
    children: Vec<(Seq, u64)>,
    /// give it one child more than keys, or none, whatever `children` says
    shape: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RBlock {
    #[serde(with = "crate::hex::one")]
    key: Vec<u8>,
    /// use a key that grows with the index instead
    ordered: bool,
    levels: Vec<RLevel>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Random {
    blocks: Vec<RBlock>,
    uses: Vec<Use>,
}
fn strat_random(_: Tier) -> BoxedStrategy<Random> {
    let level = (vec(seq(), 0..6), vec((seq(), off()), 0..7), 0u8..10).prop_map(|(keys, children, shape)| RLevel { keys, children, shape });
    let block = (vec(prop_oneof![Just(0u8), Just(b'a'), Just(0xffu8)], 0..3), prop::bool::weighted(0.7), vec(level, 0..5))
        .prop_map(|(key, ordered, levels)| RBlock { key, ordered, levels });
    (vec(block, 1..14), uses()).prop_map(|(blocks, uses)| Random { blocks, uses }).boxed()
}
fn random(c: &Random, cx: &mut Ctx) -> R<()> {
    let n = c.blocks.len() as u64 + 1;
    let mut raw = vec![wire::default_header()];
    let mut map = Map::new();
    for (i, b) in c.blocks.iter().enumerate() {
        let own = i as u64 + 1;
        let key = if b.ordered { vec![b'k', i as u8] } else { b.key.clone() };
        map.insert(key.clone(), (own, None));
        let mut levels = vec![];
        for l in &b.levels {
            let mut keys: Vec<u64> = l.keys.iter().map(|s| s.pick(own, n)).collect();
            let mut ch: Vec<u64> = l.children.iter().flat_map(|(s, o)| [s.pick(own, n), *o]).collect();
            match l.shape {
                0 => (),
                1..=3 => ch.clear(),
                _ => {
                    // a node as it should be, with ascending keys
                    keys.sort();
                    keys.dedup();
                    for c in ch.chunks_mut(2) {
                        if l.shape > 5 {
                            c[0] = c[0].min(own);
                            c[1] %= 3;
                        }
                    }
                    if !ch.is_empty() {
                        while ch.len() / 2 < keys.len() + 1 {
                            let again = [ch[0], ch[1]];
                            ch.extend(again);
                        }
                        ch.truncate((keys.len() + 1) * 2);
                    }
                }
            }
            levels.push(RawLevel { keys, ch });
        }
        raw.push(RawBlock { levels, key: Some(key), value: None, no_index: false }.encode());
    }
    let log = SimLog::from_blocks(&raw);
    let keys = gen::Keys { kind: 2, n: 30, extra: vec![] };
    let seen = exercise(&log, &keys, &map, &c.uses, cx)?;
    finish(seen, true, cx);
    Ok(())
}

// ---- depth and width -------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Deep {
    /// levels of the tree
    depth: u16,
    /// all levels in one block, or one per block
    one_block: bool,
    /// 0: to the left, 1: to the right, 2: both children the same node
    side: u8,
    /// key every inner node has: 0 small, 1 large, 2 growing inwards
    key: u8,
    /// keys of the deepest node
    leaf: u8,
    /// the deepest node refers back to the root
    cycle: bool,
    uses: Vec<Use>,
}
fn strat_deep(t: Tier) -> BoxedStrategy<Deep> {
    let top = if t == Tier::Quick { 3000u16 } else { 12000 };
    (
        prop_oneof![1 => 1u16..30, 2 => 30u16..200, 3 => 200u16..top],
        any::<bool>(),
        0u8..3,
        0u8..3,
        0u8..4,
        prop::bool::weighted(0.3),
        uses(),
    )
        .prop_map(|(depth, one_block, side, key, leaf, cycle, uses)| Deep { depth, one_block, side, key, leaf, cycle, uses })
        .boxed()
}
fn deep(c: &Deep, cx: &mut Ctx) -> R<()> {
    // entries 1..=8 are keys, the tree comes after them
    let names: [&[u8]; 8] = [b"", b"a", b"b", b"m", b"n", b"y", b"z", b"\xff\xff"];
    let mut raw = vec![wire::default_header()];
    let mut map = Map::new();
    for (i, k) in names.iter().enumerate() {
        raw.push(RawBlock { levels: vec![], key: Some(k.to_vec()), value: Some(vec![i as u8]), no_index: false }.encode());
        map.insert(k.to_vec(), (i as u64 + 1, Some(vec![i as u8])));
    }
    let first = raw.len() as u64;
    let d = c.depth as u64;
    let key = |lvl: u64| match c.key {
        0 => 2u64,
        1 => 7,
        _ => 2 + (lvl * 4 / d.max(1)).min(4),
    };
    // where the node at distance `lvl` from the root is
    let at = |lvl: u64| if c.one_block { [first, lvl] } else { [first + d - lvl, 0] };
    let side_leaf = if c.one_block { [first, d + 1] } else { [first + d + 1, 0] };
    let node = |lvl: u64| {
        if lvl == d {
            let keys: Vec<u64> = (4..4 + c.leaf as u64).collect();
            let ch = if c.cycle { (0..=c.leaf).flat_map(|_| at(0)).collect() } else { vec![] };
            return RawLevel { keys, ch };
        }
        let down = at(lvl + 1);
        // the other child: the same node again
        let other = if c.side == 2 { down } else { at(d) };
        let ch = if c.side == 1 { [other, down].concat() } else { [down, other].concat() };
        RawLevel { keys: vec![key(lvl)], ch }
    };
    let _ = side_leaf;
    if c.one_block {
        let levels = (0..=d).map(node).collect();
        raw.push(RawBlock { levels, key: Some(b"m".to_vec()), value: None, no_index: false }.encode());
    } else {
        for lvl in (0..=d).rev() {
            raw.push(RawBlock { levels: vec![node(lvl)], key: Some(b"m".to_vec()), value: None, no_index: false }.encode());
        }
    }
    let log = SimLog::from_blocks(&raw);
    let keys = gen::Keys { kind: 2, n: 30, extra: vec![] };
    let seen = exercise(&log, &keys, &map, &c.uses, cx)?;
    cx.class("over 64 levels", d >= 64);
    cx.class("cycle", c.cycle);
    finish(seen, true, cx);
    Ok(())
}

pub fn c13_prop() -> Property {
    Property {
        id: "C13",
        level: "exploration",
        rule: "logs of generated histories with 1 to 9 mutations (bits, bytes, cuts, blocks swapped, repeated, replaced or removed, references to the own, an earlier, a later or no block, extra or missing keys, children and levels), random structures, chains and cycles of up to thousands of levels, and complete trees of up to 26 levels (blocks computed when read) with damage on a path that is used, are opened, read in every way, written to and reopened; every operation must finish within fixed poll and stack budgets without panic and name only entries whose stored key is the one reported. Non-trivial: the log differs from a valid one and at least one operation failed.",
        assumptions: &["a consumer of a traversal stops at its first error", "the budget of an operation is 30 000 polls and 1.5 MB of stack; valid operations on such logs need about 1 % of that"],
        parts: vec![
            part("mutated", 120_000, 2_000_000, strat_mutated, mutated),
            part("random", 100_000, 1_500_000, strat_random, random),
            part("deep", 4_000, 60_000, strat_deep, deep),
            part("tall", 8_000, 100_000, super::tall::strat_damaged, super::tall::c13),
        ],
    }
}
