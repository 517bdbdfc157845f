//! C07, C08, C09, C19: conditional writes, sub-trees, failed and cancelled operations.
use crate::{
    bee::{self, *},
    exec::{self, R},
    gen::{self, Hist, KSel, Prim, RSel, V},
    model::{JsBee, Map},
    props::reads::grow_model,
    runner::{part, Ctx, Property, Tier},
    wire,
};
use futures_util::StreamExt;
use hyperbee::{
    prefixed::{Prefixed, PrefixedConfig},
    Hyperbee, HyperbeeError, KeyValueData, Metadata,
};
use hypercore::sim::{Fault, SimLog};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, future::Future, pin::Pin};

/// Compare the log with the model's: same length, same data blocks.
pub fn same_log(log: &SimLog, m: &JsBee) -> R<()> {
    if log.len() != m.len() {
        return Err(format!("the log has {} blocks, expected {}", log.len(), m.len()));
    }
    for i in 1..log.len() {
        let b = log.block(i).unwrap_or_default();
        if b != m.raw[i as usize] {
            return Err(format!("block {i} is {:?}, expected {:?}", wire::decode_block(&b), wire::decode_block(&m.raw[i as usize])));
        }
    }
    Ok(())
}

pub enum SubOf<'a> {
    Own(Prefixed),
    Of(&'a Prefixed),
}
impl std::ops::Deref for SubOf<'_> {
    type Target = Prefixed;
    fn deref(&self) -> &Prefixed {
        match self {
            SubOf::Own(s) => s,
            SubOf::Of(s) => s,
        }
    }
}
/// The main tree or a sub-tree of it, as seen by an operation.
pub enum Via<'a> {
    Main(&'a Hyperbee),
    Sub(SubOf<'a>, Vec<u8>),
}
pub type PutCas<'c> = Box<dyn FnOnce(Option<&KeyValueData>, &KeyValueData) -> bool + 'c>;
pub type DelCas<'c> = Box<dyn FnOnce(&KeyValueData) -> bool + 'c>;
type Fut<'c, T> = Pin<Box<dyn Future<Output = Result<T, HyperbeeError>> + 'c>>;
impl Via<'_> {
    pub fn full(&self, k: &[u8]) -> Vec<u8> {
        match self {
            Via::Main(_) => k.to_vec(),
            Via::Sub(_, p) => [p, k].concat(),
        }
    }
    pub fn get<'c>(&'c self, k: &'c [u8]) -> Fut<'c, Option<(u64, Option<Vec<u8>>)>> {
        match self {
            Via::Main(h) => Box::pin(h.get(k)),
            Via::Sub(s, _) => Box::pin(s.get(k)),
        }
    }
    pub fn put<'c>(&'c self, k: &'c [u8], v: Option<&'c [u8]>) -> Fut<'c, (Option<u64>, u64)> {
        match self {
            Via::Main(h) => Box::pin(h.put(k, v)),
            Via::Sub(s, _) => Box::pin(s.put(k, v)),
        }
    }
    pub fn del<'c>(&'c self, k: &'c [u8]) -> Fut<'c, Option<u64>> {
        match self {
            Via::Main(h) => Box::pin(h.del(k)),
            Via::Sub(s, _) => Box::pin(s.del(k)),
        }
    }
    pub fn put_cas<'c>(&'c self, k: &'c [u8], v: Option<&'c [u8]>, f: PutCas<'c>) -> Fut<'c, (Option<u64>, Option<u64>)> {
        match self {
            Via::Main(h) => Box::pin(h.put_compare_and_swap(k, v, f)),
            Via::Sub(s, _) => Box::pin(s.put_compare_and_swap(k, v, f)),
        }
    }
    pub fn del_cas<'c>(&'c self, k: &'c [u8], f: DelCas<'c>) -> Fut<'c, Option<(bool, u64)>> {
        match self {
            Via::Main(h) => Box::pin(h.del_compare_and_swap(k, f)),
            Via::Sub(s, _) => Box::pin(s.del_compare_and_swap(k, f)),
        }
    }
    pub fn scan(&self, r: &Range, limit: usize) -> R<Vec<Item>> {
        match self {
            Via::Main(h) => collect("traverse", h.traverse(r.conf()), limit),
            Via::Sub(s, _) => {
                let conf = r.conf();
                collect("sub traverse", s.traverse(&conf), limit)
            }
        }
    }
}

/// How a condition decides.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Decide {
    Yes,
    No,
    IfAbsent,
    IfPresent,
    /// accept when the stored entry is older than half the log
    IfOld,
}
impl Decide {
    pub fn eval(self, cur: Option<u64>, next: u64) -> bool {
        match self {
            Decide::Yes => true,
            Decide::No => false,
            Decide::IfAbsent => cur.is_none(),
            Decide::IfPresent => cur.is_some(),
            Decide::IfOld => cur.is_some_and(|c| c * 2 < next),
        }
    }
}
pub fn decide() -> BoxedStrategy<Decide> {
    prop_oneof![3 => Just(Decide::Yes), 3 => Just(Decide::No), 1 => Just(Decide::IfAbsent), 1 => Just(Decide::IfPresent), 2 => Just(Decide::IfOld)].boxed()
}
fn kv(k: &KeyValueData) -> Item {
    (k.key.clone(), k.seq, k.value.clone())
}

/// Run a conditional put against the tree and the model; every claim of C07 is checked.
pub fn step_put_cas(via: &Via, log: &SimLog, m: &mut JsBee, k: &[u8], v: Option<&[u8]>, d: Decide, cx: &mut Ctx) -> R<()> {
    let full = via.full(k);
    let cur = m.map.get(&full).cloned();
    let seq = m.len().max(1);
    let seen: RefCell<Vec<(Option<Item>, Item)>> = RefCell::new(vec![]);
    let f: PutCas = Box::new(|old, new| {
        seen.borrow_mut().push((old.map(kv), kv(new)));
        d.eval(old.map(|o| o.seq), new.seq)
    });
    let before = log.len();
    let got = ok("put_compare_and_swap", via.put_cas(k, v, f))?;
    let seen = seen.into_inner();
    let want_seen = vec![(
        cur.as_ref().map(|(s, v)| (full.clone(), *s, v.clone())),
        (full.clone(), seq, v.map(<[u8]>::to_vec)),
    )];
    if seen != want_seen {
        return Err(format!("put_compare_and_swap({}): the condition was called with {seen:?}, expected exactly {want_seen:?}", show(k)));
    }
    let accept = d.eval(cur.as_ref().map(|c| c.0), seq);
    cx.hit(match (accept, cur.is_some()) {
        (true, true) => "put accepted, present",
        (true, false) => "put accepted, absent",
        (false, true) => "put refused, present",
        (false, false) => "put refused, absent",
    });
    let want = (cur.as_ref().map(|c| c.0), accept.then_some(seq));
    if got != want {
        return Err(format!("put_compare_and_swap({}) returned {got:?}, expected {want:?}", show(k)));
    }
    if accept {
        m.put(&full, v);
    } else if m.raw.is_empty() && log.len() == 1 {
        m.ensure_header();
    }
    same_tail(log, m, before)
}
pub fn step_del_cas(via: &Via, log: &SimLog, m: &mut JsBee, k: &[u8], d: Decide, cx: &mut Ctx) -> R<()> {
    let full = via.full(k);
    let cur = m.map.get(&full).cloned();
    let next = m.len();
    let seen: RefCell<Vec<Item>> = RefCell::new(vec![]);
    let f: DelCas = Box::new(|old| {
        seen.borrow_mut().push(kv(old));
        d.eval(Some(old.seq), next)
    });
    let before = log.len();
    let got = ok("del_compare_and_swap", via.del_cas(k, f))?;
    let seen = seen.into_inner();
    let want_seen: Vec<Item> = cur.iter().map(|(s, v)| (full.clone(), *s, v.clone())).collect();
    if seen != want_seen {
        return Err(format!("del_compare_and_swap({}): the condition was called with {seen:?}, expected exactly {want_seen:?}", show(k)));
    }
    let want = cur.as_ref().map(|c| (d.eval(Some(c.0), next), c.0));
    cx.hit(match want {
        None => "delete of an absent key",
        Some((true, _)) => "delete accepted",
        Some((false, _)) => "delete refused",
    });
    if got != want {
        return Err(format!("del_compare_and_swap({}) returned {got:?}, expected {want:?}", show(k)));
    }
    if want.is_some_and(|w| w.0) {
        m.del(&full);
    }
    same_tail(log, m, before)
}
struct Thrown;
/// Run a conditional put (of `v`) or delete whose condition panics.
fn step_throwing(via: &Via, log: &SimLog, m: &mut JsBee, k: &[u8], v: Option<Option<&[u8]>>, cx: &mut Ctx) -> R<()> {
    let before = log.len();
    let throw = || -> bool { std::panic::resume_unwind(Box::new(Thrown)) };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match v {
        Some(v) => ok("put_compare_and_swap", via.put_cas(k, v, Box::new(|_, _| throw()))).map(|_| ()),
        None => ok("del_compare_and_swap", via.del_cas(k, Box::new(|_| throw()))).map(|_| ()),
    }));
    let called = match res {
        Err(p) if p.is::<Thrown>() => true,
        Err(p) => std::panic::resume_unwind(p),
        Ok(done) => {
            done?;
            false
        }
    };
    let want = v.is_some() || m.map.contains_key(&via.full(k));
    if called != want {
        return Err(format!("a conditional write of {} called its condition: {called}, expected {want}", show(k)));
    }
    cx.class("condition panicked", called);
    sync_header(log, m);
    same_tail(log, m, before)
}
/// A conditional put that was refused may still have given a new log its header.
pub fn sync_header(log: &SimLog, m: &mut JsBee) {
    if m.raw.is_empty() && log.len() == 1 && wire::decode_header(&log.block(0).unwrap_or_default()).is_ok() {
        m.ensure_header();
    }
}
/// The blocks added since `before` are the model's.
pub fn same_tail(log: &SimLog, m: &JsBee, before: u64) -> R<()> {
    if log.len() != m.len() {
        return Err(format!("the log has {} blocks, expected {}", log.len(), m.len()));
    }
    for i in before.max(1 + m.giant.map_or(0, |g| g.n()))..log.len() {
        let b = log.block(i).unwrap_or_default();
        if b != *m.raw_at(i) {
            return Err(format!("block {i} is {:?}, expected {:?}", wire::decode_block(&b), wire::decode_block(m.raw_at(i))));
        }
    }
    Ok(())
}

// ---- C07 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    PutCas(KSel, V, Decide),
    DelCas(KSel, Decide),
    Put(KSel, V),
    Del(KSel),
    /// conditional writes whose condition panics
    PutThrow(KSel, V),
    DelThrow(KSel),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cas {
    hist: Hist,
    ops: Vec<COp>,
    /// through a sub-tree; from a cold handle
    sub: Vec<bool>,
    cold: Vec<bool>,
}
fn strat_c07(t: Tier) -> BoxedStrategy<Cas> {
    let h = match t {
        Tier::Quick => prop_oneof![1 => gen::hist(12, 4), 3 => gen::hist(200, 12)].boxed(),
        Tier::Thorough => prop_oneof![1 => gen::hist(12, 4), 3 => gen::hist(300, 24), 1 => gen::grow_drain(30, 260)].boxed(),
    };
    let op = prop_oneof![
        5 => (gen::ksel(), gen::val(), decide()).prop_map(|(k, v, d)| COp::PutCas(k, v, d)),
        5 => (gen::ksel(), decide()).prop_map(|(k, d)| COp::DelCas(k, d)),
        1 => (gen::ksel(), gen::val()).prop_map(|(k, v)| COp::Put(k, v)),
        1 => gen::ksel().prop_map(COp::Del),
        1 => prop_oneof![(gen::ksel(), gen::val()).prop_map(|(k, v)| COp::PutThrow(k, v)), gen::ksel().prop_map(COp::DelThrow)],
    ];
    let empty = gen::keys(40).prop_map(|keys| Hist { keys, ops: vec![] });
    (prop_oneof![1 => empty, 6 => h], vec(op, 1..40), vec(prop::bool::weighted(0.3), 1..6), vec(prop::bool::weighted(0.2), 1..6))
        .prop_map(|(hist, ops, sub, cold)| Cas { hist, ops, sub, cold })
        .boxed()
}
fn c07(c: &Cas, cx: &mut Ctx) -> R<()> {
    let mut m = grow_model(&c.hist);
    let (mut hb, log) = bee::over(&m.raw)?;
    // the sub-tree sees part of the main tree's keys when they start with its prefix
    let pre = b"1".to_vec();
    let conf = PrefixedConfig { seperator: vec![] };
    let (mut refused, mut accepted) = (0, 0);
    let mut stamp = 1_000_000;
    for (i, op) in c.ops.iter().enumerate() {
        if c.cold[i % c.cold.len()] {
            hb = bee::open(&log)?;
        }
        let via = if c.sub[i % c.sub.len()] { Via::Sub(SubOf::Own(hb.sub(&pre, conf.clone())), pre.clone()) } else { Via::Main(&hb) };
        let view = sub_view(&m.map, &via);
        stamp += 1;
        let before = log.len();
        match op {
            COp::PutCas(k, v, d) => {
                let k = k.pick(&c.hist.keys, &view);
                step_put_cas(&via, &log, &mut m, &k, v.bytes(stamp).as_deref(), *d, cx)?;
            }
            COp::DelCas(k, d) => {
                let k = k.pick(&c.hist.keys, &view);
                step_del_cas(&via, &log, &mut m, &k, *d, cx)?;
            }
            COp::Put(k, v) => {
                let k = k.pick(&c.hist.keys, &view);
                let v = v.bytes(stamp);
                ok("put", via.put(&k, v.as_deref()))?;
                m.put(&via.full(&k), v.as_deref());
                same_tail(&log, &m, before)?;
            }
            COp::Del(k) => {
                let k = k.pick(&c.hist.keys, &view);
                ok("del", via.del(&k))?;
                m.del(&via.full(&k));
                same_tail(&log, &m, before)?;
            }
            COp::PutThrow(k, v) => {
                let k = k.pick(&c.hist.keys, &view);
                step_throwing(&via, &log, &mut m, &k, Some(v.bytes(stamp).as_deref()), cx)?;
            }
            COp::DelThrow(k) => step_throwing(&via, &log, &mut m, &k.pick(&c.hist.keys, &view), None, cx)?,
        }
        match log.len() > before {
            true => accepted += 1,
            false => refused += 1,
        }
        // the map is as the model has it, also right around the key
        if let COp::PutCas(k, ..) | COp::DelCas(k, _) | COp::PutThrow(k, _) | COp::DelThrow(k) = op {
            let k = via.full(&k.pick(&c.hist.keys, &view));
            check_get(&hb, &k, m.map.get(&k))?;
        }
        if i % 8 == 7 {
            check_scan(&hb, &m.map)?;
        }
    }
    check_scan(&hb, &m.map)?;
    check_scan(&bee::open(&log)?, &m.map)?;
    cx.nontrivial = refused > 0 && accepted > 0 && m.height() >= 2;
    cx.note = Some(format!("{} operations, {refused} wrote nothing", c.ops.len()));
    Ok(())
}
pub fn sub_view(map: &Map, via: &Via) -> Map {
    match via {
        Via::Main(_) => map.clone(),
        Via::Sub(_, p) => view_of(map, p),
    }
}
pub fn view_of(map: &Map, p: &[u8]) -> Map {
    map.range(p.to_vec()..)
        .take_while(|(k, _)| k.starts_with(p))
        .map(|(k, e)| (k[p.len()..].to_vec(), e.clone()))
        .collect()
}
pub fn c07_prop() -> Property {
    Property {
        id: "C07",
        level: "exploration",
        rule: "conditional and plain writes, through the main tree and a sub-tree, on cold and warm handles over trees from generated histories; conditions depend on the entry they see, and now and then panic. Each call of the condition, the result, the appended block (byte for byte) and the map afterwards are compared with the model. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: at least two levels, with both an operation that wrote and one that did not; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["hypercore is the offline stand-in in /verif/stubs"],
        parts: vec![part("cas", 80000, 500_000, strat_c07, c07), part("tall", 6000, 60000, super::tall::strat, super::tall::c07)],
    }
}

// ---- C08 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SubSpec {
    #[serde(with = "crate::hex::one")]
    prefix: Vec<u8>,
    /// `None`: the default separator
    sep: Option<String>,
}
impl SubSpec {
    fn conf(&self) -> PrefixedConfig {
        match &self.sep {
            None => PrefixedConfig::default(),
            Some(h) => PrefixedConfig { seperator: crate::hex::dec(h).unwrap_or_default() },
        }
    }
    fn full(&self) -> Vec<u8> {
        [&self.prefix[..], &self.conf().seperator[..]].concat()
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Put(KSel, V),
    Del(KSel),
    Get(KSel),
    PutCas(KSel, V, Decide),
    DelCas(KSel, Decide),
    Scan(RSel),
    Fill(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Subs {
    keys: gen::Keys,
    subs: Vec<SubSpec>,
    /// (which tree: 0 is the main one, operation)
    ops: Vec<(u8, SOp)>,
    cold: u8,
}
fn edge_bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    vec(prop_oneof![3 => Just(0xffu8), 2 => Just(0u8), 3 => Just(b'a'), 2 => Just(b'b'), 1 => Just(0xfeu8), 1 => Just(1u8), 1 => any::<u8>()], 0..=max).boxed()
}
fn strat_c08(t: Tier) -> BoxedStrategy<Subs> {
    let sep = prop_oneof![
        3 => Just(None),
        1 => Just(Some(String::new())),
        2 => edge_bytes(2).prop_map(|b| Some(crate::hex::enc(&b))),
    ];
    let spec = (edge_bytes(4), sep).prop_map(|(prefix, sep)| SubSpec { prefix, sep });
    let op = prop_oneof![
        5 => (gen::ksel(), gen::val()).prop_map(|(k, v)| SOp::Put(k, v)),
        3 => gen::ksel().prop_map(SOp::Del),
        2 => gen::ksel().prop_map(SOp::Get),
        1 => (gen::ksel(), gen::val(), decide()).prop_map(|(k, v, d)| SOp::PutCas(k, v, d)),
        1 => (gen::ksel(), decide()).prop_map(|(k, d)| SOp::DelCas(k, d)),
        4 => gen::rsel().prop_map(SOp::Scan),
        2 => (1u8..24).prop_map(SOp::Fill),
    ];
    let n = if t == Tier::Quick { 50 } else { 120 };
    let keys = (prop_oneof![3 => Just(2u8), 1 => Just(0u8), 1 => Just(4u8)], 1u16..90, vec(prop_oneof![gen::raw_key(), edge_bytes(7)], 0..12))
        .prop_map(|(kind, n, extra)| gen::Keys { kind, n: if kind == 4 { n.min(30) } else { n }, extra });
    (keys, vec(spec, 1..6), vec((any::<u8>(), op), 1..n), 0u8..3, 0u8..3)
        .prop_map(|(keys, mut subs, ops, cold, nest)| {
            // make some prefixes extend, or start right after, another's
            if subs.len() > 1 && nest > 0 {
                let mut p = subs[0].full();
                if nest == 2 {
                    if let Some(b) = p.last_mut() {
                        *b = b.wrapping_add(1)
                    }
                }
                p.extend_from_slice(&subs[1].prefix[..subs[1].prefix.len().min(1)]);
                subs[1].prefix = p;
            }
            Subs { keys, subs, ops, cold }
        })
        .boxed()
}
fn c08(c: &Subs, cx: &mut Ctx) -> R<()> {
    let (mut hb, log) = bee::fresh();
    let mut m = JsBee::default();
    let mut stamp = 0u64;
    let (mut scans, mut neighbours) = (0u32, 0u32);
    for (i, (which, op)) in c.ops.iter().enumerate() {
        if c.cold == 1 && i % 7 == 6 {
            hb = bee::open(&log)?;
        }
        let w = *which as usize % (c.subs.len() + 1);
        let via = if w == 0 {
            Via::Main(&hb)
        } else {
            let s = &c.subs[w - 1];
            Via::Sub(SubOf::Own(hb.sub(&s.prefix, s.conf())), s.full())
        };
        let view = sub_view(&m.map, &via);
        stamp += 1;
        let before = log.len();
        let at = |e: String| {
            if w == 0 {
                e
            } else {
                format!("sub-tree {} + separator {:02x?}: {e}", show(&c.subs[w - 1].prefix), c.subs[w - 1].conf().seperator)
            }
        };
        let put = |m: &mut JsBee, k: &[u8], v: Option<&[u8]>| -> R<()> {
            let before = log.len();
            let got = ok("put", via.put(k, v))?;
            let want = m.put(&via.full(k), v);
            if got != want {
                return Err(format!("put({}) returned {got:?}, expected {want:?}", show(k)));
            }
            same_tail(&log, m, before)
        };
        match op {
            SOp::Put(k, v) => put(&mut m, &k.pick(&c.keys, &view), v.bytes(stamp).as_deref()).map_err(at)?,
            SOp::Fill(n) => {
                for j in 0..*n {
                    stamp += 1;
                    put(&mut m, &c.keys.key(i + j as usize), V::Uniq.bytes(stamp).as_deref()).map_err(at)?;
                }
            }
            SOp::Del(k) => {
                let k = k.pick(&c.keys, &view);
                let got = ok("del", via.del(&k))?;
                let want = m.del(&via.full(&k));
                if got != want {
                    return Err(at(format!("del({}) returned {got:?}, expected {want:?}", show(&k))));
                }
                same_tail(&log, &m, before).map_err(at)?;
            }
            SOp::Get(k) => {
                let k = k.pick(&c.keys, &view);
                let got = ok("get", via.get(&k))?;
                if got.as_ref() != view.get(&k) {
                    return Err(at(format!("get({}) gave {}, expected {}", show(&k), short(&got), short(&view.get(&k).cloned()))));
                }
            }
            SOp::PutCas(k, v, d) => {
                step_put_cas(&via, &log, &mut m, &k.pick(&c.keys, &view), v.bytes(stamp).as_deref(), *d, cx).map_err(at)?
            }
            SOp::DelCas(k, d) => step_del_cas(&via, &log, &mut m, &k.pick(&c.keys, &view), *d, cx).map_err(at)?,
            SOp::Scan(r) => {
                if m.len() > 1 {
                    let r = r.pick(&c.keys, &view);
                    let got = via.scan(&r, m.map.len() + 8).map_err(at)?;
                    diff_items(&format!("traverse {}", show_range(&r)), &got, &r.want(&view)).map_err(at)?;
                    if w > 0 {
                        scans += 1;
                        neighbours += u32::from(view.len() < m.map.len() && !view.is_empty());
                    }
                }
            }
        }
    }
    // every sub-tree in full, both ways
    if m.len() > 1 {
        for s in &c.subs {
            let via = Via::Sub(SubOf::Own(hb.sub(&s.prefix, s.conf())), s.full());
            let view = view_of(&m.map, &s.full());
            for r in [Range::all(false), Range::all(true)] {
                let got = via.scan(&r, m.map.len() + 8).map_err(|e| format!("sub-tree {s:?}: {e}"))?;
                diff_items(&format!("sub-tree {s:?} traverse {}", show_range(&r)), &got, &r.want(&view))?;
            }
            cx.class("prefix+separator ends in ff", s.full().last() == Some(&0xff));
            cx.class("empty prefix+separator", s.full().is_empty());
            cx.class("sub-tree has entries", !view.is_empty());
            neighbours += u32::from(!view.is_empty() && view.len() < m.map.len());
        }
    }
    check_scan(&hb, &m.map)?;
    cx.nontrivial = neighbours > 0;
    cx.note = Some(format!("{} sub-trees, {} operations, {scans} sub-tree scans", c.subs.len(), c.ops.len()));
    Ok(())
}
pub fn c08_prop() -> Property {
    Property {
        id: "C08",
        level: "exploration",
        rule: "histories over the main tree and up to five sub-trees whose prefixes and separators are built from 00, a, b, fe, ff and may be empty, nested or adjacent; all operations incl. traversals with relative bounds are compared with the filtered and stripped map, and written blocks byte for byte with those of the full-key write. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: a sub-tree with entries next to others outside it; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["hypercore is the offline stand-in in /verif/stubs"],
        parts: vec![part("subs", 45000, 500_000, strat_c08, c08), part("tall", 3000, 60000, super::tall::strat, super::tall::c08)],
    }
}

// ---- C09 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WOp {
    Put(KSel, V),
    Del(KSel),
    PutCas(KSel, V, Decide),
    DelCas(KSel, Decide),
    Header,
}
pub fn wop() -> BoxedStrategy<WOp> {
    prop_oneof![
        4 => (gen::ksel(), gen::val()).prop_map(|(k, v)| WOp::Put(k, v)),
        6 => gen::ksel().prop_map(WOp::Del),
        2 => (gen::ksel(), gen::val(), decide()).prop_map(|(k, v, d)| WOp::PutCas(k, v, d)),
        2 => (gen::ksel(), decide()).prop_map(|(k, d)| WOp::DelCas(k, d)),
    ]
    .boxed()
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum WFault {
    /// the nth block read of the operation fails
    Get(u16, bool),
    /// ... and all later ones
    GetFrom(u16, bool),
    Append,
    NotWritable,
    None,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WRound {
    op: WOp,
    fault: WFault,
    cold: bool,
    sub: bool,
    /// 0: retry at once, 1: read everything first, 2: go on with something else, 3: another handle writes next
    after: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WriteFaults {
    hist: Hist,
    rounds: Vec<WRound>,
}
fn strat_c09(t: Tier) -> BoxedStrategy<WriteFaults> {
    let fault = prop_oneof![
        4 => (any::<u16>(), any::<bool>()).prop_map(|(n, b)| WFault::Get(n, b)),
        2 => (any::<u16>(), any::<bool>()).prop_map(|(n, b)| WFault::GetFrom(n, b)),
        4 => Just(WFault::Append),
        1 => Just(WFault::NotWritable),
        1 => Just(WFault::None),
    ];
    let op = prop_oneof![12 => wop(), 1 => Just(WOp::Header)];
    let round = (op, fault, prop::bool::weighted(0.5), prop::bool::weighted(0.15), 0u8..4)
        .prop_map(|(op, fault, cold, sub, after)| WRound { op, fault, cold, sub, after });
    let h = match t {
        Tier::Quick => prop_oneof![2 => gen::hist(160, 10), 2 => gen::grow_drain(30, 200)].boxed(),
        Tier::Thorough => prop_oneof![2 => gen::hist(300, 20), 2 => gen::grow_drain(30, 260), 1 => gen::grow_drain(260, 700)].boxed(),
    };
    let empty = gen::keys(40).prop_map(|keys| Hist { keys, ops: vec![] });
    (prop_oneof![1 => empty, 8 => h], vec(round, 1..16)).prop_map(|(hist, rounds)| WriteFaults { hist, rounds }).boxed()
}
/// Do `op`. `Ok(Err)`: it failed. The result is compared with the model's, which is advanced.
pub fn do_wop(via: &Via, op: &WOp, k: &[u8], v: Option<&[u8]>, m: &mut JsBee) -> R<Result<(), HyperbeeError>> {
    let full = via.full(k);
    let cur = m.map.get(&full).map(|e| e.0);
    let next = m.len().max(1);
    let bad = |g: String, w: String| Err(format!("{op:?} on {} returned {g}, expected {w}", show(k)));
    match op {
        WOp::Put(..) => match maybe("put", via.put(k, v))? {
            Err(e) => return Ok(Err(e)),
            Ok(g) => {
                let w = m.put(&full, v);
                if g != w {
                    return bad(format!("{g:?}"), format!("{w:?}"));
                }
            }
        },
        WOp::Del(_) => match maybe("del", via.del(k))? {
            Err(e) => return Ok(Err(e)),
            Ok(g) => {
                let w = m.del(&full);
                if g != w {
                    return bad(format!("{g:?}"), format!("{w:?}"));
                }
            }
        },
        WOp::PutCas(_, _, d) => {
            let d = *d;
            let f: PutCas = Box::new(move |o, n| d.eval(o.map(|o| o.seq), n.seq));
            match maybe("put cas", via.put_cas(k, v, f))? {
                Err(e) => return Ok(Err(e)),
                Ok(g) => {
                    let yes = d.eval(cur, next);
                    let w = (cur, yes.then_some(next));
                    if g != w {
                        return bad(format!("{g:?}"), format!("{w:?}"));
                    }
                    if yes {
                        m.put(&full, v);
                    }
                }
            }
        }
        WOp::DelCas(_, d) => {
            let (d, len) = (*d, m.len());
            let f: DelCas = Box::new(move |o| d.eval(Some(o.seq), len));
            match maybe("del cas", via.del_cas(k, f))? {
                Err(e) => return Ok(Err(e)),
                Ok(g) => {
                    let w = cur.map(|c| (d.eval(Some(c), len), c));
                    if g != w {
                        return bad(format!("{g:?}"), format!("{w:?}"));
                    }
                    if w.is_some_and(|w| w.0) {
                        m.del(&full);
                    }
                }
            }
        }
        WOp::Header => {
            let Via::Main(hb) = via else { return Ok(Ok(())) };
            match maybe("create_header", hb.create_header(None::<Metadata>))? {
                Err(HyperbeeError::HeaderAlreadyExists) if m.len() > 0 => (),
                Err(e) => return Ok(Err(e)),
                Ok(_) if m.len() > 0 => return Err("create_header succeeded on a log with blocks".into()),
                Ok(_) => m.ensure_header(),
            }
        }
    }
    Ok(Ok(()))
}
fn wop_key(op: &WOp, keys: &gen::Keys, view: &Map, stamp: u64) -> (Vec<u8>, Option<Vec<u8>>) {
    match op {
        WOp::Put(k, v) | WOp::PutCas(k, v, _) => (k.pick(keys, view), v.bytes(stamp)),
        WOp::Del(k) | WOp::DelCas(k, _) => (k.pick(keys, view), None),
        WOp::Header => (vec![], None),
    }
}
pub const SUB: &[u8] = b"1";
pub fn via_of(hb: &Hyperbee, sub: bool) -> Via<'_> {
    if sub {
        Via::Sub(SubOf::Own(hb.sub(SUB, PrefixedConfig { seperator: vec![] })), SUB.to_vec())
    } else {
        Via::Main(hb)
    }
}
/// One write through a handle of its own.
fn other_writes(log: &SimLog, m: &mut JsBee, keys: &gen::Keys, stamp: u64) -> R<()> {
    let other = bee::open(log)?;
    let k = match gen::nth_live(&m.map, stamp as usize) {
        Some(k) if stamp % 3 == 0 => k,
        _ => keys.key(stamp.wrapping_mul(7919) as usize),
    };
    if stamp % 2 == 0 && m.map.contains_key(&k) {
        ok("del", other.del(&k))?;
        m.del(&k);
    } else {
        ok("put", other.put(&k, Some(b"other")))?;
        m.put(&k, Some(b"other"));
    }
    Ok(())
}
fn c09(c: &WriteFaults, cx: &mut Ctx) -> R<()> {
    let mut m = grow_model(&c.hist);
    let (mut hb, log) = bee::over(&m.raw)?;
    let mut stamp = 5_000_000u64;
    let (mut failed, mut retried) = (0u64, 0u64);
    for r in &c.rounds {
        stamp += 1;
        if r.cold {
            hb = bee::open(&log)?;
        }
        let sub = r.sub && !matches!(r.op, WOp::Header);
        let view = sub_view(&m.map, &via_of(&hb, sub));
        let (k, v) = wop_key(&r.op, &c.hist.keys, &view, stamp);
        // how many reads and appends it makes on a copy of the log
        let (mut reads, mut appends) = (0, 0);
        if !matches!(r.fault, WFault::None) {
            let (hb2, log2) = bee::over(&log.blocks())?;
            do_wop(&via_of(&hb2, sub), &r.op, &k, v.as_deref(), &mut m.clone())?.map_err(|e| format!("{:?} fails without any fault: {}", r.op, err_text(&e)))?;
            reads = log2.n_get();
            appends = log2.n_append();
        }
        log.reset_counters();
        let g = |miss: bool| if miss { Fault::GetMissing } else { Fault::GetIo };
        match r.fault {
            WFault::Get(n, miss) if reads > 0 => log.fail_get(n as u64 % reads, g(miss)),
            WFault::GetFrom(n, miss) if reads > 0 => log.fail_gets_from(n as u64 % reads, g(miss)),
            // on a new log the first append is the header's
            WFault::Append if appends > 0 => log.fail_append(stamp % appends, Fault::AppendIo),
            WFault::NotWritable => log.set_writable(false),
            _ => (),
        }
        let before = log.blocks();
        let mut after = m.clone();
        let res = do_wop(&via_of(&hb, sub), &r.op, &k, v.as_deref(), &mut after)?;
        let fired = log.faults_fired() > 0 || (matches!(r.fault, WFault::NotWritable) && log.n_append() > 0);
        log.clear_faults();
        log.set_writable(true);
        let what = format!("{:?} {} with {:?} (of {reads} reads{})", r.op, show(&k), r.fault, if r.cold { ", cold handle" } else { "" });
        match res {
            Ok(()) => {
                if fired {
                    return Err(format!("{what}: the storage failed but the operation reports success"));
                }
                m = after;
                sync_header(&log, &mut m);
                same_tail(&log, &m, before.len() as u64).map_err(|e| format!("{what}: {e}"))?;
                cx.hit("no fault met");
                continue;
            }
            Err(e) => {
                if !fired {
                    return Err(format!("{what}: failed though nothing went wrong: {}", err_text(&e)));
                }
            }
        }
        failed += 1;
        cx.hit(match r.fault {
            WFault::Get(..) => "failed on one read",
            WFault::GetFrom(..) => "failed on all reads",
            WFault::Append => "failed on append",
            _ => "not writable",
        });
        let now = log.blocks();
        if now != before {
            // a new log may have got its header
            if before.is_empty() && now.len() == 1 && wire::decode_header(&now[0]).is_ok() {
                m.ensure_header();
                cx.hit("header stays");
            } else {
                return Err(format!("{what}: failed but the log went from {} to {} blocks", before.len(), now.len()));
            }
        }
        let at = |e: String| format!("after the failed {what}: {e}");
        match r.after {
            0 => {
                retried += 1;
                let before = log.len();
                do_wop(&via_of(&hb, sub), &r.op, &k, v.as_deref(), &mut m).map_err(at)?.map_err(|e| at(format!("the retry fails: {}", err_text(&e))))?;
                sync_header(&log, &mut m);
                same_tail(&log, &m, before).map_err(|e| at(format!("the retry: {e}")))?;
                check_scan(&hb, &m.map).map_err(at)?;
            }
            1 => {
                let h = m.height();
                let got = ok("height", hb.height()).map_err(at)?;
                if got != h {
                    return Err(at(format!("height {got}, expected {h}")));
                }
                check_all(&hb, &m.map, &[k.clone()]).map_err(at)?;
            }
            3 => {
                other_writes(&log, &mut m, &c.hist.keys, stamp).map_err(at)?;
                cx.hit("another handle wrote next");
                let at = |e: String| at(format!("another handle wrote, then {e}"));
                let full = via_of(&hb, sub).full(&k);
                check_get(&hb, &full, m.map.get(&full)).map_err(at)?;
                check_scan(&hb, &m.map).map_err(at)?;
            }
            _ => {
                check_get(&hb, &via_of(&hb, sub).full(&k), m.map.get(&via_of(&hb, sub).full(&k))).map_err(at)?;
            }
        }
    }
    check_all(&hb, &m.map, &[])?;
    // whatever was read along the way, the handle can still take the tree down correctly
    let mut n = 0;
    while let Some(k) = gen::nth_live(&m.map, 7 * n) {
        n += 1;
        if n > 24 {
            break;
        }
        ok("del", hb.del(&k))?;
        m.del(&k);
    }
    same_log(&log, &m)?;
    cx.add("retried", retried);
    cx.nontrivial = failed > 0 && c.hist.ops.len() > 0;
    cx.note = Some(format!("{} rounds, {failed} failed operations", c.rounds.len()));
    Ok(())
}
pub fn c09_prop() -> Property {
    Property {
        id: "C09",
        level: "fault_enumeration",
        rule: "on trees from generated histories, writes of every kind (main tree and sub-tree, warm and cold handle) run while a chosen block read, all later reads or the append fails, or the core is not writable; the same handle then retries, reads everything or goes on, every block compared byte for byte with the model that never saw the failed attempt. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: a write failed on a tree with entries; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["a failed hypercore append writes nothing", "faults are injected at hypercore's get and append; hypercore is the stand-in in /verif/stubs"],
        parts: vec![part("faults", 24000, 300_000, strat_c09, c09), part("tall", 5000, 60000, super::tall::strat, super::tall::c09)],
    }
}

// ---- C19 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum XOp {
    W(WOp),
    Get(KSel),
    Open(RSel),
    Read(RSel, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct XRound {
    op: XOp,
    at: u16,
    cold: bool,
    sub: bool,
    full: bool,
    /// another handle writes before this one is used again
    #[serde(default)]
    other: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cancels {
    hist: Hist,
    rounds: Vec<XRound>,
    yields: Vec<u8>,
}
fn strat_c19(t: Tier) -> BoxedStrategy<Cancels> {
    let op = prop_oneof![
        12 => wop().prop_map(XOp::W),
        1 => Just(XOp::W(WOp::Header)),
        2 => gen::ksel().prop_map(XOp::Get),
        1 => gen::rsel().prop_map(XOp::Open),
        1 => (gen::rsel(), 0u8..20).prop_map(|(r, n)| XOp::Read(r, n)),
    ];
    let round = (op, any::<u16>(), prop::bool::weighted(0.4), prop::bool::weighted(0.15), prop::bool::weighted(0.15), prop::bool::weighted(0.25))
        .prop_map(|(op, at, cold, sub, full, other)| XRound { op, at, cold, sub, full, other });
    let h = match t {
        Tier::Quick => prop_oneof![2 => gen::hist(160, 10), 2 => gen::grow_drain(30, 200)].boxed(),
        Tier::Thorough => prop_oneof![2 => gen::hist(300, 20), 2 => gen::grow_drain(30, 260), 1 => gen::grow_drain(260, 700)].boxed(),
    };
    let empty = gen::keys(40).prop_map(|keys| Hist { keys, ops: vec![] });
    (prop_oneof![1 => empty, 8 => h], vec(round, 1..16), vec(0u8..3, 0..8))
        .prop_map(|(hist, rounds, yields)| Cancels { hist, rounds, yields })
        .boxed()
}
fn c19(c: &Cancels, cx: &mut Ctx) -> R<()> {
    let mut m = grow_model(&c.hist);
    let (mut hb, log) = bee::over(&m.raw)?;
    let mut stamp = 7_000_000u64;
    let (mut dropped, mut landed) = (0u64, 0u64);
    for r in &c.rounds {
        stamp += 1;
        if r.cold {
            hb = bee::open(&log)?;
        }
        log.set_yields(&c.yields, 1);
        let sub = r.sub && !matches!(r.op, XOp::W(WOp::Header));
        let view = sub_view(&m.map, &via_of(&hb, sub));
        let before = log.len();
        // the operation as a future that yields nothing of interest
        let (mut k, mut v) = (vec![], None);
        if let XOp::W(op) = &r.op {
            (k, v) = wop_key(op, &c.hist.keys, &view, stamp);
        }
        if let XOp::Get(s) = &r.op {
            k = s.pick(&c.hist.keys, &view);
        }
        let next = m.len().max(1);
        let len = m.len();
        fn start<'a>(via: &'a Via<'a>, r: &'a XRound, k: &'a [u8], v: Option<&'a [u8]>, len: u64, keys: &'a gen::Keys, view: &'a Map) -> Pin<Box<dyn Future<Output = Result<(), HyperbeeError>> + 'a>> {
            match &r.op {
                XOp::W(WOp::Put(..)) => Box::pin(async move { via.put(k, v).await.map(|_| ()) }),
                XOp::W(WOp::Del(_)) => Box::pin(async move { via.del(k).await.map(|_| ()) }),
                XOp::W(WOp::PutCas(_, _, d)) => {
                    let d = *d;
                    let f: PutCas = Box::new(move |o, n| d.eval(o.map(|o| o.seq), n.seq));
                    Box::pin(async move { via.put_cas(k, v, f).await.map(|_| ()) })
                }
                XOp::W(WOp::DelCas(_, d)) => {
                    let d = *d;
                    let f: DelCas = Box::new(move |o| d.eval(Some(o.seq), len));
                    Box::pin(async move { via.del_cas(k, f).await.map(|_| ()) })
                }
                XOp::W(WOp::Header) => Box::pin(async move {
                    match via {
                        Via::Main(h) => match h.create_header(None).await {
                            Err(HyperbeeError::HeaderAlreadyExists) => Ok(()),
                            x => x.map(|_| ()),
                        },
                        _ => Ok(()),
                    }
                }),
                XOp::Get(_) => Box::pin(async move { via.get(k).await.map(|_| ()) }),
                XOp::Open(rs) | XOp::Read(rs, _) => {
                    let n = if let XOp::Read(_, n) = &r.op { *n as usize } else { 0 };
                    let conf = rs.pick(keys, view).conf();
                    Box::pin(async move {
                        if len <= 1 {
                            return Ok(());
                        }
                        match via {
                            Via::Main(h) => {
                                let mut s = Box::pin(h.traverse(conf).await?);
                                for _ in 0..n {
                                    if s.next().await.transpose()?.is_none() {
                                        break;
                                    }
                                }
                            }
                            Via::Sub(h, _) => {
                                let mut s = Box::pin(h.traverse(&conf).await?);
                                for _ in 0..n {
                                    if s.next().await.transpose()?.is_none() {
                                        break;
                                    }
                                }
                            }
                        }
                        Ok(())
                    })
                }
            }
        }
        // how many polls it takes, on a copy
        let total = {
            let (hb2, log2) = bee::over(&log.blocks())?;
            log2.set_yields(&c.yields, 1);
            let via = via_of(&hb2, sub);
            let mut f = start(&via, r, &k, v.as_deref(), len, &c.hist.keys, &view);
            let polls = std::cell::Cell::new(0u64);
            exec::run(std::future::poll_fn(|cx| {
                polls.set(polls.get() + 1);
                f.as_mut().poll(cx)
            }))
            .map_err(|h| format!("{:?}: hangs ({})", r.op, h.0))?
            .map_err(|e| format!("{:?}: {}", r.op, err_text(&e)))?;
            polls.get()
        };
        let at = if r.full { total + 1_000_000 } else { r.at as u64 % total.max(1) };
        let res = {
            let via = via_of(&hb, sub);
            exec::run_then_drop(start(&via, r, &k, v.as_deref(), len, &c.hist.keys, &view), at)
                .map_err(|h| format!("{:?}: hangs ({})", r.op, h.0))?
        };
        let what = format!("{:?} {} dropped after {at} of {total} polls", r.op, show(&k));
        // what it would have done in full
        let mut after = m.clone();
        if let XOp::W(op) = &r.op {
            let full = via_of(&hb, sub).full(&k);
            let cur = m.map.get(&full).map(|e| e.0);
            match op {
                WOp::Put(..) => {
                    after.put(&full, v.as_deref());
                }
                WOp::PutCas(_, _, d) => {
                    after.ensure_header();
                    if d.eval(cur, next) {
                        after.put(&full, v.as_deref());
                    }
                }
                WOp::Del(_) => {
                    after.del(&full);
                }
                WOp::DelCas(_, d) => {
                    if cur.is_some() && d.eval(cur, len) {
                        after.del(&full);
                    }
                }
                WOp::Header => after.ensure_header(),
            }
        }
        let done = match res {
            Some(Ok(())) => true,
            Some(Err(e)) => return Err(format!("{what}: {}", err_text(&e))),
            None => false,
        };
        if log.len() == after.len() && (done || after.len() > m.len()) {
            landed += u64::from(!done);
            m = after;
        } else if done && !matches!(r.op, XOp::W(WOp::PutCas(..))) {
            return Err(format!("{what}: completed, but the log has {} blocks, expected {}", log.len(), after.len()));
        } else if before == 0 && log.len() == 1 {
            m.ensure_header();
        } else if log.len() != before {
            return Err(format!("{what}: the log went from {before} to {} blocks", log.len()));
        }
        dropped += u64::from(!done);
        log.set_yields(&[], 0);
        let at = |e: String| format!("after {what}: {e}");
        same_tail(&log, &m, before).map_err(at)?;
        if r.other {
            other_writes(&log, &mut m, &c.hist.keys, stamp).map_err(at)?;
        }
        if k.len() < 300 {
            let full = via_of(&hb, sub).full(&k);
            check_get(&hb, &full, m.map.get(&full)).map_err(at)?;
        }
        check_scan(&hb, &m.map).map_err(at)?;
        cx.class("dropped write", !done && matches!(r.op, XOp::W(_)));
        cx.class("dropped read", !done && !matches!(r.op, XOp::W(_)));
    }
    log.set_yields(&[], 0);
    check_all(&hb, &m.map, &[])?;
    let mut n = 0;
    while let Some(k) = gen::nth_live(&m.map, 5 * n) {
        n += 1;
        if n > 20 {
            break;
        }
        ok("del", hb.del(&k))?;
        m.del(&k);
        let p = Prim::Put([&k[..k.len() / 2], b"!"].concat(), V::Uniq);
        if let Prim::Put(k, v) = &p {
            let v = v.bytes(n as u64);
            ok("put", hb.put(k, v.as_deref()))?;
            m.put(k, v.as_deref());
        }
    }
    same_log(&log, &m)?;
    check_scan(&hb, &m.map)?;
    cx.add("dropped but landed", landed);
    cx.nontrivial = dropped > 0 && m.height() >= 2;
    cx.note = Some(format!("{} rounds, {dropped} dropped early, {landed} of them had landed", c.rounds.len()));

    Ok(())
}
pub fn c19_prop() -> Property {
    Property {
        id: "C19",
        level: "fault_enumeration",
        rule: "operations of every kind run with the storage pausing at each access and are dropped after a chosen number of polls (counted on a copy); the log must be the old one, the old one plus a first header, or the one the whole operation gives, the handle must read accordingly and go on writing the model's blocks. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: an operation was really dropped early on a tree of at least two levels; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["an append that hypercore has performed counts as done even if its future is dropped before it returns"],
        parts: vec![part("cancel", 20000, 250_000, strat_c19, c19), part("tall", 3000, 60000, super::tall::strat, super::tall::c19)],
    }
}
