//! C02, C16, C17, C18, C20, C21, C23: reading, ranges, header, debug views.
use crate::{
    bee::{self, *},
    exec::{self, R},
    gen::{self, Hist, KSel, RSel},
    model::{check_tree, JsBee, Map},
    props::maps::*,
    props::writes::view_of,
    runner::{part, Ctx, Property, Tier},
    wire,
};
use futures_util::StreamExt;
use hyperbee::{
    prefixed::PrefixedConfig,
    traverse::{LimitValue, TraverseConfig, TraverseConfigBuilder},
    Hyperbee, Metadata,
};
use hypercore::sim::{Fault, SimLog};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

/// A tree the library wrote, with the model of it.
pub fn grow(h: &Hist) -> R<Duo> {
    let mut d = Duo::new();
    d.go(h, |_, _| Ok(()))?;
    Ok(d)
}
/// The same, written by the model alone (much faster, and independent).
pub fn grow_model(h: &Hist) -> JsBee {
    struct S(JsBee, u64);
    let mut s = S(JsBee::default(), 0);
    gen::drive(&mut s, &h.keys, &h.ops, |s| &s.0.map, |s, p| {
        match p {
            gen::Prim::Put(k, v) => {
                s.1 += 1;
                s.0.put(&k, v.bytes(s.1).as_deref());
            }
            gen::Prim::Del(k) => {
                s.0.del(&k);
            }
            gen::Prim::Get(_) => (),
        }
        Ok(())
    })
    .expect("model");
    s.0
}
pub fn some_tree(t: Tier) -> BoxedStrategy<Hist> {
    match t {
        Tier::Quick => prop_oneof![1 => gen::hist(40, 20), 3 => gen::hist(300, 16), 1 => gen::grow_drain(30, 260)].boxed(),
        Tier::Thorough => prop_oneof![1 => gen::hist(60, 40), 3 => gen::hist(400, 30), 1 => gen::grow_drain(30, 260), 1 => gen::grow_drain(300, 1100)].boxed(),
    }
}

// ---- C02 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ranges {
    hist: Hist,
    ranges: Vec<RSel>,
    /// 0: the handle that wrote; 1: a fresh handle; 2: a fresh handle per range
    cold: u8,
    yields: Vec<u8>,
}
fn strat_c02(t: Tier) -> BoxedStrategy<Ranges> {
    (some_tree(t), vec(gen::rsel(), 1..30), 0u8..3, vec(0u8..3, 0..20))
        .prop_map(|(hist, ranges, cold, yields)| Ranges { hist, ranges, cold, yields })
        .boxed()
}
fn c02(c: &Ranges, cx: &mut Ctx) -> R<()> {
    let (mut hb, log, m) = if c.cold == 0 {
        let d = grow(&c.hist)?;
        (d.hb, d.log, d.m)
    } else {
        let m = grow_model(&c.hist);
        let (hb, log) = bee::over(&m.raw)?;
        (hb, log, m)
    };
    if m.len() <= 1 {
        // no root: a traversal reports that instead of yielding nothing
        return Ok(());
    }
    log.set_yields(&c.yields, 0);
    let map = &m.map;
    let mut partial = 0u64;
    for rs in &c.ranges {
        let r = rs.pick(&c.hist.keys, map);
        if c.cold == 2 {
            hb = bee::open(&log)?;
        }
        let n = check_range(&hb, &r, map)?;
        // the reverse is the exact opposite
        let back = Range { rev: !r.rev, ..r.clone() };
        check_range(&hb, &back, map)?;
        cx.class("empty result", n == 0);
        cx.class("whole map", n == map.len());
        cx.class("partial result", n > 0 && n < map.len());
        cx.class("reversed", r.rev);
        if let B::Key(k) = &r.min {
            cx.hit(if map.contains_key(k) { "lower bound stored" } else { "lower bound not stored" });
        }
        if let B::Key(k) = &r.max {
            cx.hit(if map.contains_key(k) { "upper bound stored" } else { "upper bound not stored" });
        }
        partial += u64::from(n > 0 && n < map.len());
    }
    check_range(&hb, &Range::all(false), map)?;
    check_range(&hb, &Range::all(true), map)?;
    let h = m.height();
    cx.hit(&format!("height {h}"));
    cx.nontrivial = partial > 0 && h >= 2;
    cx.note = Some(format!("{} live, height {h}, {} ranges", map.len(), c.ranges.len()));
    Ok(())
}
/// One tree, every pair of bounds out of a set around a window of its keys.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Window {
    hist: Hist,
    at: u16,
    width: u8,
}
fn strat_window(t: Tier) -> BoxedStrategy<Window> {
    (some_tree(t), any::<u16>(), 1u8..9).prop_map(|(hist, at, width)| Window { hist, at, width }).boxed()
}
fn c02_window(c: &Window, cx: &mut Ctx) -> R<()> {
    let m = grow_model(&c.hist);
    if m.len() <= 1 {
        return Ok(());
    }
    let (hb, _) = bee::over(&m.raw)?;
    let map = &m.map;
    let at = if map.is_empty() { 0 } else { c.at as usize % map.len() };
    // (an infinity on the wrong side: nothing is in the range)
    let mut pts: Vec<B> = vec![B::NegInf, B::PosInf, B::Key(vec![])];
    for k in map.keys().skip(at).take(c.width as usize) {
        pts.push(B::Key(k.clone()));
        let mut a = k.clone();
        a.push(0);
        pts.push(B::Key(a));
        let mut z = k.clone();
        z.pop();
        pts.push(B::Key(z));
    }
    let mut n = 0u64;
    for a in &pts {
        for z in &pts {
            if let (B::Key(x), B::Key(y)) = (a, z) {
                if x > y {
                    continue;
                }
            }
            for bits in 0..8u8 {
                let r = Range { min: a.clone(), min_incl: bits & 1 > 0, max: z.clone(), max_incl: bits & 2 > 0, rev: bits & 4 > 0 };
                // full scans of large trees are the other part's business
                if (*a == B::NegInf || *z == B::PosInf) && map.len() > 120 && (bits + c.width) % 4 > 0 {
                    continue;
                }
                check_range(&hb, &r, map)?;
                n += 1;
            }
        }
    }
    cx.add("ranges", n);
    cx.nontrivial = m.height() >= 2;
    cx.note = Some(format!("{n} ranges on {} entries", map.len()));
    Ok(())
}
pub fn c02_prop() -> Property {
    Property {
        id: "C02",
        level: "exploration",
        rule: "trees from generated histories; ranges whose bounds are absent, either infinity, stored keys, immediate neighbours of stored keys or arbitrary bytes, inclusive or not, forward and reversed, on warm and cold handles with generated pauses of the storage; a second part enumerates every combination of bounds around a window of keys, a third takes ranges (the first items of each) of complete trees of up to 2^61 keys. Each result list is compared with the sorted map. Non-trivial: at least two levels and a range that yields some but not all entries.",
        assumptions: &["hypercore is the offline stand-in in /verif/stubs"],
        parts: vec![part("ranges", 8000, 120000, strat_c02, c02), part("window", 1200, 20000, strat_window, c02_window), part("giant", 4000, 60000, super::giant::strat_reads, super::giant::plain)],
    }
}

// ---- C16, C17 --------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Build {
    min: Option<B>,
    max: Option<B>,
    min_incl: Option<bool>,
    max_incl: Option<bool>,
    rev: Option<bool>,
    /// make the upper bound relate to the lower one: 0 no, 1 equal, 2 extend, 3 cut
    relate: u8,
}
fn bound() -> BoxedStrategy<Option<B>> {
    prop_oneof![
        2 => Just(None),
        1 => Just(Some(B::NegInf)),
        1 => Just(Some(B::PosInf)),
        6 => gen::raw_key().prop_map(|k| Some(B::Key(k))),
    ]
    .boxed()
}
fn strat_build(_: Tier) -> BoxedStrategy<Build> {
    let ob = || any::<Option<bool>>();
    (bound(), bound(), ob(), ob(), ob(), 0u8..6)
        .prop_map(|(min, max, min_incl, max_incl, rev, relate)| Build { min, max, min_incl, max_incl, rev, relate })
        .boxed()
}
fn same_limit(a: &LimitValue, b: &B) -> bool {
    match (a, b) {
        (LimitValue::Finite(x), B::Key(y)) => x == y,
        (LimitValue::Infinite(_), B::Key(_)) | (LimitValue::Finite(_), _) => false,
        // the sign shows in the order against the empty key
        (inf, b) => inf.partial_cmp(&[][..]) == Some(b.cmp(&[])),
    }
}
fn c16(c: &Build, cx: &mut Ctx) -> R<()> {
    let mut c = c.clone();
    if let Some(B::Key(k)) = &c.min {
        let mut k = k.clone();
        match c.relate {
            1 => c.max = Some(B::Key(k)),
            2 => {
                k.push(0);
                c.max = Some(B::Key(k))
            }
            3 if !k.is_empty() => {
                k.pop();
                c.max = Some(B::Key(k))
            }
            _ => (),
        }
    }
    let mut b = TraverseConfigBuilder::default();
    if let Some(x) = &c.min {
        b.min_value(x.limit());
    }
    if let Some(x) = &c.max {
        b.max_value(x.limit());
    }
    if let Some(x) = c.min_incl {
        b.min_inclusive(x);
    }
    if let Some(x) = c.max_incl {
        b.max_inclusive(x);
    }
    if let Some(x) = c.rev {
        b.reversed(x);
    }
    // None: not laid down
    let want = match (&c.min, &c.max) {
        (_, Some(B::NegInf)) | (Some(B::PosInf), _) => {
            if c.min.is_some() && c.max.is_some() {
                Some(false)
            } else {
                None
            }
        }
        (Some(B::Key(a)), Some(B::Key(z))) => Some(match a.cmp(z) {
            Ordering::Less => true,
            Ordering::Greater => false,
            Ordering::Equal => c.min_incl != Some(false) && c.max_incl != Some(false),
        }),
        _ => Some(true),
    };
    let got = b.build();
    cx.hit(if got.is_ok() { "accepted" } else { "rejected" });
    cx.nontrivial = c.min.is_some() && c.max.is_some();
    if let Some(w) = want {
        if w != got.is_ok() {
            return Err(format!("the builder {} min {:?} max {:?} (inclusive {:?} {:?}){}",
                if w { "rejects" } else { "accepts" }, c.min, c.max, c.min_incl, c.max_incl,
                got.err().map(|e| format!(": {e}")).unwrap_or_default()));
        }
    }
    if let Ok(conf) = got {
        let d = TraverseConfig::default();
        if !same_limit(&conf.min_value, c.min.as_ref().unwrap_or(&B::NegInf))
            || !same_limit(&conf.max_value, c.max.as_ref().unwrap_or(&B::PosInf))
            || conf.min_inclusive != c.min_incl.unwrap_or(true)
            || conf.max_inclusive != c.max_incl.unwrap_or(true)
            || conf.reversed != c.rev.unwrap_or(false)
        {
            return Err(format!("built {conf:?} from {c:?}"));
        }
        if !same_limit(&d.min_value, &B::NegInf) || !same_limit(&d.max_value, &B::PosInf) || !d.min_inclusive || !d.max_inclusive || d.reversed {
            return Err(format!("the default configuration is {d:?}"));
        }
    }
    Ok(())
}
pub fn c16_prop() -> Property {
    Property {
        id: "C16",
        level: "exploration",
        rule: "every combination of given and omitted options, with infinite and generated finite bounds, often equal or proper prefixes of each other; acceptance and the resulting fields are compared with the stated rule. Non-trivial: both bounds given.",
        assumptions: &["with only one bound given, an impossible infinity on that side is not judged"],
        parts: vec![part("builder", 400_000, 6_000_000, strat_build, c16)],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cmp {
    bound: B,
    #[serde(with = "crate::hex::one")]
    key: Vec<u8>,
    /// 0: key independent of the bound; otherwise derived from it
    relate: u8,
    number: u64,
}
fn strat_cmp(_: Tier) -> BoxedStrategy<Cmp> {
    let key = || prop_oneof![4 => gen::raw_key(), 1 => (0usize..300).prop_map(|n| vec![0xffu8; n])];
    let number = prop_oneof![any::<u64>(), 0u64..1200, (0u32..64).prop_map(|s| 1u64 << s), (0u32..64).prop_map(|s| (1u64 << s) - 1)];
    (prop_oneof![1 => Just(B::NegInf), 1 => Just(B::PosInf), 5 => key().prop_map(B::Key)], key(), 0u8..7, number)
        .prop_map(|(bound, key, relate, number)| Cmp { bound, key, relate, number })
        .boxed()
}
fn c17(c: &Cmp, cx: &mut Ctx) -> R<()> {
    let mut key = c.key.clone();
    if let B::Key(b) = &c.bound {
        match c.relate {
            1 => key = b.clone(),
            2 => {
                key = b.clone();
                key.push(0)
            }
            3 => {
                key = b.clone();
                key.pop();
            }
            4 => {
                key = b.clone();
                if let Some(x) = key.last_mut() {
                    *x ^= 0x80
                }
            }
            _ => (),
        }
    }
    let one = |lim: &LimitValue, bound: &B, k: &[u8]| -> R<()> {
        let want = bound.cmp(k);
        let inf = !matches!(bound, B::Key(_));
        let bad = |what: &str, got: String| Err(format!("{what} of {bound:?} and {}: {got}, expected {want:?}", show(k)));
        if lim.partial_cmp(k) != Some(want) {
            return bad("partial_cmp", format!("{:?}", lim.partial_cmp(k)));
        }
        let eq = want == Ordering::Equal && !inf;
        if (*lim == *k) != eq || (*lim != *k) == eq {
            return bad("==", format!("{}", *lim == *k));
        }
        if (*lim < *k) != want.is_lt() || (*lim <= *k) != want.is_le() || (*lim > *k) != want.is_gt() || (*lim >= *k) != want.is_ge() {
            return bad("comparison operators", format!("{} {} {} {}", *lim < *k, *lim <= *k, *lim > *k, *lim >= *k));
        }
        if let LimitValue::Infinite(i) = lim {
            let w = want.reverse();
            if k.partial_cmp(i) != Some(w) || (*k == *i) || (*k < *i) != w.is_lt() || (*k > *i) != w.is_gt() || (*i == *k) || i.partial_cmp(k) != Some(want) {
                return bad("the mirrored comparison", format!("{:?}", k.partial_cmp(i)));
            }
        }
        Ok(())
    };
    one(&c.bound.limit(), &c.bound, &key)?;
    let n = c.number as usize;
    let lim = LimitValue::from(n);
    let text = n.to_string().into_bytes();
    match &lim {
        LimitValue::Finite(v) if *v == text => (),
        x => return Err(format!("the bound made from {n} is {x:?}")),
    }
    one(&lim, &B::Key(text), &key)?;
    cx.nontrivial = !key.is_empty();
    cx.class("infinite", !matches!(c.bound, B::Key(_)));
    cx.class("equal", c.bound.cmp(&key) == Ordering::Equal);
    Ok(())
}
pub fn c17_prop() -> Property {
    Property {
        id: "C17",
        level: "exploration",
        rule: "bounds (both infinities, arbitrary bytes, numbers) against keys that are arbitrary, runs of 0xFF, or one edit away from the bound; every comparison operator in both directions against plain byte order. Non-trivial: a non-empty key.",
        assumptions: &[],
        parts: vec![part("compare", 600_000, 8_000_000, strat_cmp, c17)],
    }
}

// ---- C18 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    Create(u8),
    Put(u8, u8),
    RefusedPut(u8, u8),
    Del(u8, u8),
    RefusedDel(u8, u8),
    Get(u8, u8),
    Traverse(u8),
    Views,
    Reopen(u8),
    Handle(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HeaderCase {
    metas: Vec<Option<(Option<Vec<u8>>, Option<Vec<u8>>)>>,
    ops: Vec<HOp>,
}
fn strat_c18(_: Tier) -> BoxedStrategy<HeaderCase> {
    let blob = || prop_oneof![1 => Just(None), 1 => Just(Some(vec![])), 3 => vec(any::<u8>(), 0..40).prop_map(Some)];
    let meta = prop_oneof![1 => Just(None), 3 => (blob(), blob()).prop_map(Some)];
    let b = any::<u8>();
    let op = prop_oneof![
        3 => b.prop_map(HOp::Create),
        2 => (b, b).prop_map(|(a, b)| HOp::Put(a, b)),
        1 => (b, b).prop_map(|(a, b)| HOp::RefusedPut(a, b)),
        1 => (b, b).prop_map(|(a, b)| HOp::Del(a, b)),
        1 => (b, b).prop_map(|(a, b)| HOp::RefusedDel(a, b)),
        2 => (b, b).prop_map(|(a, b)| HOp::Get(a, b)),
        1 => b.prop_map(HOp::Traverse),
        1 => Just(HOp::Views),
        1 => b.prop_map(HOp::Reopen),
        1 => b.prop_map(HOp::Handle),
    ];
    (vec(meta, 1..4), vec(op, 1..24)).prop_map(|(metas, ops)| HeaderCase { metas, ops }).boxed()
}
fn c18(c: &HeaderCase, cx: &mut Ctx) -> R<()> {
    let log = SimLog::new();
    let shared = hypercore::replication::SharedCore::from(bee::core_of(&log));
    let open = || Hyperbee::from_hypercore(shared.clone()).map_err(|e| e.to_string());
    let mut hs = vec![open()?, open()?];
    let mut cur = 0;
    // what block 0 must be, once there is one
    let mut header: Option<wire::Header> = None;
    let mut data = 0u64;
    let plain = wire::Header { protocol: b"hyperbee".to_vec(), metadata: None };
    let mut first = "";
    let (mut refused_creates, mut early_reads) = (0, 0);
    for op in &c.ops {
        let hb = &hs[cur];
        let sub = hb.sub(b"s", Default::default());
        let key = |k: u8| vec![b'k', k % 16];
        let before = log.len();
        match op {
            HOp::Create(i) => {
                let m = c.metas[*i as usize % c.metas.len()].clone();
                let meta = m.clone().map(|(content_feed, user_data)| Metadata { content_feed, user_data });
                let r = maybe("create_header", hb.create_header(meta))?;
                match (header.is_some() || data > 0, r) {
                    (false, Ok(o)) => {
                        if o.length != 1 {
                            return Err(format!("create_header reports length {}", o.length));
                        }
                        header = Some(wire::Header { protocol: b"hyperbee".to_vec(), metadata: m });
                        first = "create";
                    }
                    (false, Err(e)) => return Err(format!("create_header on an empty log fails: {}", err_text(&e))),
                    (true, Ok(_)) => return Err(format!("create_header succeeded on a log of {before} blocks")),
                    (true, Err(_)) => refused_creates += 1,
                }
            }
            HOp::Put(how, k) => {
                let r = if how % 2 == 0 { ok("put", hb.put(&key(*k), Some(b"v")))? } else { ok("sub put", sub.put(&key(*k), Some(b"v")))? };
                header.get_or_insert_with(|| plain.clone());
                if first.is_empty() {
                    first = "put";
                }
                data += 1;
                if r.1 != data {
                    return Err(format!("put number {data} got log index {}", r.1));
                }
            }
            HOp::RefusedPut(how, k) => {
                if how % 2 == 0 {
                    ok("put cas", hb.put_compare_and_swap(&key(*k), None, |_, _| false))?;
                } else {
                    ok("sub put cas", sub.put_compare_and_swap(&key(*k), None, |_, _| false))?;
                }
                // a refused put may or may not have set up an empty log
                if log.len() == 1 && header.is_none() {
                    header = Some(plain.clone());
                    first = "refused put";
                }
            }
            HOp::Del(how, k) => {
                let r = if how % 2 == 0 { ok("del", hb.del(&key(*k)))? } else { ok("sub del", sub.del(&key(*k)))? };
                data += u64::from(r.is_some());
            }
            HOp::RefusedDel(how, k) => {
                if how % 2 == 0 {
                    ok("del cas", hb.del_compare_and_swap(&key(*k), |_| false))?;
                } else {
                    ok("sub del cas", sub.del_compare_and_swap(&key(*k), |_| false))?;
                }
            }
            HOp::Get(how, k) => {
                let r = if how % 2 == 0 { ok("get", hb.get(&key(*k)))? } else { ok("sub get", sub.get(&key(*k)))? };
                if data == 0 && r.is_some() {
                    return Err("get found an entry in a tree without any".into());
                }
                early_reads += u32::from(before == 0);
            }
            HOp::Traverse(rev) => {
                let conf = Range::all(rev % 2 == 0).conf();
                let r = maybe("traverse", async { hb.traverse(conf).await.map(|_| ()) })?;
                if data > 0 {
                    r.map_err(|e| format!("traverse: {}", err_text(&e)))?;
                }
                early_reads += u32::from(before == 0);
            }
            HOp::Views => {
                let h = ok("height", hb.height())?;
                if (h == 0) != (data == 0) {
                    return Err(format!("height {h} after {data} writes"));
                }
                let _ = maybe("print", hb.print())?;
                exec::run(hb.version()).map_err(|h| h.0)?;
            }
            HOp::Reopen(i) => {
                let i = *i as usize % hs.len();
                hs[i] = open()?;
            }
            HOp::Handle(i) => cur = *i as usize % hs.len(),
        }
        let want = u64::from(header.is_some()) + data;
        if log.len() != want {
            return Err(format!("{op:?}: the log went from {before} to {} blocks, expected {want}", log.len()));
        }
        if let Some(h) = &header {
            let raw = log.block(0).unwrap_or_default();
            let got = wire::decode_header(&raw).map_err(|e| format!("block 0 is no header: {e}"))?;
            if got != *h {
                return Err(format!("block 0 holds the header {got:?}, expected {h:?}"));
            }
        }
    }
    for i in 1..log.len() {
        wire::decode_block(&log.block(i).unwrap_or_default()).map_err(|e| format!("block {i} is not a tree block: {e}"))?;
    }
    cx.hit(&format!("header first written by {}", if first.is_empty() { "nobody" } else { first }));
    cx.add("create_header refused", refused_creates);
    cx.add("reads on an empty log", early_reads as u64);
    cx.nontrivial = header.is_some() && (refused_creates > 0 || early_reads > 0 || header.as_ref().is_some_and(|h| h.metadata.is_some()));
    cx.note = Some(format!("{} operations, header by {first}, {data} writes", c.ops.len()));
    Ok(())
}
pub fn c18_prop() -> Property {
    Property {
        id: "C18",
        level: "exploration",
        rule: "short histories over two handles and a sub-tree on one empty core: create_header with generated metadata, plain and conditional writes, reads, debug views, reopening; block count and the independently decoded header are checked after each step. Non-trivial: a header exists and it carries metadata, or a second creation was refused, or reads came before it.",
        assumptions: &["a refused conditional put on an empty log may leave the default header, as in JavaScript"],
        parts: vec![part("header", 300000, 2000000, strat_c18, c18)],
    }
}

// ---- C20 -------------------------------------------------------------------

fn strat_c20(t: Tier) -> BoxedStrategy<Hist> {
    // printable key spaces: decimal, and shared prefixes made of text
    some_tree(t)
        .prop_map(|mut h| {
            h.keys.kind = match h.keys.kind {
                0 | 1 => 0,
                k => k,
            };
            h
        })
        .boxed()
}
fn c20(h: &Hist, cx: &mut Ctx) -> R<()> {
    let mut d = Duo::new();
    let h0 = ok("height", d.hb.height())?;
    if h0 != 0 {
        return Err(format!("height {h0} of a tree never written"));
    }
    let mut n = 0u32;
    let (mut deep, mut printed) = (0, 0u32);
    let view = |d: &Duo, deep: &mut usize, printed: &mut u32, cx: &mut Ctx| -> R<()> {
        let sh = check_tree(&d.m.raw).expect("the model's tree is valid");
        let got = ok("height", d.hb.height())?;
        if got != sh.height {
            return Err(format!("height() is {got}, the stored tree has {} levels", sh.height));
        }
        *deep = (*deep).max(got);
        if d.m.len() <= 1 {
            return Ok(());
        }
        let got = maybe("print", d.hb.print())?;
        let mut want = Some(String::new());
        for (k, _, depth) in &sh.keys {
            match (String::from_utf8(k.clone()), &mut want) {
                (Ok(s), Some(w)) => *w += &format!("{}{s}\n", "\t".repeat(*depth)),
                _ => want = None,
            }
        }
        match (want, got) {
            // keys that are no text cannot be printed
            (None, _) => {
                cx.hit("not printable");
                Ok(())
            }
            (Some(_), Err(e)) => Err(format!("print: {}", err_text(&e))),
            (Some(w), Ok(g)) => {
                *printed += 1;
                cx.class("emptied tree", sh.keys.is_empty());
                if g != w {
                    let i = w.lines().zip(g.lines()).position(|(a, b)| a != b).unwrap_or(w.lines().count().min(g.lines().count()));
                    return Err(format!("print(): line {i} is {:?}, expected {:?}; {} lines, expected {}", g.lines().nth(i), w.lines().nth(i), g.lines().count(), w.lines().count()));
                }
                Ok(())
            }
        }
    };
    d.go(h, |d, _| {
        n += 1;
        if n < 24 || n % 23 == 0 {
            view(d, &mut deep, &mut printed, cx)?;
        }
        Ok(())
    })?;
    view(&d, &mut deep, &mut printed, cx)?;
    d.hb = bee::open(&d.log)?;
    view(&d, &mut deep, &mut printed, cx)?;
    cx.hit(&format!("height {deep}"));
    cx.nontrivial = deep >= 2 && printed > 0;
    cx.note = Some(format!("{printed} prints compared, height {deep}"));
    Ok(())
}
pub fn c20_prop() -> Property {
    Property {
        id: "C20",
        level: "exploration",
        rule: "histories over several key spaces; height() and print() compared, at many points and on a reopened handle, with the tree decoded independently from the log. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: at least two levels and something printed; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["needs the crate's debug feature; keys that are not UTF-8 cannot be printed and only must not panic"],
        parts: vec![part("views", 15000, 200000, strat_c20, c20), part("tall", 6000, 60000, super::tall::strat, super::tall::c20)],
    }
}

// ---- C21 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReadFaults {
    hist: Hist,
    rounds: Vec<(ReadOp, u16, FaultHow)>,
    cold: Vec<bool>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ReadOp {
    Get(KSel),
    Traverse(RSel),
    SubGet(KSel),
    SubTraverse(bool),
    Height,
    Print,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum FaultHow {
    OnceIo,
    OnceMissing,
    FromIo,
    FromMissing,
    TwoIo(u8),
}
fn strat_c21(t: Tier) -> BoxedStrategy<ReadFaults> {
    let op = prop_oneof![
        3 => gen::ksel().prop_map(ReadOp::Get),
        5 => gen::rsel().prop_map(ReadOp::Traverse),
        1 => gen::ksel().prop_map(ReadOp::SubGet),
        1 => any::<bool>().prop_map(ReadOp::SubTraverse),
        1 => Just(ReadOp::Height),
        1 => Just(ReadOp::Print),
    ];
    let how = prop_oneof![
        2 => Just(FaultHow::OnceIo),
        2 => Just(FaultHow::OnceMissing),
        1 => Just(FaultHow::FromIo),
        1 => Just(FaultHow::FromMissing),
        1 => (1u8..20).prop_map(FaultHow::TwoIo),
    ];
    (
        match t {
            Tier::Quick => gen::hist(160, 14),
            Tier::Thorough => some_tree(t),
        },
        vec((op, any::<u16>(), how), 1..14),
        vec(any::<bool>(), 1..8),
    )
        .prop_map(|(hist, rounds, cold)| ReadFaults { hist, rounds, cold })
        .boxed()
}
/// Poll a stream to its end, errors included. `None`: it did not end within `limit` items.
pub fn drain(
    what: &str,
    s: impl futures_util::Stream<Item = Result<hyperbee::KeyValueData, hyperbee::HyperbeeError>>,
    limit: usize,
) -> R<(Vec<Item>, usize)> {
    let (out, errs, ended) = exec::run(async move {
        let mut s = Box::pin(s);
        let (mut out, mut errs, mut n) = (vec![], 0usize, 0);
        loop {
            match s.next().await {
                None => return (out, errs, true),
                Some(Ok(kv)) => out.push(item(kv)),
                Some(Err(_)) => errs += 1,
            }
            n += 1;
            if n > limit {
                return (out, errs, false);
            }
        }
    })
    .map_err(|h| format!("{what}: hangs ({})", h.0))?;
    if !ended {
        return Err(format!("{what}: did not end after {limit} items ({errs} of them errors)"));
    }
    Ok((out, errs))
}
pub fn subsequence(got: &[Item], want: &[Item]) -> R<()> {
    let mut w = want.iter();
    for g in got {
        if !w.any(|x| x == g) {
            return Err(format!("yielded {} {}, which is wrong, out of order or repeated", show(&g.0), short(&Some((g.1, g.2.clone())))));
        }
    }
    Ok(())
}
const SUB: &[u8] = b"1";
fn c21(c: &ReadFaults, cx: &mut Ctx) -> R<()> {
    let mut m = grow_model(&c.hist);
    // something under a sub-tree too
    for i in 0..12u8 {
        m.put(&[SUB, b"\0", &[b'a' + i]].concat(), Some(&[i]));
    }
    let map = &m.map;
    let shape = check_tree(&m.raw).expect("the model's tree is valid");
    // without keys that cannot be printed
    let printed: Option<String> = shape
        .keys
        .iter()
        .map(|(k, _, depth)| std::str::from_utf8(k).ok().map(|s| format!("{}{s}\n", "\t".repeat(*depth))))
        .collect();
    let sub_map: Map = map
        .iter()
        .filter(|(k, _)| k.starts_with(&[SUB, b"\0"].concat()))
        .map(|(k, e)| (k[SUB.len() + 1..].to_vec(), e.clone()))
        .collect();
    let (mut hb, log) = bee::over(&m.raw)?;
    let (mut fired_n, mut mid) = (0u64, 0u64);
    let limit = 4 * map.len() + 4 * m.raw.len() + 64;
    for (i, (op, at, how)) in c.rounds.iter().enumerate() {
        // how many block reads does it take when nothing fails, from the same state?
        if i == 0 || c.cold[i % c.cold.len()] {
            hb = bee::open(&log)?;
        }
        let probe = bee::open(&log)?;
        let want_get;
        let want_items;
        let run_probe = |hb: &Hyperbee| -> R<(Option<bool>, Vec<Item>, usize)> {
            // (Some(get failed), .., ..) or (None, items, errors)
            match op {
                ReadOp::Print if printed.is_some() => match maybe("print", hb.print())? {
                    Err(_) => Ok((Some(true), vec![], 1)),
                    Ok(x) if Some(&x) == printed.as_ref() => Ok((Some(false), vec![], 0)),
                    Ok(x) => Err(format!("print() gave {} lines, the tree has {} keys", x.lines().count(), map.len())),
                },
                ReadOp::Height | ReadOp::Print => match maybe("height", hb.height())? {
                    Err(_) => Ok((Some(true), vec![], 1)),
                    Ok(x) if x == shape.height => Ok((Some(false), vec![], 0)),
                    Ok(x) => Err(format!("height() gave {x}, the tree has {} levels", shape.height)),
                },
                ReadOp::Get(k) => {
                    let k = k.pick(&c.hist.keys, map);
                    match maybe("get", hb.get(&k))? {
                        Err(_) => Ok((Some(true), vec![], 1)),
                        Ok(x) if x.as_ref() == map.get(&k) => Ok((Some(false), vec![], 0)),
                        Ok(x) => Err(format!("get({}) gave {}, the tree has {}", show(&k), short(&x), short(&map.get(&k).cloned()))),
                    }
                }
                ReadOp::SubGet(k) => {
                    let k = k.pick(&c.hist.keys, &sub_map);
                    match maybe("sub get", hb.sub(SUB, Default::default()).get(&k))? {
                        Err(_) => Ok((Some(true), vec![], 1)),
                        Ok(x) if x.as_ref() == sub_map.get(&k) => Ok((Some(false), vec![], 0)),
                        Ok(x) => Err(format!("sub get({}) gave {}", show(&k), short(&x))),
                    }
                }
                ReadOp::Traverse(r) => {
                    let r = r.pick(&c.hist.keys, map);
                    match maybe("traverse", hb.traverse(r.conf()))? {
                        Err(_) => Ok((None, vec![], 1)),
                        Ok(s) => drain(&format!("traverse {}", show_range(&r)), s, limit).map(|(a, b)| (None, a, b)),
                    }
                }
                ReadOp::SubTraverse(rev) => {
                    let conf = Range::all(*rev).conf();
                    match maybe("sub traverse", hb.sub(SUB, Default::default()).traverse(&conf))? {
                        Err(_) => Ok((None, vec![], 1)),
                        Ok(s) => drain("sub traverse", s, limit).map(|(a, b)| (None, a, b)),
                    }
                }
            }
        };
        match op {
            ReadOp::Traverse(r) => want_items = r.pick(&c.hist.keys, map).want(map),
            ReadOp::SubTraverse(rev) => want_items = Range::all(*rev).want(&sub_map),
            _ => want_items = vec![],
        }
        want_get = !matches!(op, ReadOp::Traverse(_) | ReadOp::SubTraverse(_));
        log.reset_counters();
        let clean = run_probe(&probe)?;
        let reads = log.n_get();
        if clean.2 > 0 {
            return Err(format!("{op:?} fails although the storage works"));
        }
        if !want_get {
            diff_items("without any fault", &clean.1, &want_items)?;
        }
        let nth = if reads == 0 { 0 } else { *at as u64 % reads };
        log.reset_counters();
        match how {
            FaultHow::OnceIo => log.fail_get(nth, Fault::GetIo),
            FaultHow::OnceMissing => log.fail_get(nth, Fault::GetMissing),
            FaultHow::FromIo => log.fail_gets_from(nth, Fault::GetIo),
            FaultHow::FromMissing => log.fail_gets_from(nth, Fault::GetMissing),
            FaultHow::TwoIo(d) => {
                log.fail_get(nth, Fault::GetIo);
                log.fail_get(nth + *d as u64, Fault::GetIo);
            }
        }
        let res = run_probe(&hb);
        let fired = log.faults_fired();
        log.clear_faults();
        let (get_failed, items, errs) = res.map_err(|e| format!("{e} (fault {how:?} at block read {nth} of {reads})"))?;
        let ctx = |e: String| format!("{op:?} with fault {how:?} at block read {nth} of {reads}: {e}");
        if fired > 0 {
            fired_n += 1;
            mid += u64::from(!items.is_empty() && items.len() < want_items.len());
            if errs == 0 {
                return Err(ctx("the storage failed but no error was reported".into()));
            }
        } else if errs > 0 {
            return Err(ctx("an error was reported although no read failed".into()));
        }
        if get_failed.is_none() {
            subsequence(&items, &want_items).map_err(ctx)?;
            if errs == 0 {
                diff_items("without an error", &items, &want_items).map_err(ctx)?;
            }
        }
        // the storage works again: the same handle answers in full
        let again = run_probe(&hb).map_err(|e| format!("after the storage recovered: {e}"))?;
        if again.2 > 0 {
            return Err(ctx("still fails after the storage recovered".into()));
        }
        if !want_get {
            diff_items("after the storage recovered", &again.1, &want_items).map_err(ctx)?;
        }
        cx.hit(match op {
            ReadOp::Get(_) | ReadOp::SubGet(_) => "get",
            _ => "traversal",
        });
    }
    check_scan(&hb, map)?;
    cx.add("faults fired", fired_n);
    cx.add("failed in mid-traversal", mid);
    cx.nontrivial = fired_n > 0 && m.height() >= 2;
    cx.note = Some(format!("{} rounds, {fired_n} with a fault that fired, {} live", c.rounds.len(), map.len()));
    Ok(())
}
pub fn c21_prop() -> Property {
    Property {
        id: "C21",
        level: "fault_enumeration",
        rule: "on trees from generated histories, gets and traversals (also of a sub-tree) are run with one, two or all later block reads failing with an I/O error or a missing block; the failing read is chosen among those the same operation makes on a cold handle. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: a fault fired on a tree of at least two levels; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["faults are injected at hypercore's get; hypercore is the stand-in in /verif/stubs"],
        parts: vec![part("faults", 48000, 300000, strat_c21, c21), part("tall", 6000, 60000, super::tall::strat, super::tall::c21)],
    }
}

// ---- C23 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sparse {
    hist: Hist,
    gets: Vec<KSel>,
    puts: Vec<KSel>,
    ranges: Vec<RSel>,
    #[serde(default)]
    dels: Vec<KSel>,
    /// a sub-tree whose prefix is this much of a live key
    #[serde(default)]
    subs: Vec<(KSel, u8, RSel)>,
    /// of each range, also only so many entries are taken
    #[serde(default)]
    take: u8,
}
fn strat_c23(t: Tier) -> BoxedStrategy<Sparse> {
    (
        some_tree(t),
        vec(gen::ksel(), 1..14),
        vec(gen::ksel(), 0..5),
        vec(gen::rsel(), 0..6),
        vec(gen::ksel(), 0..5),
        vec((gen::ksel(), 0u8..12, gen::rsel()), 0..4),
        0u8..40,
    )
        .prop_map(|(hist, gets, puts, ranges, dels, subs, take)| Sparse { hist, gets, puts, ranges, dels, subs, take })
        .boxed()
}
pub type Blocks = std::collections::BTreeSet<u64>;
/// Blocks of the nodes whose key interval meets the closed range `min..=max`, and of their entries.
pub fn needed(m: &JsBee, min: &B, max: &B, stop_at_match: bool) -> Blocks {
    let mut out = Blocks::new();
    let mut todo = vec![(m.len() - 1, 0u64)];
    while let Some((seq, off)) = todo.pop() {
        let block = m.block(seq);
        let l = &block.levels[off as usize];
        out.insert(seq);
        let keys: Vec<Vec<u8>> = l.keys.iter().map(|k| m.block(*k).key.clone()).collect();
        out.extend(l.keys.iter().copied());
        if stop_at_match && keys.iter().any(|k| min.cmp(k) == Ordering::Equal) {
            continue;
        }
        for (i, ch) in l.children.iter().enumerate() {
            // the child's keys lie between keys[i-1] and keys[i]
            let above_min = keys.get(i).is_none_or(|hi| min.cmp(hi) != Ordering::Greater);
            let below_max = i == 0 || max.cmp(&keys[i - 1]) != Ordering::Less;
            if above_min && below_max {
                todo.push(*ch);
            }
        }
    }
    out
}
/// Blocks a delete of `key` may look at: those of the nodes on the path to the key
/// and, when an inner node holds it, on the paths to its neighbours in key order;
/// of the nodes next to any of these below the same parent; and of all their entries.
pub fn needed_del(m: &JsBee, key: &[u8]) -> Blocks {
    type Ref = (u64, u64);
    let level = |r: Ref| m.block(r.0).levels[r.1 as usize].clone();
    let key_of = |s: u64| m.block(s).key.clone();
    let mut out = Blocks::new();
    fn visit(out: &mut Blocks, level: &dyn Fn(Ref) -> wire::Level, r: Ref) {
        out.insert(r.0);
        out.extend(level(r).keys.iter().copied());
    }
    let step = |out: &mut Blocks, r: Ref, i: usize| -> Ref {
        let ch = level(r).children;
        for j in i.saturating_sub(1)..=(i + 1).min(ch.len() - 1) {
            visit(out, &level, ch[j]);
        }
        ch[i]
    };
    let mut at: Ref = (m.len() - 1, 0);
    visit(&mut out, &level, at);
    loop {
        let l = level(at);
        let i = l.keys.iter().take_while(|k| key_of(**k).as_slice() < key).count();
        if l.children.is_empty() {
            return out;
        }
        if l.keys.get(i).is_some_and(|k| key_of(*k) == key) {
            for (from, rightmost) in [(i, true), (i + 1, false)] {
                let mut a = step(&mut out, at, from);
                while !level(a).children.is_empty() {
                    let j = if rightmost { level(a).children.len() - 1 } else { 0 };
                    a = step(&mut out, a, j);
                }
            }
            return out;
        }
        at = step(&mut out, at, i);
    }
}
/// Nothing can be in it, and which path it looks along is not specified.
pub fn inverted(r: &Range) -> bool {
    match (&r.min, &r.max) {
        (B::Key(a), B::Key(z)) => a > z,
        (a, z) => *a == B::PosInf || *z == B::NegInf,
    }
}
/// The first key after every key that starts with `p`.
pub fn after_prefix(p: &[u8]) -> B {
    let mut p = p.to_vec();
    while let Some(x) = p.pop() {
        if x < 0xff {
            p.push(x + 1);
            return B::Key(p);
        }
    }
    B::PosInf
}
fn c23(c: &Sparse, cx: &mut Ctx) -> R<()> {
    let m = grow_model(&c.hist);
    if m.len() <= 1 {
        return Ok(());
    }
    let map = &m.map;
    let full = SimLog::from_blocks(&m.raw);
    let outside = |what: String, gets: Vec<u64>, ok: &Blocks| -> R<()> {
        match gets.iter().find(|g| !ok.contains(g)) {
            Some(g) => Err(format!("{what} fetched block {g}, which is off its path ({} blocks suffice, it fetched {})", ok.len(), gets.len())),
            None => Ok(()),
        }
    };
    let sparse = |ok: &Blocks| -> SimLog {
        let log = SimLog::from_blocks(&m.raw);
        for i in 0..m.len() {
            if !ok.contains(&i) {
                log.clear(i, i + 1)
            }
        }
        log
    };
    let mut saved = 0u64;
    for k in &c.gets {
        let k = k.pick(&c.hist.keys, map);
        let b = B::Key(k.clone());
        let need = needed(&m, &b, &b, true);
        full.record_gets(true);
        check_get(&bee::open(&full)?, &k, map.get(&k))?;
        outside(format!("get({})", show(&k)), full.take_gets(), &need)?;
        check_get(&bee::open(&sparse(&need))?, &k, map.get(&k)).map_err(|e| format!("with only the blocks on its path present: {e}"))?;
        saved += m.len() - need.len() as u64;
        cx.hit(if map.contains_key(&k) { "hit" } else { "miss" });
    }
    for k in &c.puts {
        let k = k.pick(&c.hist.keys, map);
        let b = B::Key(k.clone());
        let need = needed(&m, &b, &b, true);
        let log = sparse(&need);
        let hb = bee::open(&log)?;
        log.record_gets(true);
        let got = ok("put with only the blocks on its path present", hb.put(&k, Some(b"new")))?;
        outside(format!("put({})", show(&k)), log.take_gets(), &need)?;
        let want = (map.get(&k).map(|e| e.0), m.len());
        if got != want {
            return Err(format!("put({}) on a sparse log returned {got:?}, expected {want:?}", show(&k)));
        }
        cx.hit("put");
    }
    for r in &c.ranges {
        let r = r.pick(&c.hist.keys, map);
        if inverted(&r) {
            continue;
        }
        let need = needed(&m, &r.min, &r.max, false);
        full.record_gets(true);
        let n = check_range(&bee::open(&full)?, &r, map)?;
        outside(format!("traverse {}", show_range(&r)), full.take_gets(), &need)?;
        check_range(&bee::open(&sparse(&need))?, &r, map).map_err(|e| format!("with only the range's blocks present: {e}"))?;
        // taken in part, it reads no further than that
        let want = r.want(map);
        let take = c.take as usize;
        if take < want.len() {
            let hb = bee::open(&full)?;
            full.record_gets(true);
            let got = exec::run(async {
                let st = hb.traverse(r.conf()).await.map_err(|e| err_text(&e))?;
                futures_util::pin_mut!(st);
                let mut out = vec![];
                while out.len() < take {
                    match st.next().await {
                        Some(x) => out.push(item(x.map_err(|e| err_text(&e))?)),
                        None => break,
                    }
                }
                Ok::<_, String>(out)
            })
            .map_err(|h| h.0)??;
            diff_items(&format!("the first {take} of {}", show_range(&r)), &got, &want[..take])?;
            // nothing taken: at most the root was needed
            let upto = B::Key(want[take.saturating_sub(1)].0.clone());
            let part = if r.rev { needed(&m, &upto, &r.max, false) } else { needed(&m, &r.min, &upto, false) };
            outside(format!("taking {take} entries of {}", show_range(&r)), full.take_gets(), &part)?;
            cx.hit("range taken in part");
            cx.class("range taken in part that left some of it unread", part.len() < need.len());
        }
        cx.class("partial range", n < map.len());
        cx.class("range that leaves most of the log unread", (need.len() as u64) * 2 < m.len());
    }
    for k in &c.dels {
        let k = k.pick(&c.hist.keys, map);
        let need = needed_del(&m, &k);
        let log = sparse(&need);
        let hb = bee::open(&log)?;
        log.record_gets(true);
        let got = ok("delete with only the blocks it needs present", hb.del(&k))?;
        outside(format!("del({})", show(&k)), log.take_gets(), &need)?;
        let mut after = m.clone();
        let want = map.get(&k).map(|e| e.0);
        if want.is_some() {
            after.del(&k);
        }
        if got != want {
            return Err(format!("del({}) on a sparse log returned {got:?}, expected {want:?}", show(&k)));
        }
        if want.is_some() && log.block(m.len()).as_deref() != after.raw.last().map(|b| &b[..]) {
            return Err(format!("del({}) on a sparse log wrote another block than on the full one", show(&k)));
        }
        cx.hit("delete");
        cx.class("delete that leaves most of the log unread", (need.len() as u64) * 2 < m.len());
    }
    for (k, n, r) in &c.subs {
        let k = k.pick(&c.hist.keys, map);
        let p = k[..k.len().min(*n as usize)].to_vec();
        let view = view_of(map, &p);
        let r = r.pick(&c.hist.keys, &view);
        if inverted(&r) {
            continue;
        }
        let fullkey = |b: &B, inf: B| match b {
            B::Key(k) => B::Key([&p[..], k].concat()),
            _ => inf,
        };
        let (lo, hi) = (fullkey(&r.min, B::Key(p.clone())), fullkey(&r.max, after_prefix(&p)));
        let need = needed(&m, &lo, &hi, false);
        full.record_gets(true);
        let sub = bee::open(&full)?.sub(&p, PrefixedConfig { seperator: vec![] });
        let got = exec::run(async {
            let st = sub.traverse(&r.conf()).await.map_err(|e| err_text(&e))?;
            futures_util::pin_mut!(st);
            let mut out = vec![];
            while let Some(x) = st.next().await {
                out.push(item(x.map_err(|e| err_text(&e))?));
            }
            Ok::<_, String>(out)
        })
        .map_err(|h| h.0)??;
        let what = format!("sub-tree {} {}", show(&p), show_range(&r));
        diff_items(&what, &got, &r.want(&view))?;
        outside(what, full.take_gets(), &need)?;
        cx.hit("sub-tree");
        cx.class("sub-tree that leaves most of the log unread", (need.len() as u64) * 2 < m.len());
    }
    if m.height() > 0 {
        full.record_gets(true);
        let h = ok("height", bee::open(&full)?.height())?;
        let got: Blocks = full.take_gets().into_iter().collect();
        if h != m.height() || got.len() > h {
            return Err(format!("height() is {h} (stored: {}), having fetched {} blocks", m.height(), got.len()));
        }
    }
    cx.nontrivial = m.height() >= 2 && saved > 0;
    cx.note = Some(format!("{} blocks, height {}, {} lookups", m.len(), m.height(), c.gets.len()));
    Ok(())
}
pub fn c23_prop() -> Property {
    Property {
        id: "C23",
        level: "exploration",
        rule: "on logs from generated histories, the blocks a cold handle fetches for a get, a put, a delete, height, a traversal (whole, taken in part, or of a sub-tree) are recorded and must lie in the set computed from the decoded tree; then the operation is repeated on a sparse copy of the log that has only those blocks. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: at least two levels and blocks off the path exist; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["the boundary path of a bound includes the nodes whose key interval touches it"],
        parts: vec![part("sparse", 24000, 300000, strat_c23, c23), part("tall", 5000, 60000, super::tall::strat, super::tall::c23)],
    }
}
