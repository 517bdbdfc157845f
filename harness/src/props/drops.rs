//! C25: what a tree held is given back when the last of it is dropped.
use super::{
    ffi::{self, net_allocated, write_dir},
    hostile,
    reads::grow_model,
    writes::{view_of, SubOf, Via},
};
use crate::{
    bee::{self, check_scan, err_text, item, show, show_range, Item, Range},
    exec::{self, R},
    gen::{self, Hist, KSel, RSel, V},
    model::{JsBee, Map},
    runner::{part, Ctx, Property, Tier},
};
use futures_util::{Stream, StreamExt};
use hyperbee::{prefixed::{Prefixed, PrefixedConfig}, Hyperbee, HyperbeeError, KeyValueData};
use hypercore::sim::{self, Fault, SimLog};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{path::{Path, PathBuf}, pin::Pin};

/// Something done through a tree or a sub-tree.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Do {
    Get(KSel),
    Put(KSel, V),
    Del(KSel),
    /// a conditional write whose condition says no
    PutNo(KSel),
    DelNo(KSel),
    Scan(RSel),
    Height,
    Print,
    Version,
    Header,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    Plain,
    /// the n-th read or the write of it fails
    Failing(u8),
    /// dropped after this many polls
    Dropped(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DOp {
    Open,
    Sub { of: u8, prefix: u8 },
    Stream { of: u8, r: RSel },
    Pull { of: u8, items: u8 },
    /// poll a stream, leave its next entry pending
    Poll { of: u8, polls: u8 },
    Do { of: u8, what: Do, how: How },
    Drop(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Drops {
    hist: Hist,
    ops: Vec<DOp>,
    yields: Vec<u8>,
    rest: u8,
    order: u8,
    /// open trees from a storage directory
    dir: bool,
}

fn what() -> BoxedStrategy<Do> {
    let k = gen::ksel;
    prop_oneof![
        4 => k().prop_map(Do::Get),
        4 => (k(), gen::small_val()).prop_map(|(k, v)| Do::Put(k, v)),
        5 => k().prop_map(Do::Del),
        1 => k().prop_map(Do::PutNo),
        1 => k().prop_map(Do::DelNo),
        3 => gen::rsel().prop_map(Do::Scan),
        1 => Just(Do::Height),
        1 => Just(Do::Print),
        1 => Just(Do::Version),
        1 => Just(Do::Header),
    ]
    .boxed()
}
fn how() -> BoxedStrategy<How> {
    prop_oneof![4 => Just(How::Plain), 2 => (0u8..8).prop_map(How::Failing), 2 => (1u8..24).prop_map(How::Dropped)].boxed()
}
fn strat(t: Tier) -> BoxedStrategy<Drops> {
    let of = any::<u8>();
    let op = prop_oneof![
        2 => Just(DOp::Open),
        3 => (of, 0u8..4).prop_map(|(of, prefix)| DOp::Sub { of, prefix }),
        4 => (of, gen::rsel()).prop_map(|(of, r)| DOp::Stream { of, r }),
        4 => (of, prop_oneof![3 => 1u8..6, 1 => 6u8..90]).prop_map(|(of, items)| DOp::Pull { of, items }),
        2 => (of, 1u8..12).prop_map(|(of, polls)| DOp::Poll { of, polls }),
        10 => (of, what(), how()).prop_map(|(of, what, how)| DOp::Do { of, what, how }),
        7 => of.prop_map(DOp::Drop),
    ];
    let n = if t == Tier::Quick { 40 } else { 90 };
    let h = prop_oneof![1 => Just(Hist { keys: gen::Keys { kind: 0, n: 20, extra: vec![] }, ops: vec![] }), 5 => gen::hist(90, 10), 3 => gen::grow_drain(20, 160)];
    (h, vec(op, 1..n), vec(0u8..4, 0..6), 0u8..2, any::<u8>(), prop::bool::weighted(0.2))
        .prop_map(|(hist, mut ops, yields, rest, order, dir)| {
            ops.insert(0, DOp::Open);
            Drops { hist, ops, yields, rest, order, dir }
        })
        .boxed()
}

type Items = Pin<Box<dyn Stream<Item = Result<KeyValueData, HyperbeeError>>>>;
struct Open {
    s: Items,
    want: Vec<Item>,
    got: usize,
    ended: bool,
    name: String,
}
impl Open {
    fn take(&mut self, x: Option<Result<KeyValueData, HyperbeeError>>) -> R<()> {
        match x {
            None => {
                self.ended = true;
                if self.got != self.want.len() {
                    return Err(format!("{} ended after {} of {} entries", self.name, self.got, self.want.len()));
                }
            }
            Some(Err(e)) => return Err(format!("{} failed: {}", self.name, err_text(&e))),
            Some(Ok(kv)) => {
                let it = item(kv);
                if self.want.get(self.got) != Some(&it) {
                    return Err(format!("{}: entry {} is {} at {}, expected {:?}", self.name, self.got, show(&it.0), it.1, self.want.get(self.got).map(|w| (show(&w.0), w.1))));
                }
                self.got += 1;
            }
        }
        Ok(())
    }
}
#[allow(clippy::large_enum_variant)]
enum Kind {
    Tree(Hyperbee),
    Sub(Prefixed, Vec<u8>),
    Stream(Open),
}
struct Thing {
    group: usize,
    kind: Kind,
}
/// A tree that was opened, and what is left of it.
struct Group {
    log: Option<SimLog>,
    dir: Option<PathBuf>,
    m: JsBee,
    /// a write was dropped, and there is no telling whether it was made
    unsure: bool,
    things: usize,
}
impl Group {
    fn view(&self) -> &Map {
        &self.m.map
    }
    /// After a write that failed or was dropped: the log tells whether it was made.
    fn settle(&mut self, w: Option<(&[u8], Option<Option<&[u8]>>)>) -> R<()> {
        let Some(log) = &self.log else {
            self.unsure = true;
            return Ok(());
        };
        if self.m.len() == 0 && log.len() == 1 {
            self.m.ensure_header();
        }
        if log.len() > self.m.len() {
            match w {
                Some((k, Some(v))) => {
                    self.m.put(k, v);
                }
                Some((k, None)) => {
                    self.m.del(k);
                }
                None => (),
            }
        }
        if log.blocks() != self.m.raw {
            return Err("a write that failed or was dropped left other blocks than its own".into());
        }
        Ok(())
    }
    fn check_released(&self) -> R<()> {
        if self.things > 0 {
            return Ok(());
        }
        if let Some(log) = &self.log {
            let n = log.holders() - 1;
            if n > 0 {
                return Err(format!("everything of a tree is dropped, and its hypercore is still held ({n} references)"));
            }
        }
        if let Some(d) = &self.dir {
            let n = sim::open_on(d);
            if n > 0 {
                return Err(format!("everything of a tree is dropped, and its storage directory is still open ({n} times)"));
            }
        }
        Ok(())
    }
}

#[derive(Default)]
struct Stats {
    released: u64,
    with_streams: u64,
    after_handle: u64,
    failed: u64,
    cancelled: u64,
}

fn within<T>(what: &str, f: impl std::future::Future<Output = T>) -> R<T> {
    exec::run(f).map_err(|h| format!("{what}: hangs ({})", h.0))
}

fn scenario(c: &Drops, m: &JsBee, dir: Option<&Path>) -> R<Stats> {
    let mut st = Stats::default();
    let mut groups: Vec<Group> = vec![];
    let mut things: Vec<Thing> = vec![];
    let mut stamp = 9_000_000u64;
    let drop_at = |things: &mut Vec<Thing>, groups: &mut Vec<Group>, st: &mut Stats, i: usize| -> R<()> {
        let t = things.remove(i);
        let g = t.group;
        let half_read = matches!(&t.kind, Kind::Stream(o) if !o.ended);
        drop(t);
        groups[g].things -= 1;
        groups[g].check_released()?;
        if groups[g].things == 0 {
            st.released += 1;
            st.with_streams += u64::from(half_read);
        }
        Ok(())
    };
    for op in &c.ops {
        stamp += 1;
        match op {
            DOp::Open => {
                if groups.len() >= 5 {
                    continue;
                }
                let (hb, log, at) = match dir {
                    None => {
                        let log = SimLog::from_blocks(&m.raw);
                        let hb = bee::open(&log)?;
                        log.set_yields(&c.yields, c.rest);
                        (hb, Some(log), None)
                    }
                    Some(d) => {
                        let d = d.join(groups.len().to_string());
                        write_dir(&d, &m.raw);
                        (bee::ok("from_storage_dir", Hyperbee::from_storage_dir(&d))?, None, Some(d))
                    }
                };
                groups.push(Group { log, dir: at, m: m.clone(), unsure: false, things: 1 });
                things.push(Thing { group: groups.len() - 1, kind: Kind::Tree(hb) });
            }
            _ if things.is_empty() => (),
            DOp::Sub { of, prefix } => {
                let i = *of as usize % things.len();
                let Kind::Tree(hb) = &things[i].kind else { continue };
                if things.len() >= 16 {
                    continue;
                }
                let p = [&b""[..], b"k", b"key0", b"k\0"][*prefix as usize % 4].to_vec();
                let s = hb.sub(&p, PrefixedConfig { seperator: vec![] });
                let group = things[i].group;
                groups[group].things += 1;
                things.push(Thing { group, kind: Kind::Sub(s, p) });
            }
            DOp::Stream { of, r } => {
                let i = *of as usize % things.len();
                let group = things[i].group;
                let g = &groups[group];
                if g.m.len() <= 1 || things.len() >= 16 || g.unsure {
                    continue;
                }
                let (s, want, name): (Items, _, _) = match &things[i].kind {
                    Kind::Tree(hb) => {
                        let r = r.pick(&c.hist.keys, g.view());
                        let s = bee::ok("traverse", async { hb.traverse(r.conf()).await.map(|s| Box::pin(s) as Items) })?;
                        (s, r.want(g.view()), format!("the stream {}", show_range(&r)))
                    }
                    Kind::Sub(sub, p) => {
                        let view = view_of(g.view(), p);
                        let r = r.pick(&c.hist.keys, &view);
                        let conf = r.conf();
                        let s = bee::ok("sub traverse", async { sub.traverse(&conf).await.map(|s| Box::pin(s) as Items) })?;
                        (s, r.want(&view), format!("the stream {} of the sub-tree {}", show_range(&r), show(p)))
                    }
                    Kind::Stream(_) => continue,
                };
                groups[group].things += 1;
                things.push(Thing { group, kind: Kind::Stream(Open { s, want, got: 0, ended: false, name }) });
            }
            DOp::Pull { of, items } => {
                let i = *of as usize % things.len();
                let alone = !things.iter().any(|t| t.group == things[i].group && matches!(t.kind, Kind::Tree(_)));
                let Kind::Stream(o) = &mut things[i].kind else { continue };
                for _ in 0..*items {
                    if o.ended {
                        break;
                    }
                    let x = within(&o.name, o.s.next())?;
                    o.take(x)?;
                    st.after_handle += u64::from(alone);
                }
            }
            DOp::Poll { of, polls } => {
                let i = *of as usize % things.len();
                let Kind::Stream(o) = &mut things[i].kind else { continue };
                if !o.ended {
                    let x = exec::run_then_drop(o.s.next(), *polls as u64).map_err(|h| format!("{}: hangs ({})", o.name, h.0))?;
                    if let Some(x) = x {
                        o.take(x)?;
                    }
                }
            }
            DOp::Do { of, what, how } => {
                let i = *of as usize % things.len();
                let group = things[i].group;
                let alone = !things.iter().any(|t| t.group == group && matches!(t.kind, Kind::Tree(_)));
                let g = &mut groups[group];
                let via = match &things[i].kind {
                    Kind::Tree(h) => Via::Main(h),
                    Kind::Sub(s, p) => Via::Sub(SubOf::Of(s), p.clone()),
                    Kind::Stream(_) => continue,
                };
                let hb = if let Kind::Tree(h) = &things[i].kind { Some(h) } else { None };
                act(&via, hb, g, c, what, how, stamp, &mut st)?;
                st.after_handle += u64::from(alone);
            }
            DOp::Drop(of) => {
                let i = *of as usize % things.len();
                drop_at(&mut things, &mut groups, &mut st, i)?
            }
        }
    }
    // the rest, in some order
    let mut r = c.order as usize;
    while !things.is_empty() {
        let i = r % things.len();
        r = r / 2 + 97;
        drop_at(&mut things, &mut groups, &mut st, i)?;
    }
    Ok(st)
}

#[allow(clippy::too_many_arguments)]
fn act(via: &Via, hb: Option<&Hyperbee>, g: &mut Group, c: &Drops, what: &Do, how: &How, stamp: u64, st: &mut Stats) -> R<()> {
    let prefix = via.full(b"");
    let view = view_of(g.view(), &prefix);
    let view = if prefix.is_empty() { g.view().clone() } else { view };
    let pick = |k: &KSel| k.pick(&c.hist.keys, &view);
    let empty = g.m.len() <= 1;
    if let (How::Failing(n), Some(log)) = (how, &g.log) {
        log.reset_counters();
        log.fail_get(*n as u64, if n % 2 == 0 { Fault::GetIo } else { Fault::GetMissing });
        if n % 3 == 0 {
            log.fail_append(0, Fault::AppendIo);
        }
    }
    // `None`: the operation was dropped
    macro_rules! run {
        ($name:expr, $f:expr) => {
            match how {
                How::Dropped(n) => exec::run_then_drop($f, *n as u64).map_err(|h| format!("{}: hangs ({})", $name, h.0))?,
                _ => Some(within($name, $f)?),
            }
        };
    }
    /// did it succeed, fail, or was it dropped
    fn note<T>(r: Option<Result<T, HyperbeeError>>, how: &How, st: &mut Stats, what: &str) -> R<Option<T>> {
        match (r, how) {
            (None, _) => {
                st.cancelled += 1;
                Ok(None)
            }
            (Some(Ok(x)), _) => Ok(Some(x)),
            (Some(Err(_)), How::Failing(_)) => {
                st.failed += 1;
                Ok(None)
            }
            (Some(Err(e)), _) => Err(format!("{what}: unexpected error: {}", err_text(&e))),
        }
    }
    match what {
        Do::Get(k) => {
            let k = pick(k);
            let r = run!("get", via.get(&k));
            if let Some(got) = note(r, how, st, "get")? {
                let want = g.m.map.get(&via.full(&k)).cloned();
                if !g.unsure && got != want {
                    return Err(format!("get({}) gave {}, expected {}", show(&k), bee::short(&got), bee::short(&want)));
                }
            }
        }
        Do::Put(k, v) => {
            let (k, v) = (pick(k), v.bytes(stamp));
            let r = run!("put", via.put(&k, v.as_deref()));
            match note(r, how, st, "put")? {
                Some(got) if !g.unsure => {
                    let want = g.m.put(&via.full(&k), v.as_deref());
                    if got != want {
                        return Err(format!("put({}) returned {got:?}, expected {want:?}", show(&k)));
                    }
                }
                _ => g.settle(Some((&via.full(&k), Some(v.as_deref()))))?,
            }
        }
        Do::Del(k) => {
            let k = pick(k);
            let r = run!("del", via.del(&k));
            match note(r, how, st, "del")? {
                Some(got) if !g.unsure => {
                    let want = g.m.del(&via.full(&k));
                    if got != want {
                        return Err(format!("del({}) returned {got:?}, expected {want:?}", show(&k)));
                    }
                }
                _ => g.settle(Some((&via.full(&k), None)))?,
            }
        }
        Do::PutNo(k) => {
            let k = pick(k);
            let r = run!("put_compare_and_swap", via.put_cas(&k, Some(b"no"), Box::new(|_, _| false)));
            note(r, how, st, "put_compare_and_swap")?;
            if g.m.len() == 0 {
                g.settle(None)?;
            }
        }
        Do::DelNo(k) => {
            let k = pick(k);
            let r = run!("del_compare_and_swap", via.del_cas(&k, Box::new(|_| false)));
            note(r, how, st, "del_compare_and_swap")?;
            if g.m.len() == 0 {
                g.settle(None)?;
            }
        }
        Do::Scan(_) if empty => (),
        Do::Scan(r) => {
            let range = r.pick(&c.hist.keys, &view);
            let r = run!("traverse", all(via, &range));
            if let Some(got) = note(r, how, st, "traverse")? {
                if !g.unsure {
                    bee::diff_items("traverse", &got, &range.want(&view))?;
                }
            }
        }
        Do::Height => {
            if let (Some(h), false) = (hb, empty) {
                note(run!("height", h.height()), how, st, "height")?;
            }
        }
        Do::Print => {
            if let (Some(h), false) = (hb, empty) {
                // not for keys that are not text
                let _ = run!("print", h.print());
            }
        }
        Do::Version => {
            if let Some(h) = hb {
                let v = run!("version", h.version());
                if v.is_some_and(|v| !g.unsure && v != g.m.len()) {
                    return Err(format!("version() is {v:?}, expected {}", g.m.len()));
                }
            }
        }
        Do::Header => {
            if let Some(h) = hb {
                let r = run!("create_header", h.create_header(None));
                if g.m.len() == 0 {
                    g.settle(None)?;
                } else if matches!(r, Some(Ok(_))) && !g.unsure {
                    return Err("create_header succeeded on a tree that has one".into());
                }
            }
        }
    }
    if let Some(log) = &g.log {
        log.clear_faults();
    }
    Ok(())
}
async fn all(via: &Via<'_>, r: &Range) -> Result<Vec<Item>, HyperbeeError> {
    let conf = r.conf();
    let mut s: Pin<Box<dyn Stream<Item = Result<KeyValueData, HyperbeeError>> + '_>> = match via {
        Via::Main(h) => Box::pin(h.traverse(conf).await?),
        Via::Sub(s, _) => Box::pin(s.traverse(&conf).await?),
    };
    let mut out = vec![];
    while let Some(x) = s.next().await {
        out.push(item(x?));
    }
    Ok(out)
}

// ---- everything dropped, in any order ---------------------------------------

fn scratch(c: &Drops) -> Option<tempfile::TempDir> {
    c.dir.then(|| tempfile::tempdir().expect("scratch"))
}
fn dropped(c: &Drops, cx: &mut Ctx) -> R<()> {
    let m = grow_model(&c.hist);
    let tmp = scratch(c);
    let st = scenario(c, &m, tmp.as_ref().map(|t| t.path()))?;
    cx.add("trees released", st.released);
    cx.add("trees whose last holder was a stream with entries to come", st.with_streams);
    cx.add("uses of sub-trees and streams whose tree was dropped", st.after_handle);
    cx.add("operations that failed", st.failed);
    cx.add("operations dropped while pending", st.cancelled);
    cx.class("from a storage directory", c.dir);
    cx.nontrivial = m.len() > 10 && st.released > 0 && (st.after_handle > 0 || st.cancelled + st.failed > 0);
    cx.note = Some(format!("{} trees released, {} uses after the tree was dropped, {} failed, {} cancelled", st.released, st.after_handle, st.failed, st.cancelled));
    Ok(())
}

// ---- the same again and again -------------------------------------------------

/// How often the same is done before memory is looked at, and after.
const WARM: usize = 3;
const ROUNDS: usize = 6;
/// Do the same several times; report how much more memory is in use after each of the last ones,
/// when it is more every time.
pub fn grows(mut round: impl FnMut() -> R<()>) -> R<()> {
    for _ in 0..WARM {
        round()?;
    }
    let mut by = vec![];
    let mut at = net_allocated();
    for _ in 0..ROUNDS {
        round()?;
        let now = net_allocated();
        if now <= at {
            return Ok(());
        }
        by.push(now - at);
        at = now;
    }
    Err(format!("memory in use grows each time the same is done: by {} bytes", by.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ")))
}
fn again(c: &Drops, cx: &mut Ctx) -> R<()> {
    let m = grow_model(&c.hist);
    let mut last = Stats::default();
    grows(|| {
        let tmp = scratch(c);
        last = scenario(c, &m, tmp.as_ref().map(|t| t.path()))?;
        Ok(())
    })
    .map_err(|e| format!("opening trees, using and dropping them: {e}"))?;
    cx.nontrivial = m.len() > 10 && last.released > 0;
    cx.note = Some(format!("{} blocks, {} trees released each time", m.len(), last.released));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reads {
    hist: Hist,
    /// what, and whether through a sub-tree of its own
    ops: Vec<(Do, How, bool)>,
    yields: Vec<u8>,
    rest: u8,
}
fn strat_reads(t: Tier) -> BoxedStrategy<Reads> {
    let k = gen::ksel;
    let read = prop_oneof![
        4 => k().prop_map(Do::Get),
        4 => gen::rsel().prop_map(Do::Scan),
        2 => k().prop_map(Do::PutNo),
        2 => k().prop_map(Do::DelNo),
        1 => Just(Do::Height),
        1 => Just(Do::Print),
        1 => Just(Do::Version),
        1 => Just(Do::Header),
    ];
    let n = if t == Tier::Quick { 12 } else { 30 };
    (
        prop_oneof![1 => gen::hist(20, 6), 3 => gen::hist(120, 10), 2 => gen::grow_drain(20, 160)],
        vec((read, how(), prop::bool::weighted(0.3)), 1..n),
        vec(0u8..4, 0..6),
        0u8..2,
    )
        .prop_map(|(hist, ops, yields, rest)| Reads { hist, ops, yields, rest })
        .boxed()
}
/// On one handle that has read everything, operations that change nothing.
fn reads(c: &Reads, cx: &mut Ctx) -> R<()> {
    let mut m = grow_model(&c.hist);
    m.ensure_header();
    let log = SimLog::from_blocks(&m.raw);
    let hb = bee::open(&log)?;
    let mut st = Stats::default();
    let all = Drops { hist: c.hist.clone(), ops: vec![], yields: vec![], rest: 0, order: 0, dir: false };
    // what is yet to be read is kept, however often reading it fails before
    if m.has_root() {
        check_scan(&hb, &m.map)?;
    }
    let mut g = Group { log: Some(log.clone()), dir: None, m, unsure: false, things: 1 };
    let mut n = 0u64;
    grows(|| {
        log.set_yields(&c.yields, c.rest);
        for (what, how, sub) in &c.ops {
            let s = hb.sub(b"k", PrefixedConfig { seperator: vec![] });
            let via = if *sub { Via::Sub(SubOf::Of(&s), b"k".to_vec()) } else { Via::Main(&hb) };
            act(&via, (!*sub).then_some(&hb), &mut g, &all, what, how, 1, &mut st)?;
            n += 1;
        }
        Ok(())
    })
    .map_err(|e| format!("reading the same from one tree: {e}"))?;
    cx.add("reads", n);
    cx.nontrivial = g.m.len() > 10 && c.ops.len() > 1;
    cx.note = Some(format!("{} blocks, {n} operations, {} cancelled", g.m.len(), st.cancelled));
    Ok(())
}

// ---- logs that are damaged ------------------------------------------------------

fn damaged(c: &hostile::Mutated, cx: &mut Ctx) -> R<()> {
    let (log, keys, m) = hostile::damaged_log(c);
    let before = log.holders();
    let r = hostile::exercise(&log, keys, &m.map, c.uses(), cx);
    let after = log.holders();
    if after != before {
        return Err(format!("a damaged log was opened, used and dropped, and is still held ({} references)", after - before));
    }
    // what it answered is for another check
    if let Ok(seen) = r {
        cx.nontrivial = seen.errors > 0;
        cx.note = Some(format!("{} failed, {} answered", seen.errors, seen.fine));
    }
    Ok(())
}

pub fn c25_prop() -> Property {
    std::env::set_var("TOKIO_WORKER_THREADS", "1");
    Property {
        id: "C25",
        level: "exploration",
        rule: "several trees are opened over logs of generated histories (also from storage directories), used through handles, sub-trees and streams, with reads and writes that succeed, fail or are dropped while pending, and everything is dropped in a generated order; results are compared with the reference map throughout, also where the handle is gone, and when the last of a tree is dropped nothing may hold its hypercore. A second part does the same again and again, a third repeats operations that change nothing on one handle, and memory in use (exact, per thread) must not be more after each; a fourth does it over damaged logs, a fifth opens, looks up and closes through the C symbols, a sixth does that again and again, counting also what the answering thread allocates. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: more than ten blocks, a tree released, and a use after the handle was dropped or an operation that failed or was dropped; for damaged logs: an operation failed; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["hypercore is the offline stand-in in /verif/stubs"],
        parts: vec![
            part("drops", 56_000, 500_000, strat, dropped),
            part("again", 8_000, 80_000, strat, again),
            part("reads", 12_000, 120_000, strat_reads, reads),
            part("damaged", 20_000, 200_000, hostile::strat_mutated, damaged),
            part("closed", 4_000, 40_000, ffi::strat, ffi::closed),
            part("c-again", 2_000, 20_000, ffi::strat, ffi::c_again),
            part("tall", 4000, 40_000, super::tall::strat, super::tall::c25),
        ],
    }
}
