//! C10, C11: concurrent operations on one handle, and iterators that stay open.
use crate::{
    bee::{self, *},
    exec::{self, R},
    gen::{self, Hist, KSel, RSel, V},
    model::{JsBee, Map},
    props::reads::grow_model,
    props::writes::*,
    runner::{part, Ctx, Property, Tier},
    wire,
};
use futures_util::{Stream, StreamExt};
use hyperbee::{Hyperbee, HyperbeeError, KeyValueData, Metadata};
use hypercore::sim::SimLog;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, collections::BTreeMap, pin::Pin};

// ---- C10 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    W(WOp),
    Get(KSel),
    Scan(RSel),
    Version,
    Height,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conc {
    hist: Hist,
    /// operations of each task; `true`: through the sub-tree
    tasks: Vec<Vec<(bool, TOp)>>,
    /// pick this task (modulo the runnable ones) for so many polls
    picks: Vec<(u8, u8)>,
    yields: Vec<u8>,
    rest: u8,
    /// key choices are taken modulo this, so that tasks collide
    focus: u16,
    warm: bool,
    /// which tasks read through a second handle on the same core (a bit each)
    #[serde(default)]
    other: u8,
}
fn focus(k: &KSel, f: u16) -> KSel {
    let m = |i: u16| i % f.max(1);
    match k {
        KSel::Space(i) => KSel::Space(m(*i)),
        KSel::Live(i) => KSel::Live(m(*i)),
        KSel::After(i) => KSel::After(m(*i)),
        KSel::Cut(i) => KSel::Cut(m(*i)),
        KSel::Bump(i, b) => KSel::Bump(m(*i), *b),
        KSel::Long(i) => KSel::Long(m(*i)),
        KSel::Raw(k) => KSel::Raw(k.clone()),
    }
}
fn strat_c10(t: Tier) -> BoxedStrategy<Conc> {
    let op = prop_oneof![
        10 => wop().prop_map(TOp::W),
        1 => Just(TOp::W(WOp::Header)),
        3 => gen::ksel().prop_map(TOp::Get),
        3 => gen::rsel().prop_map(TOp::Scan),
        1 => Just(TOp::Version),
        1 => Just(TOp::Height),
    ];
    let (tasks, len) = if t == Tier::Quick { (5, 8) } else { (8, 14) };
    let task = vec((prop::bool::weighted(0.3), op), 1..len);
    let h = prop_oneof![2 => gen::hist(60, 6), 2 => gen::hist(200, 10), 1 => gen::grow_drain(30, 200)];
    let empty = gen::keys(40).prop_map(|keys| Hist { keys, ops: vec![] });
    (
        prop_oneof![1 => empty, 5 => h],
        vec(task, 2..=tasks),
        vec((any::<u8>(), prop_oneof![3 => 1u8..4, 1 => 4u8..60]), 1..60),
        vec(0u8..4, 0..10),
        0u8..3,
        prop_oneof![1u16..6, 6u16..40, Just(u16::MAX)],
        any::<bool>(),
        prop_oneof![3 => Just(0u8), 1 => any::<u8>()],
    )
        .prop_map(|(hist, tasks, picks, yields, rest, focus, warm, other)| Conc { hist, tasks, picks, yields, rest, focus, warm, other })
        .boxed()
}

#[derive(Debug)]
enum Got {
    Put(Option<u64>, u64),
    Del(Option<u64>),
    PutCas(Vec<(Option<Item>, Item)>, (Option<u64>, Option<u64>)),
    DelCas(Vec<Item>, Option<(bool, u64)>),
    Header(bool),
    Get(Option<(u64, Option<Vec<u8>>)>),
    Scan(Option<Vec<Item>>),
    Version(u64),
    Height(usize),
}
struct Rec {
    /// the log's length when the operation was called and when it returned
    len: (u64, u64),
    /// the blocks the task had appended by then
    mine: (usize, usize),
    got: Result<Got, HyperbeeError>,
}
struct Plan {
    sub: bool,
    op: TOp,
    key: Vec<u8>,
    full: Vec<u8>,
    value: Option<Vec<u8>>,
    range: Range,
}


/// Reads go to the second handle in the tasks that `other` names.
struct Handles {
    hb: Hyperbee,
    second: Hyperbee,
    other: u8,
}
async fn run_task(hs: &Handles, log: &SimLog, me: u64, plan: &[Plan], limit: usize) -> Vec<Rec> {
    let mine = || log.appended().iter().filter(|a| a.actor == me).count();
    let mut out = vec![];
    for p in plan {
        let second = !matches!(p.op, TOp::W(_)) && hs.other >> (me % 8) & 1 > 0;
        let hb = if second { &hs.second } else { &hs.hb };
        let via = via_of(hb, p.sub);
        let (len0, mine0) = (log.len(), mine());
        let v = p.value.as_deref();
        let got = match &p.op {
            TOp::W(WOp::Put(..)) => via.put(&p.key, v).await.map(|(a, b)| Got::Put(a, b)),
            TOp::W(WOp::Del(_)) => via.del(&p.key).await.map(Got::Del),
            TOp::W(WOp::PutCas(_, _, d)) => {
                let seen = RefCell::new(vec![]);
                let f: PutCas = Box::new(|old, new| {
                    seen.borrow_mut().push((old.cloned().map(item), item(new.clone())));
                    d.eval(old.map(|o| o.seq), new.seq)
                });
                let r = via.put_cas(&p.key, v, f).await;
                r.map(|r| Got::PutCas(seen.into_inner(), r))
            }
            TOp::W(WOp::DelCas(_, d)) => {
                let seen = RefCell::new(vec![]);
                let f: DelCas = Box::new(|old| {
                    seen.borrow_mut().push(item(old.clone()));
                    // half of the entry's own index: the same whatever else runs
                    d.eval(Some(old.seq), old.seq + 6)
                });
                let r = via.del_cas(&p.key, f).await;
                r.map(|r| Got::DelCas(seen.into_inner(), r))
            }
            TOp::W(WOp::Header) => match hb.create_header(p.value.clone().map(|v| Metadata { content_feed: Some(v), user_data: None })).await {
                Ok(_) => Ok(Got::Header(true)),
                Err(HyperbeeError::HeaderAlreadyExists) => Ok(Got::Header(false)),
                Err(e) => Err(e),
            },
            TOp::Get(_) => via.get(&p.key).await.map(Got::Get),
            TOp::Scan(_) => {
                async fn all(s: impl Stream<Item = Result<KeyValueData, HyperbeeError>>, limit: usize) -> Result<Got, HyperbeeError> {
                    let mut s = Box::pin(s);
                    let mut out = vec![];
                    while let Some(x) = s.next().await {
                        out.push(item(x?));
                        if out.len() > limit {
                            break;
                        }
                    }
                    Ok(Got::Scan(Some(out)))
                }
                let r = match &via {
                    Via::Main(h) => match h.traverse(p.range.conf()).await {
                        Ok(s) => all(s, limit).await,
                        Err(e) => Err(e),
                    },
                    Via::Sub(s, _) => match s.traverse(&p.range.conf()).await {
                        Ok(s) => all(s, limit).await,
                        Err(e) => Err(e),
                    },
                };
                match r {
                    Err(HyperbeeError::NoRootError) => Ok(Got::Scan(None)),
                    r => r,
                }
            }
            TOp::Version => Ok(Got::Version(hb.version().await)),
            TOp::Height => hb.height().await.map(Got::Height),
        };
        out.push(Rec { len: (len0, log.len()), mine: (mine0, mine()), got });
    }
    out
}

fn c10(c: &Conc, cx: &mut Ctx) -> R<()> {
    c10_how(c, cx, false)
}
/// The same on threads of the operating system. Which schedules happen is not
/// ours to say, so each case is run several times; the oracle is the same.
fn c10_threads(c: &Conc, cx: &mut Ctx) -> R<()> {
    for _ in 0..4 {
        c10_how(c, cx, true)?;
    }
    Ok(())
}
fn on_threads(hs: &Handles, log: &SimLog, plans: &[Vec<Plan>], limit: usize) -> R<Vec<Vec<Rec>>> {
    let start = std::sync::Barrier::new(plans.len());
    std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let start = &start;
                s.spawn(move || {
                    SimLog::set_thread_actor(Some(i as u64));
                    start.wait();
                    futures_lite::future::block_on(run_task(hs, log, i as u64, p, limit))
                })
            })
            .collect();
        let rs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        rs.into_iter()
            .enumerate()
            .map(|(i, r)| {
                r.map_err(|e| {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                    format!("task {i} panics: {}", m.unwrap_or_default())
                })
            })
            .collect()
    })
}
fn c10_how(c: &Conc, cx: &mut Ctx, threads: bool) -> R<()> {
    let mut m = grow_model(&c.hist);
    let log = SimLog::from_blocks(&m.raw);
    let shared = hypercore::replication::SharedCore::from(bee::core_of(&log));
    let open = || Hyperbee::from_hypercore(shared.clone()).map_err(|e| format!("from_hypercore: {e}"));
    let hs = Handles { hb: open()?, second: open()?, other: c.other };
    if c.warm {
        check_scan(&hs.hb, &m.map)?;
        check_scan(&hs.second, &m.map)?;
    }
    let views = [m.map.clone(), view_of(&m.map, SUB)];
    let mut stamp = 3_000_000u64;
    let plans: Vec<Vec<Plan>> = c
        .tasks
        .iter()
        .map(|t| {
            t.iter()
                .map(|(sub, op)| {
                    stamp += 1;
                    let sub = *sub && !matches!(op, TOp::W(WOp::Header));
                    let view = &views[usize::from(sub)];
                    let (mut key, mut value, mut range) = (vec![], None, Range::all(false));
                    let f = c.focus;
                    match op {
                        TOp::W(WOp::Header) => value = Some(stamp.to_string().into_bytes()).filter(|_| stamp % 2 == 0),
                        TOp::W(WOp::Put(k, v)) | TOp::W(WOp::PutCas(k, v, _)) => {
                            key = focus(k, f).pick(&c.hist.keys, view);
                            value = v.bytes(stamp);
                        }
                        TOp::W(WOp::Del(k)) | TOp::W(WOp::DelCas(k, _)) | TOp::Get(k) => key = focus(k, f).pick(&c.hist.keys, view),
                        TOp::Scan(r) => range = r.pick(&c.hist.keys, view),
                        _ => (),
                    }
                    let full = if sub { [SUB, &key].concat() } else { key.clone() };
                    Plan { sub, op: op.clone(), key, full, value, range }
                })
                .collect()
        })
        .collect();
    log.set_yields(&c.yields, c.rest);
    let n_ops: usize = c.tasks.iter().map(Vec::len).sum();
    let limit = m.map.len() + n_ops + 8;
    let mut switches = 0u64;
    let recs: Vec<Vec<Rec>> = if threads {
        on_threads(&hs, &log, &plans, limit)?
    } else {
        let tasks: Vec<exec::Task<Vec<Rec>>> = plans
            .iter()
            .enumerate()
            .map(|(i, p)| Box::pin(run_task(&hs, &log, i as u64, p, limit)) as exec::Task<Vec<Rec>>)
            .collect();
        let (mut at, mut left) = (0usize, 0u8);
        let mut last = usize::MAX;
        let done = exec::run_scheduled(
            tasks,
            |ready| {
                if left == 0 {
                    at += 1;
                    left = c.picks[at % c.picks.len()].1.max(1);
                }
                left -= 1;
                c.picks[at % c.picks.len()].0 as usize % ready.len()
            },
            |task, step| {
                log.set_actor(task as u64);
                log.set_clock(step);
                if task != last {
                    switches += 1;
                    last = task;
                }
            },
            2_000_000,
        )
        .map_err(|h| h.0)?;
        done.into_iter().map(|d| d.out).collect()
    };
    log.set_yields(&[], 0);
    log.set_actor(u64::MAX);
    // which operation wrote which block
    let mut owner: BTreeMap<u64, (usize, usize)> = BTreeMap::new();
    let appended = log.appended();
    for (t, rs) in recs.iter().enumerate() {
        let mine: Vec<u64> = appended.iter().filter(|a| a.actor == t as u64).map(|a| a.seq).collect();
        for (i, r) in rs.iter().enumerate() {
            for s in &mine[r.mine.0..r.mine.1] {
                owner.insert(*s, (t, i));
            }
        }
    }
    let name = |t: usize, i: usize| {
        let p = &plans[t][i];
        format!("task {t} operation {i} ({:?} {}{})", p.op, if p.sub { "sub " } else { "" }, show(&p.full))
    };
    // replay the log in its own order
    let start = m.len();
    let mut maps: BTreeMap<u64, Map> = BTreeMap::new();
    let mut heights: BTreeMap<u64, usize> = BTreeMap::new();
    maps.insert(start, m.map.clone());
    heights.insert(start, m.height());
    for s in start..log.len() {
        let Some(&(t, i)) = owner.get(&s) else {
            return Err(format!("block {s} was written outside any operation"));
        };
        let (p, r) = (&plans[t][i], &recs[t][i]);
        let who = name(t, i);
        let got = r.got.as_ref().map_err(|e| format!("{who} wrote block {s} and failed: {}", err_text(e)))?;
        if s == 0 {
            let want = match (&p.op, got) {
                (TOp::W(WOp::Header), Got::Header(true)) => p.value.clone().map(Some),
                (TOp::W(WOp::Put(..) | WOp::PutCas(..)), _) => None,
                _ => return Err(format!("{who} wrote the header")),
            };
            let raw = log.block(0).unwrap_or_default();
            let h = wire::decode_header(&raw).map_err(|e| format!("{who}: bad header: {e}"))?;
            let got_meta = h.metadata.map(|m| m.0);
            if h.protocol != b"hyperbee" || got_meta != want {
                return Err(format!("{who}: the header is {:?} {got_meta:?}, expected hyperbee {want:?}", h.protocol));
            }
            m.push_header(raw);
        } else {
            let cur = m.map.get(&p.full).map(|(q, v)| (p.full.clone(), *q, v.clone()));
            let old = cur.as_ref().map(|c| c.1);
            let new = (p.full.clone(), s, p.value.clone());
            let bad = |w: String| Err(format!("{who} wrote block {s} but returned {got:?}; in log order it should give {w}"));
            match (&p.op, got) {
                (TOp::W(WOp::Put(..)), Got::Put(a, b)) => {
                    if (*a, *b) != (old, s) {
                        return bad(format!("{:?}", (old, s)));
                    }
                    m.put(&p.full, p.value.as_deref());
                }
                (TOp::W(WOp::PutCas(..)), Got::PutCas(seen, res)) => {
                    if *res != (old, Some(s)) || *seen != vec![(cur.clone(), new.clone())] {
                        return bad(format!("{:?} with the condition called on {:?}", (old, s), (cur, new)));
                    }
                    m.put(&p.full, p.value.as_deref());
                }
                (TOp::W(WOp::Del(_)), Got::Del(a)) => {
                    if old.is_none() || *a != old {
                        return bad(format!("{old:?}"));
                    }
                    m.del(&p.full);
                }
                (TOp::W(WOp::DelCas(..)), Got::DelCas(seen, res)) => {
                    let Some(cur) = cur else { return bad("nothing".into()) };
                    if *res != Some((true, cur.1)) || *seen != vec![cur.clone()] {
                        return bad(format!("{cur:?}"));
                    }
                    m.del(&p.full);
                }
                _ => return Err(format!("{who} wrote block {s}, returning {got:?}")),
            }
            let raw = log.block(s).unwrap_or_default();
            if raw != m.raw[s as usize] {
                return Err(format!(
                    "{who}: block {s} is {:?}; after the blocks before it it should be {:?}",
                    wire::decode_block(&raw),
                    wire::decode_block(&m.raw[s as usize])
                ));
            }
        }
        maps.insert(s + 1, m.map.clone());
        heights.insert(s + 1, m.height());
    }
    // an operation writes one block, and the header at most once in front of it
    let (mut overlapping, mut writes) = (0u64, 0u64);
    for (t, rs) in recs.iter().enumerate() {
        for (i, r) in rs.iter().enumerate() {
            let p = &plans[t][i];
            let who = name(t, i);
            let wrote: Vec<u64> = owner.iter().filter(|(_, o)| **o == (t, i)).map(|(s, _)| *s).collect();
            let got = match &r.got {
                Ok(g) => g,
                Err(e) => return Err(format!("{who} failed: {}", err_text(e))),
            };
            let data = wrote.iter().filter(|s| **s > 0).count();
            if data > 1 {
                return Err(format!("{who} wrote blocks {wrote:?}"));
            }
            overlapping += u64::from(r.len.1 - r.len.0 > wrote.len() as u64);
            writes += data as u64;
            if data == 1 || matches!(got, Got::Header(true)) {
                if wrote.is_empty() {
                    return Err(format!("{who} returned {got:?} but wrote nothing"));
                }
                continue;
            }
            // nothing written: some version current during the call explains the result
            let fits = |v: u64| -> bool {
                let map = &maps[&v];
                let cur = map.get(&p.full).map(|(q, v)| (p.full.clone(), *q, v.clone()));
                match got {
                    Got::Put(..) => false,
                    Got::Del(a) => a.is_none() && cur.is_none(),
                    Got::PutCas(seen, res) => {
                        let at = v.max(1);
                        res.1.is_none() && res.0 == cur.as_ref().map(|c| c.1) && *seen == vec![(cur.clone(), (p.full.clone(), at, p.value.clone()))]
                    }
                    Got::DelCas(seen, res) => match res {
                        None => cur.is_none() && seen.is_empty(),
                        Some((yes, q)) => !yes && cur.as_ref().map(|c| c.1) == Some(*q) && seen.iter().eq(cur.iter()),
                    },
                    Got::Header(yes) => !yes && v > 0,
                    Got::Get(e) => e.as_ref() == map.get(&p.full),
                    Got::Scan(None) => v <= 1,
                    Got::Scan(Some(items)) => {
                        v > 1
                            && *items
                                == if p.sub {
                                    p.range.want(&view_of(map, SUB))
                                } else {
                                    p.range.want(map)
                                }
                    }
                    Got::Version(x) => *x == v,
                    Got::Height(h) => heights[&v] == *h,
                }
            };
            if !(r.len.0..=r.len.1).any(fits) {
                return Err(format!(
                    "{who} returned {}, which no version from {} to {} (those current during the call) explains",
                    crate::runner::trunc(&format!("{got:?}"), 300),
                    r.len.0,
                    r.len.1
                ));
            }
        }
    }
    check_all(&hs.hb, &m.map, &[])?;
    check_all(&hs.second, &m.map, &[]).map_err(|e| format!("second handle: {e}"))?;
    check_scan(&bee::open(&log)?, &m.map)?;
    cx.class("reads through a second handle", c.other.trailing_zeros() < c.tasks.len() as u32);
    cx.add("operations overlapping another's write", overlapping);
    cx.add("writes", writes);
    cx.class("empty at the start", start == 0);
    cx.class("several levels", m.height() >= 2);
    cx.nontrivial = overlapping > 0 && writes >= 2;
    cx.note = Some(format!("{} tasks, {n_ops} operations, {writes} wrote, {switches} switches, {overlapping} overlapped a write", c.tasks.len()));
    Ok(())
}
pub fn c10_prop() -> Property {
    Property {
        id: "C10",
        level: "exploration",
        rule: "2 to 8 tasks of several operations each (puts, deletes, conditional writes, header creation, gets, whole traversals, version, height; main tree and a sub-tree of the same handle; in a quarter of the cases the reads of some tasks go to a second handle on the same core) polled one poll at a time in a generated order, the storage pausing for generated numbers of polls at each access. The log is replayed in its own order on the reference model: every block byte for byte, every writing operation's result and condition argument, and for every other operation some version that was current during its call must explain its result. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: at least two writes, and an operation during whose call another one wrote; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["interleavings are at await points (cooperative scheduling of the futures), as the generated schedule chooses"],
        parts: vec![part("tasks", 60_000, 500_000, strat_c10, c10), part("threads", 3_000, 40_000, strat_c10, c10_threads), part("tall", 8000, 60000, super::tall::strat_tasks, super::tall::c10)],
    }
}

// ---- C11 -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SnapOp {
    Open { r: RSel, sub: bool },
    /// poll stream `i` for up to `items` entries
    Pull { i: u8, items: u8 },
    /// poll stream `i` this many times and leave it waiting
    Poll { i: u8, polls: u8 },
    Close(u8),
    Put { k: KSel, v: V, sub: bool, other: bool },
    Del { k: KSel, sub: bool, other: bool },
    /// delete (`true`) or insert around a key, many at once
    Bulk { at: u16, n: u8, del: bool },
    Scan(RSel),
    Get(KSel),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Snaps {
    hist: Hist,
    ops: Vec<SnapOp>,
    yields: Vec<u8>,
    rest: u8,
    warm: bool,
}
fn strat_c11(t: Tier) -> BoxedStrategy<Snaps> {
    let op = prop_oneof![
        4 => (gen::rsel(), prop::bool::weighted(0.25)).prop_map(|(r, sub)| SnapOp::Open { r, sub }),
        6 => (any::<u8>(), prop_oneof![4 => 1u8..5, 1 => 5u8..60]).prop_map(|(i, items)| SnapOp::Pull { i, items }),
        2 => (any::<u8>(), 1u8..30).prop_map(|(i, polls)| SnapOp::Poll { i, polls }),
        1 => any::<u8>().prop_map(SnapOp::Close),
        4 => (gen::ksel(), gen::val(), prop::bool::weighted(0.2), prop::bool::weighted(0.15)).prop_map(|(k, v, sub, other)| SnapOp::Put { k, v, sub, other }),
        5 => (gen::ksel(), prop::bool::weighted(0.2), prop::bool::weighted(0.15)).prop_map(|(k, sub, other)| SnapOp::Del { k, sub, other }),
        3 => (any::<u16>(), 1u8..24, prop::bool::weighted(0.6)).prop_map(|(at, n, del)| SnapOp::Bulk { at, n, del }),
        1 => gen::rsel().prop_map(SnapOp::Scan),
        1 => gen::ksel().prop_map(SnapOp::Get),
    ];
    let n = if t == Tier::Quick { 40 } else { 90 };
    let h = prop_oneof![3 => gen::hist(200, 10), 2 => gen::grow_drain(30, 240)];
    (h, gen::rsel(), vec(op, 2..n), vec(0u8..4, 0..8), 0u8..2, any::<bool>())
        .prop_map(|(hist, r, mut ops, yields, rest, warm)| {
            ops.insert(0, SnapOp::Open { r, sub: false });
            Snaps { hist, ops, yields, rest, warm }
        })
        .boxed()
}
type Items<'a> = Pin<Box<dyn Stream<Item = Result<KeyValueData, HyperbeeError>> + 'a>>;
struct Open<'a> {
    s: Items<'a>,
    want: Vec<Item>,
    got: usize,
    at: u64,
    range: Range,
    ended: bool,
    writes_before: u64,
}
impl Open<'_> {
    fn take(&mut self, x: Option<Result<KeyValueData, HyperbeeError>>) -> R<()> {
        let what = format!("the stream {} opened at version {}", show_range(&self.range), self.at);
        match x {
            None => {
                self.ended = true;
                if self.got != self.want.len() {
                    return Err(format!("{what} ended after {} of {} entries", self.got, self.want.len()));
                }
            }
            Some(Err(e)) => return Err(format!("{what} failed: {}", err_text(&e))),
            Some(Ok(kv)) => {
                let it = item(kv);
                if self.want.get(self.got) != Some(&it) {
                    let f = |x: Option<&Item>| x.map(|x| format!("{} at {} {}", show(&x.0), x.1, short(&Some((x.1, x.2.clone())))));
                    return Err(format!("{what}: entry {} is {:?}, expected {:?}", self.got, f(Some(&it)), f(self.want.get(self.got))));
                }
                self.got += 1;
            }
        }
        Ok(())
    }
    fn pull(&mut self, n: usize) -> R<()> {
        for _ in 0..n {
            if self.ended {
                break;
            }
            let x = exec::run(self.s.next()).map_err(|h| format!("stream {}: hangs ({})", show_range(&self.range), h.0))?;
            self.take(x)?;
        }
        Ok(())
    }
}
fn c11(c: &Snaps, cx: &mut Ctx) -> R<()> {
    let mut m = grow_model(&c.hist);
    let (hb, log) = bee::over(&m.raw)?;
    let other = bee::open(&log)?;
    if c.warm {
        check_scan(&hb, &m.map)?;
    }
    log.set_yields(&c.yields, c.rest);
    let sub_tree = hb.sub(SUB, hyperbee::prefixed::PrefixedConfig { seperator: vec![] });
    let mut open: Vec<Open> = vec![];
    let mut stamp = 4_000_000u64;
    let (mut opened, mut crossed) = (0u64, 0u64);
    let write = |m: &mut JsBee, k: &[u8], v: Option<Option<Vec<u8>>>, sub: bool, oth: bool| -> R<()> {
        let h = if oth { &other } else { &hb };
        let via = via_of(h, sub);
        let full = via.full(k);
        match v {
            Some(v) => {
                let got = ok("put", via.put(k, v.as_deref()))?;
                let want = m.put(&full, v.as_deref());
                if got != want {
                    return Err(format!("put({}) returned {got:?}, expected {want:?}", show(&full)));
                }
            }
            None => {
                let got = ok("del", via.del(k))?;
                let want = m.del(&full);
                if got != want {
                    return Err(format!("del({}) returned {got:?}, expected {want:?}", show(&full)));
                }
            }
        }
        Ok(())
    };
    for op in &c.ops {
        stamp += 1;
        match op {
            SnapOp::Open { r, sub } => {
                if m.len() <= 1 || open.len() >= 6 {
                    continue;
                }
                let view = if *sub { view_of(&m.map, SUB) } else { m.map.clone() };
                let range = r.pick(&c.hist.keys, &view);
                let s: Items = if *sub {
                    Box::pin(ok("sub traverse", async { sub_tree.traverse(&range.conf()).await.map(|s| Box::pin(s) as Items) })?)
                } else {
                    Box::pin(ok("traverse", async { hb.traverse(range.conf()).await.map(|s| Box::pin(s) as Items) })?)
                };
                opened += 1;
                open.push(Open { s, want: range.want(&view), got: 0, at: m.len(), range, ended: false, writes_before: m.len() });
            }
            SnapOp::Pull { i, items } if !open.is_empty() => {
                let i = *i as usize % open.len();
                open[i].pull(*items as usize)?;
            }
            SnapOp::Poll { i, polls } if !open.is_empty() => {
                let i = *i as usize % open.len();
                let o = &mut open[i];
                if !o.ended {
                    let x = exec::run_then_drop(o.s.next(), *polls as u64).map_err(|h| format!("stream: hangs ({})", h.0))?;
                    if let Some(x) = x {
                        o.take(x)?;
                    }
                }
            }
            SnapOp::Close(i) if !open.is_empty() => {
                let i = *i as usize % open.len();
                open.remove(i);
            }
            SnapOp::Pull { .. } | SnapOp::Poll { .. } | SnapOp::Close(_) => (),
            SnapOp::Put { k, v, sub, other } => {
                let view = if *sub { view_of(&m.map, SUB) } else { m.map.clone() };
                let k = k.pick(&c.hist.keys, &view);
                write(&mut m, &k, Some(v.bytes(stamp)), *sub, *other)?;
            }
            SnapOp::Del { k, sub, other } => {
                let view = if *sub { view_of(&m.map, SUB) } else { m.map.clone() };
                let k = k.pick(&c.hist.keys, &view);
                write(&mut m, &k, None, *sub, *other)?;
            }
            SnapOp::Bulk { at, n, del } => {
                for j in 0..*n as usize {
                    if *del {
                        let Some(k) = gen::nth_live(&m.map, (*at as usize).min(m.map.len().saturating_sub(1))) else { break };
                        write(&mut m, &k, None, false, false)?;
                    } else {
                        let k = c.hist.keys.key(*at as usize + j);
                        write(&mut m, &k, Some(Some(stamp.to_string().into_bytes())), false, false)?;
                    }
                }
            }
            SnapOp::Scan(r) => {
                if m.len() > 1 {
                    check_range(&hb, &r.pick(&c.hist.keys, &m.map), &m.map)?;
                }
            }
            SnapOp::Get(k) => {
                let k = k.pick(&c.hist.keys, &m.map);
                check_get(&hb, &k, m.map.get(&k))?;
            }
        }
    }
    for o in &mut open {
        crossed += u64::from(m.len() > o.writes_before && o.got < o.want.len());
        o.pull(o.want.len() + 8)?;
        if !o.ended {
            return Err(format!("the stream {} does not end", show_range(&o.range)));
        }
    }
    log.set_yields(&[], 0);
    check_scan(&hb, &m.map)?;
    cx.add("streams opened", opened);
    cx.add("streams left open across writes", crossed);
    cx.nontrivial = crossed > 0 && m.len() > 10;
    cx.note = Some(format!("{opened} streams, {crossed} with entries still to come after later writes"));
    Ok(())
}
pub fn c11_prop() -> Property {
    Property {
        id: "C11",
        level: "exploration",
        rule: "up to six traversals (main tree and sub-tree, any range and direction) open at once on one handle, pulled an entry or a few polls at a time between puts, deletes and runs of them through the same handle, its sub-tree and a second handle, the storage pausing as generated; every entry each stream yields is compared with its range of the reference map when it was opened. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: a stream that had entries still to come was open across a write; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["hypercore is the offline stand-in in /verif/stubs"],
        parts: vec![part("streams", 36_000, 500_000, strat_c11, c11), part("tall", 6000, 60000, super::tall::strat, super::tall::c11)],
    }
}
