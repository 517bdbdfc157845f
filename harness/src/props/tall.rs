//! The other properties on the trees of [`super::giant`]: paths of up to twenty-six levels.
use super::{
    giant::{sel, Sel, World},
    hostile::{bounded, check_entry, damage, mutation, Mut, Seen},
    reads::{after_prefix, needed, needed_del, Blocks},
    writes::{decide, do_wop, same_tail, step_del_cas, step_put_cas, Decide, DelCas, PutCas, SubOf, Via, WOp},
};
use crate::{
    bee::{self, *},
    exec::{self, R},
    gen::{KSel, V},
    model::{BatchOp, Giant, JsBee},
    runner::{Ctx, Tier},
    wire,
};
use futures_util::{Stream, StreamExt};
use hyperbee::{prefixed::PrefixedConfig, Hyperbee, HyperbeeError, KeyValueData};
use hypercore::sim::{Fault, SimLog};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, collections::BTreeMap, future::Future, pin::Pin, sync::Arc};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    at: Sel,
    v: V,
    d: Decide,
    what: u8,
    x: u16,
    n: u8,
    /// which part of the key is a sub-tree's prefix and separator
    sub: u8,
    cold: bool,
    incl: (bool, bool),
    down: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ways: u8,
    top: u8,
    height: u8,
    steps: Vec<Step>,
    yields: Vec<u8>,
}
fn step() -> BoxedStrategy<Step> {
    (
        (sel(), crate::gen::val(), decide(), any::<u8>(), any::<u16>()),
        (any::<u8>(), any::<u8>(), prop::bool::weighted(0.25), any::<(bool, bool)>(), any::<bool>()),
    )
        .prop_map(|((at, v, d, what, x), (n, sub, cold, incl, down))| Step { at, v, d, what, x, n, sub, cold, incl, down })
        .boxed()
}
pub fn size() -> BoxedStrategy<(u8, u8, u8)> {
    (prop_oneof![3 => Just(5u8), 3 => Just(9u8), 2 => 5u8..=9], 2u8..=9, prop_oneof![1 => 2u8..6, 2 => 4u8..27])
        .prop_map(|(ways, top, mut height)| {
            while (height as f64 - 1.0) * (ways as f64).log2() + (top as f64).log2() > 61.5 {
                height -= 1;
            }
            (ways, top, height)
        })
        .boxed()
}
pub fn strat(_: Tier) -> BoxedStrategy<Case> {
    (size(), vec(step(), 1..16), vec(0u8..4, 0..6)).prop_map(|((ways, top, height), steps, yields)| Case { ways, top, height, steps, yields }).boxed()
}

/// The log as it is stored, the model's, and the whole content.
struct Tall {
    log: SimLog,
    m: JsBee,
    w: World,
}
impl Tall {
    fn new(c: &Case) -> Self {
        let g = Giant { ways: c.ways.into(), top: c.top.into(), height: c.height.into() };
        let mut m = JsBee::default();
        m.ensure_header();
        m.giant = Some(g);
        let log = copy(&m, None);
        Tall { log, m, w: World { g, over: BTreeMap::new() } }
    }
    /// The model's map has to know of this key.
    fn seed(&mut self, full: &[u8]) {
        match self.w.get(full) {
            Some(e) => self.m.map.insert(full.to_vec(), e),
            None => self.m.map.remove(full),
        };
    }
    fn settle(&mut self, full: &[u8]) {
        self.w.over.insert(full.to_vec(), self.m.map.get(full).cloned());
    }
    /// Around a key, everything is as it should be.
    fn near(&self, hb: &Hyperbee, full: &[u8]) -> R<()> {
        check_get(hb, full, self.w.get(full).as_ref())?;
        for down in [false, true] {
            for (k, s, v) in self.w.items(Some((full, false)), down, 2) {
                check_get(hb, &k, Some(&(s, v)))?;
            }
        }
        let r = Range { min: B::Key(full.to_vec()), min_incl: true, max: B::PosInf, max_incl: true, rev: false };
        window(&Via::Main(hb), &self.w, &r, 6)
    }
}
/// A log with these blocks of the model's.
fn copy(m: &JsBee, only: Option<Blocks>) -> SimLog {
    let g = m.giant.expect("tall");
    let later: Vec<Vec<u8>> = m.raw[1..].to_vec();
    SimLog::made(
        &m.raw[0],
        m.len() - 1,
        Arc::new(move |i| {
            only.as_ref().is_none_or(|o| o.contains(&i)).then(|| match i.checked_sub(g.n() + 1) {
                None => wire::encode_block(&g.block(i)),
                Some(j) => later[j as usize].clone(),
            })
        }),
    )
}
fn prefix(s: &Step, full: &[u8], always: bool) -> Option<(usize, usize)> {
    let n = if always { s.sub % 9 } else { (s.sub % 16).checked_sub(7)? } as usize;
    let n = n.min(full.len());
    Some((n - (n.min(s.sub as usize / 16 % 3)), n))
}
/// The main tree, or the sub-tree this step uses, and the key in it.
fn via<'a>(hb: &'a Hyperbee, p: Option<(usize, usize)>, full: &[u8]) -> (Via<'a>, Vec<u8>) {
    match p {
        None => (Via::Main(hb), full.to_vec()),
        Some((a, b)) => {
            let sub = hb.sub(&full[..a], PrefixedConfig { seperator: full[a..b].to_vec() });
            (Via::Sub(SubOf::Own(sub), full[..b].to_vec()), full[b..].to_vec())
        }
    }
}
fn own(v: &Via) -> Vec<u8> {
    v.full(&[])
}
/// Up to `n` entries of the view, as it orders them.
fn want(w: &World, p: &[u8], r: &Range, n: usize) -> Vec<Item> {
    let at = |k: &Vec<u8>| [p, k].concat();
    let (from, incl) = match if r.rev { (&r.max, r.max_incl) } else { (&r.min, r.min_incl) } {
        (B::Key(k), incl) => (Some(at(k)), incl),
        (B::NegInf, _) if !r.rev => (Some(p.to_vec()), true),
        (B::PosInf, _) if r.rev => match after_prefix(p) {
            B::Key(k) => (Some(k), false),
            _ => (None, false),
        },
        _ => return vec![],
    };
    let mut out = w.items(from.as_ref().map(|k| (k.as_slice(), incl)), r.rev, n);
    out.retain(|(k, _, _)| k.starts_with(p));
    for i in &mut out {
        i.0.drain(..p.len());
    }
    out.retain(|(k, _, _)| r.has(k));
    out
}
fn window(via: &Via, w: &World, r: &Range, n: usize) -> R<()> {
    let p = own(via);
    let got = via.scan(r, n - 1)?;
    diff_items(&format!("traverse {} below {} (the first {n})", show_range(r), show(&p)), &got, &want(w, &p, r, n))
}
/// From a key of the view onwards, or all of it.
fn range(s: &Step, w: &World, p: &[u8], k: &[u8]) -> Range {
    if s.n % 8 == 7 {
        return Range { min: B::NegInf, min_incl: s.incl.0, max: B::PosInf, max_incl: s.incl.1, rev: s.down };
    }
    let near = B::Key(k.to_vec());
    let mut r = if s.down {
        Range { min: B::NegInf, min_incl: s.incl.1, max: near, max_incl: s.incl.0, rev: true }
    } else {
        Range { min: near, min_incl: s.incl.0, max: B::PosInf, max_incl: s.incl.1, rev: false }
    };
    if s.n & 1 == 1 {
        if let Some((k, _, _)) = want(w, p, &r, 24).get(s.n as usize / 8) {
            *(if s.down { &mut r.min } else { &mut r.max }) = B::Key(k.clone());
        }
    }
    r
}
fn wop(s: &Step) -> WOp {
    let k = KSel::Space(0);
    match s.what % 8 {
        0 | 1 => WOp::Put(k, s.v.clone()),
        2..=4 => WOp::Del(k),
        5 => WOp::PutCas(k, s.v.clone(), s.d),
        _ => WOp::DelCas(k, s.d),
    }
}
fn value(s: &Step, stamp: u64) -> Option<Vec<u8>> {
    matches!(s.what % 8, 0 | 1 | 5).then(|| s.v.bytes(stamp)).flatten()
}
fn grade(c: &Case, cx: &mut Ctx, did: u64) {
    cx.hit(match c.height {
        0..=6 => "height up to 6",
        7..=12 => "height 7 to 12",
        _ => "height 13 to 26",
    });
    cx.nontrivial = c.height > 6 && did > 0;
    cx.note = Some(format!("{} ways, height {}, {} steps", c.ways, c.height, c.steps.len()));
}

/// A write that must succeed, through `via`.
fn write(t: &mut Tall, via: &Via, s: &Step, k: &[u8], stamp: u64) -> R<()> {
    let full = via.full(k);
    let before = t.log.len();
    t.seed(&full);
    do_wop(via, &wop(s), k, value(s, stamp).as_deref(), &mut t.m)?.map_err(|e| format!("{:?} {} fails: {}", wop(s), show(k), err_text(&e)))?;
    t.settle(&full);
    same_tail(&t.log, &t.m, before)
}

pub fn c04(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let hb = bee::open(&t.log)?;
    let mut versions = vec![(t.m.clone(), t.w.clone())];
    let n = t.w.g.n();
    for (i, s) in c.steps.iter().enumerate() {
        let full = t.w.pick(&s.at);
        let before = t.log.len();
        write(&mut t, &Via::Main(&hb), s, &full, i as u64)?;
        let v = exec::run(hb.version()).map_err(|h| h.0)?;
        if v != t.m.len() {
            return Err(format!("version() is {v}, the log has {} blocks", t.m.len()));
        }
        if t.m.len() > before {
            versions.push((t.m.clone(), t.w.clone()));
        }
    }
    for i in n + 1..t.log.len() {
        if t.log.block(i).as_ref() != Some(t.m.raw_at(i)) {
            return Err(format!("block {i} was altered"));
        }
    }
    let probes: Vec<_> = t.w.over.keys().cloned().collect();
    for s in &c.steps {
        let (m, w) = &versions[s.x as usize % versions.len()];
        let old = bee::open(&copy(m, None))?;
        let at = |e: String| format!("the log cut to {} of {} blocks: {e}", m.len(), t.m.len());
        let h = ok("height", old.height()).map_err(at)?;
        if h != m.height() {
            return Err(at(format!("height() is {h}, expected {}", m.height())));
        }
        for k in &probes {
            check_get(&old, k, w.get(k).as_ref()).map_err(at)?;
        }
        let k = t.w.pick(&s.at);
        window(&Via::Main(&old), w, &range(s, w, &[], &k), 12).map_err(at)?;
    }
    grade(c, cx, versions.len() as u64 - 1);
    Ok(())
}

pub fn c07(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let mut hb = bee::open(&t.log)?;
    let mut cas = 0;
    for (i, s) in c.steps.iter().enumerate() {
        if s.cold {
            hb = bee::open(&t.log)?;
        }
        let full = t.w.pick(&s.at);
        let (v, k) = via(&hb, prefix(s, &full, false), &full);
        t.seed(&full);
        match s.what % 8 {
            0..=2 => step_put_cas(&v, &t.log, &mut t.m, &k, s.v.bytes(i as u64).as_deref(), s.d, cx)?,
            3..=5 => step_del_cas(&v, &t.log, &mut t.m, &k, s.d, cx)?,
            _ => {
                let mut plain = s.clone();
                plain.what = s.x as u8 % 5;
                write(&mut t, &v, &plain, &k, i as u64)?;
            }
        }
        cas += u64::from(s.what % 8 < 6);
        t.settle(&full);
        t.near(&hb, &full)?;
    }
    grade(c, cx, cas);
    Ok(())
}

pub fn c08(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let mut hb = bee::open(&t.log)?;
    let mut few = false;
    for (i, s) in c.steps.iter().enumerate() {
        if s.cold {
            hb = bee::open(&t.log)?;
        }
        let full = t.w.pick(&s.at);
        let (v, k) = via(&hb, prefix(s, &full, true), &full);
        let p = own(&v);
        let at = |e: String| format!("sub-tree {}: {e}", show(&p));
        if s.x % 3 > 0 {
            write(&mut t, &v, s, &k, i as u64).map_err(at)?;
        }
        let got = ok("get", v.get(&k)).map_err(at)?;
        if got != t.w.get(&full) {
            return Err(at(format!("get({}) gave {}, expected {}", show(&k), short(&got), short(&t.w.get(&full)))));
        }
        let r = range(s, &t.w, &p, &k);
        window(&v, &t.w, &r, 20).map_err(at)?;
        window(&v, &t.w, &Range::all(!s.down), 6).map_err(at)?;
        few |= !p.is_empty() && want(&t.w, &p, &Range::all(false), 300).len() < 300;
        t.near(&hb, &full)?;
    }
    cx.class("a sub-tree of few entries", few);
    grade(c, cx, c.steps.len() as u64);
    Ok(())
}

pub fn c09(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let mut hb = bee::open(&t.log)?;
    let (mut failed, mut late) = (0u64, false);
    for (i, s) in c.steps.iter().enumerate() {
        if s.cold {
            hb = bee::open(&t.log)?;
        }
        let full = t.w.pick(&s.at);
        let p = prefix(s, &full, false);
        let (v, k) = via(&hb, p, &full);
        let (op, val) = (wop(s), value(s, i as u64));
        t.seed(&full);
        // how many reads it takes from nothing
        let reads = {
            let log2 = copy(&t.m, None);
            let hb2 = bee::open(&log2)?;
            let (v2, _) = via(&hb2, p, &full);
            do_wop(&v2, &op, &k, val.as_deref(), &mut t.m.clone())?.map_err(|e| format!("{op:?} fails without any fault: {}", err_text(&e)))?;
            log2.n_get()
        };
        let nth = u64::from(s.x) % reads.max(1);
        let log = &t.log;
        log.reset_counters();
        match s.n % 8 {
            0 => log.fail_append(0, Fault::AppendIo),
            1 => log.set_writable(false),
            2 => log.fail_gets_from(nth, Fault::GetIo),
            3 => log.fail_gets_from(nth, Fault::GetMissing),
            4 | 5 => log.fail_get(nth, Fault::GetIo),
            _ => log.fail_get(nth, Fault::GetMissing),
        }
        let before = log.len();
        let mut after = t.m.clone();
        let res = do_wop(&v, &op, &k, val.as_deref(), &mut after)?;
        let fired = log.faults_fired() > 0 || (s.n % 8 == 1 && log.n_append() > 0);
        log.clear_faults();
        log.set_writable(true);
        let what = format!("{op:?} {} with fault {} at {nth} of {reads} reads", show(&full), s.n % 8);
        let at = |e: String| format!("{what}: {e}");
        match res {
            Ok(()) if fired => return Err(at("the storage failed but the operation reports success".into())),
            Ok(()) => t.m = after,
            Err(e) if !fired => return Err(at(format!("failed though nothing went wrong: {}", err_text(&e)))),
            Err(_) => {
                failed += 1;
                late |= nth > 40;
                if log.len() != before {
                    return Err(at(format!("failed, but the log went from {before} to {} blocks", log.len())));
                }
                if s.incl.0 {
                    // what is read next is right, and what is written after it
                    t.near(&hb, &full).map_err(|e| at(format!("then: {e}")))?;
                    let h = ok("height", hb.height())?;
                    if h != t.m.height() {
                        return Err(at(format!("then height() is {h}, expected {}", t.m.height())));
                    }
                }
                do_wop(&v, &op, &k, val.as_deref(), &mut t.m).map_err(|e| at(format!("the retry: {e}")))?.map_err(|e| at(format!("the retry fails: {}", err_text(&e))))?;
            }
        }
        same_tail(&t.log, &t.m, before).map_err(at)?;
        t.settle(&full);
        t.near(&hb, &full).map_err(at)?;
    }
    cx.add("failed writes", failed);
    cx.class("a read after the fortieth failed", late);
    grade(c, cx, failed);
    Ok(())
}

type Items<'a> = Pin<Box<dyn Stream<Item = Result<KeyValueData, HyperbeeError>> + 'a>>;
pub fn c11(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let (hb, other) = (bee::open(&t.log)?, bee::open(&t.log)?);
    t.log.set_yields(&c.yields, 0);
    let pivot = t.w.pick(&c.steps[0].at);
    let subs: Vec<_> = [2, 5, 7].iter().map(|n| (&pivot[..pivot.len().min(*n)], hb.sub(&pivot[..pivot.len().min(*n)], PrefixedConfig { seperator: vec![] }))).collect();
    struct Open<'a> {
        s: Items<'a>,
        want: Vec<Item>,
        got: usize,
        what: String,
        at: u64,
        done: bool,
    }
    const MOST: usize = 40;
    impl Open<'_> {
        fn pull(&mut self, n: usize) -> R<()> {
            for _ in 0..n {
                if self.done || self.got == MOST {
                    return Ok(());
                }
                let x = exec::run(self.s.next()).map_err(|h| format!("{}: hangs ({})", self.what, h.0))?;
                let x = x.transpose().map_err(|e| format!("{}: {}", self.what, err_text(&e)))?.map(item);
                if x.as_ref() != self.want.get(self.got) {
                    let f = |x: Option<&Item>| x.map_or("the end".into(), |x| format!("{} {}", show(&x.0), short(&Some((x.1, x.2.clone())))));
                    return Err(format!("{}: entry {} is {}, expected {}", self.what, self.got, f(x.as_ref()), f(self.want.get(self.got))));
                }
                self.done = x.is_none();
                self.got += 1;
            }
            Ok(())
        }
    }
    let mut open: Vec<Open> = vec![];
    let mut crossed = 0u64;
    for (i, s) in c.steps.iter().enumerate() {
        let full = t.w.pick(&s.at);
        match s.what {
            0..=90 if open.len() < 5 => {
                let sub = subs.get(s.sub as usize % 6).filter(|_| s.cold);
                let p = sub.map_or(&[][..], |x| x.0);
                let k = full.strip_prefix(p).unwrap_or(&[]).to_vec();
                let r = range(s, &t.w, p, &k);
                let st: Items = match sub {
                    None => ok("traverse", async { hb.traverse(r.conf()).await.map(|s| Box::pin(s) as Items) })?,
                    Some((_, sub)) => ok("sub traverse", async { sub.traverse(&r.conf()).await.map(|s| Box::pin(s) as Items) })?,
                };
                let what = format!("the stream {} below {} opened at version {}", show_range(&r), show(p), t.m.len());
                open.push(Open { s: st, want: want(&t.w, p, &r, MOST), got: 0, what, at: t.m.len(), done: false });
            }
            0..=140 => {
                let n = open.len().max(1);
                if let Some(o) = open.get_mut(s.x as usize % n) {
                    o.pull(s.n as usize % 24)?;
                }
            }
            _ => {
                // near where a stream is
                let n = open.len().max(1);
                let k = match open.get(s.x as usize % n) {
                    Some(o) if s.down && pivot.is_empty() => o.want.get(o.got + s.n as usize % 4).map(|x| x.0.clone()).unwrap_or(full),
                    _ => full,
                };
                write(&mut t, &Via::Main(if s.cold { &other } else { &hb }), s, &k, i as u64)?;
            }
        }
    }
    for o in &mut open {
        crossed += u64::from(t.m.len() > o.at && !o.done && o.got < o.want.len());
        o.pull(MOST + 1)?;
    }
    cx.add("streams left open across writes", crossed);
    grade(c, cx, crossed);
    Ok(())
}

pub fn c19(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let mut hb = bee::open(&t.log)?;
    let (mut dropped, mut landed) = (0u64, 0u64);
    for (i, s) in c.steps.iter().enumerate() {
        if s.cold {
            hb = bee::open(&t.log)?;
        }
        let full = t.w.pick(&s.at);
        let p = prefix(s, &full, false);
        let val = value(s, i as u64);
        t.seed(&full);
        let before = t.log.len();
        let cur = t.m.map.get(&full).map(|e| e.0);
        let reads = s.x % 4 == 3;
        let r = range(s, &t.w, &full[..p.map_or(0, |p| p.1)], &full[p.map_or(0, |p| p.1)..]);
        fn start<'a>(v: &'a Via<'a>, s: &'a Step, k: &'a [u8], val: Option<&'a [u8]>, r: Option<&'a Range>, len: u64) -> Pin<Box<dyn Future<Output = Result<(), HyperbeeError>> + 'a>> {
            let d = s.d;
            match (r, wop(s)) {
                (Some(r), _) => Box::pin(async move {
                    v.get(k).await?;
                    let conf = r.conf();
                    let mut st: Items = match v {
                        Via::Main(h) => Box::pin(h.traverse(conf).await?),
                        Via::Sub(h, _) => {
                            let st = h.traverse(&conf).await?;
                            futures_util::pin_mut!(st);
                            for _ in 0..s.n % 16 {
                                if st.next().await.transpose()?.is_none() {
                                    break;
                                }
                            }
                            return Ok(());
                        }
                    };
                    for _ in 0..s.n % 16 {
                        if st.next().await.transpose()?.is_none() {
                            break;
                        }
                    }
                    Ok(())
                }),
                (_, WOp::Put(..)) => Box::pin(async move { v.put(k, val).await.map(|_| ()) }),
                (_, WOp::PutCas(..)) => {
                    let f: PutCas = Box::new(move |o, n| d.eval(o.map(|o| o.seq), n.seq));
                    Box::pin(async move { v.put_cas(k, val, f).await.map(|_| ()) })
                }
                (_, WOp::DelCas(..)) => {
                    let f: DelCas = Box::new(move |o| d.eval(Some(o.seq), len));
                    Box::pin(async move { v.del_cas(k, f).await.map(|_| ()) })
                }
                _ => Box::pin(async move { v.del(k).await.map(|_| ()) }),
            }
        }
        let rr = reads.then_some(&r);
        let total = {
            let log2 = copy(&t.m, None);
            log2.set_yields(&c.yields, 1);
            let hb2 = bee::open(&log2)?;
            let (v, k) = via(&hb2, p, &full);
            let mut f = start(&v, s, &k, val.as_deref(), rr, before);
            let polls = std::cell::Cell::new(0u64);
            exec::run(std::future::poll_fn(|cx| {
                polls.set(polls.get() + 1);
                f.as_mut().poll(cx)
            }))
            .map_err(|h| format!("{:?}: hangs ({})", wop(s), h.0))?
            .map_err(|e| format!("{:?}: {}", wop(s), err_text(&e)))?;
            polls.get()
        };
        let n = u64::from(s.x / 4) % total.max(1);
        t.log.set_yields(&c.yields, 1);
        let res = {
            let (v, k) = via(&hb, p, &full);
            exec::run_then_drop(start(&v, s, &k, val.as_deref(), rr, before), n).map_err(|h| format!("{:?}: hangs ({})", wop(s), h.0))?
        };
        t.log.set_yields(&[], 0);
        let what = format!("{:?} {} dropped after {n} of {total} polls", if reads { None } else { Some(wop(s)) }, show(&full));
        let at = |e: String| format!("{what}: {e}");
        let done = match res {
            Some(Ok(())) => true,
            Some(Err(e)) => return Err(at(err_text(&e))),
            None => false,
        };
        let mut after = t.m.clone();
        if !reads {
            match wop(s) {
                WOp::Put(..) => drop(after.put(&full, val.as_deref())),
                WOp::PutCas(_, _, d) if d.eval(cur, before) => drop(after.put(&full, val.as_deref())),
                WOp::Del(_) => drop(after.del(&full)),
                WOp::DelCas(_, d) if cur.is_some() && d.eval(cur, before) => drop(after.del(&full)),
                _ => (),
            }
        }
        if t.log.len() == after.len() {
            landed += u64::from(!done && after.len() > before);
            t.m = after;
        } else if done || t.log.len() != before {
            return Err(at(format!("the log went from {before} to {} blocks", t.log.len())));
        }
        dropped += u64::from(!done);
        same_tail(&t.log, &t.m, before).map_err(at)?;
        t.settle(&full);
        t.near(&hb, &full).map_err(at)?;
        let h = ok("height", hb.height())?;
        if h != t.m.height() {
            return Err(at(format!("then height() is {h}, expected {}", t.m.height())));
        }
    }
    drop(hb);
    cx.add("dropped but landed", landed);
    cx.class("dropped", dropped > 0);
    grade(c, cx, dropped);
    Ok(())
}

pub fn c20(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let mut hb = bee::open(&t.log)?;
    let mut moved = false;
    for (i, s) in c.steps.iter().enumerate() {
        if s.cold {
            hb = bee::open(&t.log)?;
        }
        let full = t.w.pick(&s.at);
        write(&mut t, &Via::Main(&hb), s, &full, i as u64)?;
        let (got, want) = (ok("height", hb.height())?, t.m.height());
        if got != want {
            return Err(format!("height() is {got}, the stored tree has {want} levels"));
        }
        moved |= want != usize::from(c.height);
    }
    cx.class("the tree got higher or lower", moved);
    grade(c, cx, 1);
    Ok(())
}

pub fn c21(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let mut hb = bee::open(&t.log)?;
    let mut fired_n = 0;
    for (i, s) in c.steps.iter().enumerate() {
        let full = t.w.pick(&s.at);
        if s.what >= 200 {
            write(&mut t, &Via::Main(&hb), s, &full, i as u64)?;
            continue;
        }
        if s.cold {
            hb = bee::open(&t.log)?;
        }
        let p = prefix(s, &full, false);
        const N: usize = 16;
        // (entries, errors), checked as far as they can be
        let r = {
            let b = p.map_or(0, |p| p.1);
            range(s, &t.w, &full[..b], &full[b..])
        };
        let height = t.m.height();
        let read = |hb: &Hyperbee, may_fail: bool| -> R<(usize, usize)> {
            let (v, k) = via(hb, p, &full);
            match s.what % 5 {
                0 => match maybe("height", hb.height())? {
                    Err(_) => Ok((0, 1)),
                    Ok(h) if h == height => Ok((1, 0)),
                    Ok(h) => Err(format!("height() gave {h}, the tree has {height} levels")),
                },
                1 | 2 => match maybe("get", v.get(&k))? {
                    Err(_) => Ok((0, 1)),
                    Ok(x) if x == t.w.get(&full) => Ok((1, 0)),
                    Ok(x) => Err(format!("get({}) gave {}, the tree has {}", show(&full), short(&x), short(&t.w.get(&full)))),
                },
                _ => {
                    let p = own(&v);
                    let want = want(&t.w, &p, &r, N);
                    let what = format!("traverse {} below {}", show_range(&r), show(&p));
                    let (mut got, mut errs, mut seen) = (vec![], 0, 0);
                    exec::run(async {
                        let conf = r.conf();
                        let mut st: Items = match &v {
                            Via::Main(h) => match h.traverse(conf).await {
                                Ok(s) => Box::pin(s),
                                Err(_) => return errs += 1,
                            },
                            Via::Sub(h, _) => match h.traverse(&conf).await {
                                Ok(s) => Box::pin(s),
                                Err(_) => return errs += 1,
                            },
                        };
                        while seen < N {
                            seen += 1;
                            match st.next().await {
                                Some(Ok(x)) => got.push((errs, item(x))),
                                Some(Err(_)) => errs += 1,
                                None => break,
                            }
                        }
                    })
                    .map_err(|h| format!("{what}: hangs ({})", h.0))?;
                    let sure: Vec<Item> = got.iter().filter(|x| x.0 == 0).map(|x| x.1.clone()).collect();
                    if errs == 0 {
                        diff_items(&what, &sure, &want)?;
                    } else if !may_fail {
                        return Err(format!("{what} fails"));
                    } else if !want.starts_with(&sure) {
                        diff_items(&format!("{what}: before an error"), &sure, &want)?;
                    }
                    // whatever comes after one: real entries, in order
                    for (_, (k, seq, v)) in &got {
                        let full = [&p[..], k].concat();
                        if t.w.get(&full).as_ref() != Some(&(*seq, v.clone())) || !r.has(k) {
                            return Err(format!("{what}: yielded {} at {seq}, which is not in it", show(k)));
                        }
                    }
                    if got.windows(2).any(|x| (x[0].1 .0 < x[1].1 .0) == r.rev || x[0].1 .0 == x[1].1 .0) {
                        return Err(format!("{what}: out of order"));
                    }
                    Ok((got.len(), errs))
                }
            }
        };
        let log2 = copy(&t.m, None);
        read(&bee::open(&log2)?, false)?;
        let reads = log2.n_get();
        let nth = u64::from(s.x) % reads.max(1);
        let log = &t.log;
        log.reset_counters();
        match s.n / 8 % 4 {
            0 => log.fail_gets_from(nth, Fault::GetIo),
            1 => log.fail_gets_from(nth, Fault::GetMissing),
            2 => log.fail_get(nth, Fault::GetIo),
            _ => log.fail_get(nth, Fault::GetMissing),
        }
        let res = read(&hb, true);
        let fired = log.faults_fired() > 0;
        log.clear_faults();
        let at = |e: String| format!("with fault {} at block read {nth} of {reads}: {e}", s.n / 8 % 4);
        let (_, errs) = res.map_err(at)?;
        if !fired && errs > 0 {
            return Err(at("an error was reported although no read failed".into()));
        }
        if fired && errs == 0 && s.what % 5 < 3 {
            return Err(at("the storage failed but no error was reported".into()));
        }
        fired_n += u64::from(fired);
        let (_, errs) = read(&hb, false).map_err(|e| at(format!("after the storage recovered: {e}")))?;
        if errs > 0 {
            return Err(at("still fails after the storage recovered".into()));
        }
    }
    cx.add("faults fired", fired_n);
    grade(c, cx, fired_n);
    Ok(())
}

pub fn c23(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let hb = bee::open(&t.log)?;
    for (i, s) in c.steps.iter().enumerate() {
        let full = t.w.pick(&s.at);
        if s.what >= 200 {
            write(&mut t, &Via::Main(&hb), s, &full, i as u64)?;
            continue;
        }
        let outside = |what: &str, log: &SimLog, ok: &Blocks| -> R<()> {
            let gets = log.take_gets();
            match gets.iter().find(|g| !ok.contains(g)) {
                Some(g) => Err(format!("{what} fetched block {g}, which is off its path ({} blocks suffice, it fetched {})", ok.len(), gets.len())),
                None => Ok(()),
            }
        };
        let b = B::Key(full.clone());
        // twice: where everything is there, and where only what it needs is
        let both = |what: &str, need: &Blocks, f: &mut dyn FnMut(&Hyperbee, &SimLog) -> R<()>| -> R<()> {
            for only in [None, Some(need.clone())] {
                let sparse = only.is_some();
                let log = copy(&t.m, only);
                let hb = bee::open(&log)?;
                log.record_gets(true);
                f(&hb, &log).map_err(|e| format!("{what}{}: {e}", if sparse { " with only the blocks it needs present" } else { "" }))?;
                outside(what, &log, need)?;
            }
            Ok(())
        };
        match s.what % 5 {
            0 | 1 => {
                let need = needed(&t.m, &b, &b, true);
                both(&format!("get({})", show(&full)), &need, &mut |hb, _| check_get(hb, &full, t.w.get(&full).as_ref()))?;
                let most = usize::from(c.height) + 1 + c.steps.len();
                both("height()", &needed(&t.m, &B::NegInf, &B::NegInf, false), &mut |hb, log| {
                    let h = ok("height", hb.height())?;
                    let n = log.take_gets().into_iter().collect::<Blocks>().len();
                    if h != t.m.height() || n > h.min(most) {
                        return Err(format!("is {h} (stored: {}), having fetched {n} blocks", t.m.height()));
                    }
                    Ok(())
                })?;
            }
            2 => {
                let need = needed(&t.m, &b, &b, true);
                let mut m = t.m.clone();
                match t.w.get(&full) {
                    Some(e) => m.map.insert(full.clone(), e),
                    None => m.map.remove(&full),
                };
                both(&format!("put({})", show(&full)), &need, &mut |hb, log| {
                    let mut m = m.clone();
                    let (got, want) = (ok("put", hb.put(&full, Some(b"new")))?, m.put(&full, Some(b"new")));
                    if got != want {
                        return Err(format!("returned {got:?}, expected {want:?}"));
                    }
                    same_tail(log, &m, want.1)
                })?;
            }
            3 => {
                let need = needed_del(&t.m, &full);
                both(&format!("del({})", show(&full)), &need, &mut |hb, log| {
                    let mut m = t.m.clone();
                    if let Some(e) = t.w.get(&full) {
                        m.map.insert(full.clone(), e);
                    }
                    let before = m.len();
                    let (got, want) = (ok("del", hb.del(&full))?, m.del(&full));
                    if got != want {
                        return Err(format!("returned {got:?}, expected {want:?}"));
                    }
                    same_tail(log, &m, before)
                })?;
            }
            _ => {
                let p = prefix(s, &full, false);
                let n = 1 + s.x as usize % 20;
                let pre = full[..p.map_or(0, |p| p.1)].to_vec();
                let r = range(s, &t.w, &pre, &full[pre.len()..]);
                let items = want(&t.w, &pre, &r, n);
                // the whole range when it has no more, else to where it was taken
                let end = |last: Option<&Item>, b: &B, inf: B| match (last, b) {
                    (Some(x), _) if items.len() == n => B::Key([&pre[..], &x.0].concat()),
                    (_, B::Key(k)) => B::Key([&pre[..], k].concat()),
                    _ => inf,
                };
                let (lo, hi) = (B::Key(pre.clone()), if pre.is_empty() { B::PosInf } else { after_prefix(&pre) });
                let need = if r.rev {
                    needed(&t.m, &end(items.last(), &r.min, lo), &end(None, &r.max, hi), false)
                } else {
                    needed(&t.m, &end(None, &r.min, lo), &end(items.last(), &r.max, hi), false)
                };
                both(&format!("taking {n} of {} below {}", show_range(&r), show(&pre)), &need, &mut |hb, _| {
                    let (v, _) = via(hb, p, &full);
                    window(&v, &t.w, &r, n)
                })?;
            }
        }
    }
    grade(c, cx, 1);
    Ok(())
}

/// Between writes, batches as JavaScript appends them.
pub fn c22(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let mut hb = bee::open(&t.log)?;
    let (mut batches, mut most) = (0u64, 0);
    for (i, s) in c.steps.iter().enumerate() {
        let full = t.w.pick(&s.at);
        if s.x % 3 > 0 {
            write(&mut t, &Via::Main(&hb), s, &full, i as u64)?;
        } else {
            let mut ops = vec![];
            for (j, o) in c.steps.iter().cycle().skip(i).take(1 + s.n as usize % 24).enumerate() {
                let mut k = t.w.pick(&o.at);
                if j > 0 && o.cold {
                    // neighbours of the first
                    k = t.w.items(Some((&full, true)), s.down, j + 1).pop().map_or(k, |x| x.0);
                }
                t.seed(&k);
                ops.push(if o.what % 2 == 0 { BatchOp::Put(k, o.v.bytes(j as u64)) } else { BatchOp::Del(k) });
            }
            let before = t.m.len();
            t.m.batch(&ops, &[&c.yields[..], &[s.what, s.sub, s.n]].concat());
            for o in &ops {
                let (BatchOp::Put(k, _) | BatchOp::Del(k)) = o;
                t.settle(k);
            }
            most = most.max(t.m.len() - before);
            batches += 1;
            t.log = copy(&t.m, None);
            hb = bee::open(&t.log)?;
            for o in &ops {
                let (BatchOp::Put(k, _) | BatchOp::Del(k)) = o;
                check_get(&hb, k, t.w.get(k).as_ref())?;
            }
        }
        t.near(&hb, &full)?;
        window(&Via::Main(&hb), &t.w, &range(s, &t.w, &[], &full), 20)?;
        let h = ok("height", hb.height())?;
        if h != t.m.height() {
            return Err(format!("height() is {h}, expected {}", t.m.height()));
        }
    }
    cx.class("a batch of ten or more blocks", most >= 10);
    grade(c, cx, batches);
    Ok(())
}

/// A reader of a log whose blocks arrive one after the other.
pub fn c12(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    {
        let hb = bee::open(&t.log)?;
        for (i, s) in c.steps.iter().enumerate().filter(|x| x.1.what >= 200) {
            let full = t.w.pick(&s.at);
            write(&mut t, &Via::Main(&hb), s, &full, i as u64)?;
        }
    }
    let here = Arc::new(std::sync::Mutex::new(Blocks::new()));
    let log = {
        let (all, here) = (t.log.clone(), here.clone());
        SimLog::made(&t.m.raw[0], t.m.len() - 1, Arc::new(move |i| here.lock().unwrap().contains(&i).then(|| all.block(i)).flatten()))
    };
    let arrive = |b: u64| here.lock().unwrap().insert(b);
    let mut hb = bee::open(&log)?;
    let (mut early, mut failed) = (0u64, 0u64);
    for s in &c.steps {
        if s.cold {
            hb = bee::open(&log)?;
        }
        let full = t.w.pick(&s.at);
        let p = prefix(s, &full, false);
        let pre = full[..p.map_or(0, |p| p.1)].to_vec();
        let n = 1 + s.n as usize % 12;
        let r = range(s, &t.w, &pre, &full[pre.len()..]);
        let scan = s.what % 3 == 0;
        let need = if scan {
            let items = want(&t.w, &pre, &r, n);
            let end = |b: &B, inf: B| match (items.last(), b) {
                (Some(x), _) if items.len() == n => B::Key([&pre[..], &x.0].concat()),
                (_, B::Key(k)) => B::Key([&pre[..], k].concat()),
                _ => inf,
            };
            let from = |b: &B, inf: B| match b {
                B::Key(k) => B::Key([&pre[..], k].concat()),
                _ => inf,
            };
            let (lo, hi) = (B::Key(pre.clone()), if pre.is_empty() { B::PosInf } else { after_prefix(&pre) });
            if r.rev {
                needed(&t.m, &end(&r.min, lo), &from(&r.max, hi), false)
            } else {
                needed(&t.m, &from(&r.min, lo), &end(&r.max, hi), false)
            }
        } else {
            needed(&t.m, &B::Key(full.clone()), &B::Key(full.clone()), true)
        };
        // of what it needs, some is yet to arrive
        let mut x = u64::from(s.x) | 1 << 20;
        for b in &need {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(b | 1);
            if (x >> 40) % (2 + u64::from(s.sub)) != 0 {
                arrive(*b);
            }
        }
        let (v, k) = via(&hb, p, &full);
        let read = || -> R<bool> {
            if !scan {
                return match maybe("get", v.get(&k))? {
                    Err(_) => Ok(false),
                    Ok(x) if x == t.w.get(&full) => Ok(true),
                    Ok(x) => Err(format!("get({}) gave {}, the tree has {}", show(&full), short(&x), short(&t.w.get(&full)))),
                };
            }
            let what = format!("traverse {} below {}", show_range(&r), show(&pre));
            let mut got = vec![];
            let done = exec::run(async {
                let conf = r.conf();
                let mut st: Items = match &v {
                    Via::Main(h) => Box::pin(h.traverse(conf).await.ok()?),
                    Via::Sub(h, _) => Box::pin(h.traverse(&conf).await.ok()?),
                };
                while got.len() < n {
                    match st.next().await {
                        None => break,
                        Some(x) => got.push(item(x.ok()?)),
                    }
                }
                Some(())
            })
            .map_err(|h| format!("{what}: hangs ({})", h.0))?;
            let want = want(&t.w, &pre, &r, n);
            if done.is_some() || !want.starts_with(&got) {
                diff_items(&what, &got, &want)?;
            }
            Ok(done.is_some())
        };
        let there = need.iter().all(|b| here.lock().unwrap().contains(b));
        let fine = read().map_err(|e| format!("{} of {} blocks it needs have arrived: {e}", need.iter().filter(|b| here.lock().unwrap().contains(b)).count(), need.len()))?;
        if there && !fine {
            return Err(format!("all blocks on the path of {} have arrived, and reading it fails", show(&full)));
        }
        early += u64::from(fine && !there);
        failed += u64::from(!fine);
        need.iter().for_each(|b| drop(arrive(*b)));
        if !read().map_err(|e| format!("all it needs has arrived: {e}"))? {
            return Err(format!("all blocks on the path of {} have arrived now, and reading it still fails", show(&full)));
        }
    }
    cx.add("answered before all had arrived", early);
    cx.add("failed at first", failed);
    grade(c, cx, failed);
    Ok(())
}

/// Several handles, written through and read in turn, and new ones.
pub fn c05(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let shared = hypercore::replication::SharedCore::from(bee::core_of(&t.log));
    let open = || Hyperbee::from_hypercore(shared.clone()).map_err(|e| format!("from_hypercore: {e}"));
    let mut hs = vec![open()?, open()?, open()?];
    for (i, s) in c.steps.iter().enumerate() {
        let n = s.n as usize % 3;
        if s.cold {
            hs[n] = open()?;
        }
        let full = t.w.pick(&s.at);
        write(&mut t, &Via::Main(&hs[n]), s, &full, i as u64)?;
        for (j, hb) in hs.iter().enumerate().filter(|(j, _)| s.x >> j & 1 == 1) {
            t.near(hb, &full).map_err(|e| format!("written through handle {n}, read through handle {j}: {e}"))?;
        }
        if s.down {
            t.near(&bee::open(&t.log)?, &full).map_err(|e| format!("read through a new handle: {e}"))?;
        }
    }
    let fresh = bee::open(&t.log)?;
    for k in t.w.over.keys() {
        for hb in hs.iter().chain([&fresh]) {
            check_get(hb, k, t.w.get(k).as_ref())?;
        }
    }
    grade(c, cx, 1);
    Ok(())
}

/// Traced, with everything formatted, the answers are the same.
pub fn c24(c: &Case, cx: &mut Ctx) -> R<()> {
    let level = if c.yields.first() == Some(&0) { tracing::Level::INFO } else { tracing::Level::TRACE };
    let seen = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let sub = super::obs::Everything { level, ids: Default::default(), seen: seen.clone() };
    tracing::subscriber::with_default(sub, || if c.top % 2 == 0 { c08(c, cx) } else { c09(c, cx) })?;
    let n = seen.load(std::sync::atomic::Ordering::Relaxed);
    cx.nontrivial &= n > 0;
    cx.add("characters traced", n);
    Ok(())
}

/// The same reads again and again take no more memory, and in the end nothing is held.
pub fn c25(c: &Case, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(c);
    let before = t.log.holders();
    let hb = bee::open(&t.log)?;
    for (i, s) in c.steps.iter().enumerate().filter(|x| x.1.what >= 200) {
        let full = t.w.pick(&s.at);
        write(&mut t, &Via::Main(&hb), s, &full, i as u64)?;
    }
    let mut first = true;
    let mut round = || {
        // what is read is kept, so once everything is
        let warm = std::mem::take(&mut first);
        for s in &c.steps {
            let full = t.w.pick(&s.at);
            let (v, k) = via(&hb, prefix(s, &full, false), &full);
            let p = own(&v);
            let r = range(s, &t.w, &p, &k);
            t.log.set_yields(&c.yields, u8::from(s.cold));
            if s.incl.0 && !warm {
                t.log.reset_counters();
                t.log.fail_get(u64::from(s.x % 64), if s.down { Fault::GetIo } else { Fault::GetMissing });
            }
            let polls = if s.cold && !warm { u64::from(s.x) } else { 1_000_000 };
            let hang = |h: exec::Hang| format!("hangs ({})", h.0);
            match s.what % 6 {
                0 => drop(exec::run_then_drop(v.get(&k), polls).map_err(hang)?),
                1 => drop(exec::run_then_drop(v.put_cas(&k, None, Box::new(|_, _| false)), polls).map_err(hang)?),
                2 => drop(exec::run_then_drop(v.del_cas(&k, Box::new(|_| false)), polls).map_err(hang)?),
                3 => drop(exec::run_then_drop(hb.height(), polls).map_err(hang)?),
                _ => {
                    let conf = r.conf();
                    let f = async {
                        let mut st: Items = match &v {
                            Via::Main(h) => Box::pin(h.traverse(conf).await?),
                            Via::Sub(h, _) => Box::pin(h.traverse(&conf).await?),
                        };
                        for _ in 0..s.n % 20 {
                            if st.next().await.transpose()?.is_none() {
                                break;
                            }
                        }
                        Ok::<_, HyperbeeError>(())
                    };
                    drop(exec::run_then_drop(f, polls).map_err(hang)?);
                }
            }
            t.log.clear_faults();
            t.log.set_yields(&[], 0);
        }
        Ok(())
    };
    round()?;
    super::drops::grows(round).map_err(|e| format!("reading the same from one tree of {} levels: {e}", c.height))?;
    drop(hb);
    let after = t.log.holders();
    if after != before {
        return Err(format!("the handle is dropped, and the log is still held ({} references)", after - before));
    }
    grade(c, cx, 1);
    Ok(())
}

// ---- C10: several tasks ---------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tasks {
    case: Case,
    /// how many of the steps each task does
    tasks: Vec<u8>,
    picks: Vec<(u8, u8)>,
    /// a few keys for all
    focus: bool,
}
pub fn strat_tasks(t: Tier) -> BoxedStrategy<Tasks> {
    (strat(t), vec(1u8..5, 2..5), vec((any::<u8>(), 1u8..12), 1..40), any::<bool>())
        .prop_map(|(case, tasks, picks, focus)| Tasks { case, tasks, picks, focus })
        .boxed()
}
#[derive(Debug)]
enum Got {
    Put((Option<u64>, u64)),
    Del(Option<u64>),
    Get(Option<crate::model::Entry>),
    Scan(Vec<Item>),
    Height(usize),
}
pub fn c10(c: &Tasks, cx: &mut Ctx) -> R<()> {
    let mut t = Tall::new(&c.case);
    let shared = hypercore::replication::SharedCore::from(bee::core_of(&t.log));
    let open = || Hyperbee::from_hypercore(shared.clone()).map_err(|e| format!("from_hypercore: {e}"));
    let hs = [open()?, open()?];
    // what each does
    struct Plan {
        s: Step,
        key: Vec<u8>,
        value: Vec<u8>,
        range: Range,
    }
    let mut steps = c.case.steps.iter().cycle().enumerate();
    let one = t.w.pick(&c.case.steps[0].at);
    let plans: Vec<Vec<Plan>> = c
        .tasks
        .iter()
        .map(|n| {
            steps
                .by_ref()
                .take(*n as usize)
                .map(|(i, s)| {
                    let near = t.w.items(Some((&one, true)), s.down, 3);
                    let key = match near.get(s.n as usize % 3) {
                        Some(x) if c.focus => x.0.clone(),
                        _ => t.w.pick(&s.at),
                    };
                    let range = range(s, &t.w, &[], &key);
                    Plan { s: s.clone(), key, value: format!("task value {i}").into_bytes(), range }
                })
                .collect()
        })
        .collect();
    const N: usize = 8;
    let log = t.log.clone();
    log.set_yields(&c.case.yields, 1);
    let recs: Vec<RefCell<Vec<(u64, u64, Got)>>> = plans.iter().map(|_| RefCell::default()).collect();
    let tasks: Vec<exec::Task<R<()>>> = plans
        .iter()
        .zip(&recs)
        .map(|(p, rec)| {
            let (hs, log) = (&hs, &log);
            Box::pin(async move {
                for p in p {
                    // only reads go through the second handle
                    let hb = &hs[usize::from(p.s.cold && p.s.what % 8 > 4)];
                    let from = log.len();
                    let e = |e: HyperbeeError| format!("{:?} {}: {}", p.s.what, show(&p.key), err_text(&e));
                    let got = match p.s.what % 8 {
                        0..=2 => Got::Put(hb.put(&p.key, Some(&p.value)).await.map_err(e)?),
                        3 | 4 => Got::Del(hb.del(&p.key).await.map_err(e)?),
                        5 => Got::Get(hb.get(&p.key).await.map_err(e)?),
                        6 => {
                            let st = hb.traverse(p.range.conf()).await.map_err(e)?;
                            futures_util::pin_mut!(st);
                            let mut out = vec![];
                            while out.len() < N {
                                match st.next().await {
                                    Some(x) => out.push(item(x.map_err(e)?)),
                                    None => break,
                                }
                            }
                            Got::Scan(out)
                        }
                        _ => Got::Height(hb.height().await.map_err(e)?),
                    };
                    rec.borrow_mut().push((from, log.len(), got));
                }
                Ok(())
            }) as exec::Task<R<()>>
        })
        .collect();
    let (mut at, mut left, mut switches, mut last) = (0usize, 0u8, 0u64, usize::MAX);
    let done = exec::run_scheduled(
        tasks,
        |ready| {
            if left == 0 {
                at += 1;
                left = c.picks[at % c.picks.len()].1.max(1);
            }
            left -= 1;
            c.picks[at % c.picks.len()].0 as usize % ready.len()
        },
        |task, _| {
            switches += u64::from(task != last);
            last = task;
        },
        2_000_000,
    )
    .map_err(|h| h.0)?;
    for d in done {
        d.out?;
    }
    log.set_yields(&[], 0);
    // the writes, in the order of the log
    let recs: Vec<Vec<(u64, u64, Got)>> = recs.into_iter().map(RefCell::into_inner).collect();
    let start = t.m.len();
    let mut worlds = vec![(t.w.clone(), t.m.height())];
    let mut used = std::collections::BTreeSet::new();
    for s in start..log.len() {
        let raw = log.block(s).unwrap_or_default();
        let b = wire::decode_block(&raw).map_err(|e| format!("block {s}: {e:?}"))?;
        let cur = t.w.get(&b.key).map(|e| e.0);
        let who = plans.iter().enumerate().flat_map(|(i, p)| (0..p.len()).map(move |j| (i, j))).find(|(i, j)| {
            let p = &plans[*i][*j];
            p.key == b.key
                && !used.contains(&(*i, *j))
                && match &recs[*i][*j].2 {
                    Got::Put(x) => b.value.as_ref() == Some(&p.value) && *x == (cur, s),
                    Got::Del(x) => b.value.is_none() && x.is_some() && *x == cur,
                    _ => false,
                }
        });
        let Some((i, j)) = who else {
            return Err(format!("block {s} (key {}, {}) is of no operation that returned what it should have there (before it: {cur:?})", show(&b.key), short(&Some((s, b.value)))));
        };
        used.insert((i, j));
        if s < recs[i][j].0 || s >= recs[i][j].1 {
            return Err(format!("block {s} was not written while its operation ran"));
        }
        t.seed(&b.key);
        match b.value {
            Some(v) => drop(t.m.put(&b.key, Some(&v))),
            None => drop(t.m.del(&b.key)),
        }
        t.settle(&b.key);
        same_tail_one(&raw, &t.m, s)?;
        worlds.push((t.w.clone(), t.m.height()));
    }
    let mut overlapping = 0u64;
    for (i, rs) in recs.iter().enumerate() {
        for (j, (from, to, got)) in rs.iter().enumerate() {
            let p = &plans[i][j];
            let wrote = used.contains(&(i, j));
            overlapping += u64::from(to - from > u64::from(wrote));
            if wrote {
                continue;
            }
            let fits = |v: u64| {
                let (w, h) = &worlds[(v - start) as usize];
                match got {
                    Got::Put(_) => false,
                    Got::Del(x) => x.is_none() && w.get(&p.key).is_none(),
                    Got::Get(x) => *x == w.get(&p.key),
                    Got::Scan(x) => *x == want(w, &[], &p.range, N),
                    Got::Height(x) => x == h,
                }
            };
            if !(*from..=*to).any(fits) {
                return Err(format!(
                    "task {i} operation {j} on {} returned {}, which no version from {from} to {to} explains",
                    show(&p.key),
                    crate::runner::trunc(&format!("{got:?}"), 300)
                ));
            }
        }
    }
    for k in t.w.over.keys() {
        for hb in &hs {
            check_get(hb, k, t.w.get(k).as_ref())?;
        }
    }
    cx.add("operations overlapping another's write", overlapping);
    grade(&c.case, cx, overlapping);
    cx.note = Some(format!("{} ways, height {}, {} tasks, {switches} switches, {overlapping} overlapped a write", c.case.ways, c.case.height, plans.len()));
    Ok(())
}
fn same_tail_one(raw: &[u8], m: &JsBee, s: u64) -> R<()> {
    if m.len() != s + 1 || raw != m.raw_at(s) {
        return Err(format!("block {s} is {:?}; after the blocks before it it should be {:?}", wire::decode_block(raw), wire::decode_block(m.raw.last().expect("block"))));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damaged {
    case: Case,
    /// which of the blocks that a step's key needs (from the leaf up, or anywhere), and what is done to it
    bad: Vec<(u8, u16, Mut)>,
}
pub fn strat_damaged(t: Tier) -> BoxedStrategy<Damaged> {
    (strat(t), vec((any::<u8>(), any::<u16>(), mutation()), 1..6)).prop_map(|(case, bad)| Damaged { case, bad }).boxed()
}
pub fn c13(c: &Damaged, cx: &mut Ctx) -> R<()> {
    const MOST: usize = 30;
    let t = Tall::new(&c.case);
    let (g, n) = (t.w.g, t.w.g.n() + 1);
    let mut bad: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    for (which, at, m) in &c.bad {
        let key = t.w.pick(&c.case.steps[*which as usize % c.case.steps.len()].at);
        // mostly where its nodes are, or any block that is looked at
        let on: Vec<u64> = if *which < 200 {
            let (mut path, mut cur) = (vec![], (n - 1, 0u64));
            loop {
                path.push(cur.0);
                let l = g.block(cur.0).levels[cur.1 as usize].clone();
                let i = l.keys.iter().take_while(|x| g.key(**x) < key).count();
                match l.children.get(i) {
                    Some(ch) => cur = *ch,
                    None => break path,
                }
            }
        } else {
            let k = B::Key(key.clone());
            needed(&t.m, &k, &k, true).into_iter().collect()
        };
        let Some(&own) = on.get(*at as usize % on.len().max(1)) else { continue };
        let b = bad.entry(own).or_insert_with(|| wire::encode_block(&g.block(own)));
        damage(b, own, n, m);
    }
    bad.retain(|i, b| *b != wire::encode_block(&g.block(*i)));
    let changed = !bad.is_empty();
    let log = SimLog::made(&t.m.raw[0], n - 1, Arc::new(move |i| Some(bad.get(&i).cloned().unwrap_or_else(|| wire::encode_block(&g.block(i))))));
    let mut hb = bee::open(&log)?;
    let mut seen = Seen::default();
    for s in &c.case.steps {
        if s.cold {
            hb = bee::open(&log)?;
        }
        let key = t.w.pick(&s.at);
        let p = prefix(s, &key, false);
        let (v, k) = via(&hb, p, &key);
        let r = bounded("get", hb.get(&key))?;
        seen.note(&r);
        if let Ok(Some((seq, _))) = r {
            check_entry("get", &log, &key, seq)?;
        }
        let (op, val) = (wop(s), value(s, 0));
        let len = log.len();
        let d = s.d;
        let what = format!("{op:?} {}", show(&key));
        let res: Result<Option<u64>, HyperbeeError> = match op {
            _ if s.x % 3 == 0 => Ok(None),
            WOp::Put(..) => bounded(&what, v.put(&k, val.as_deref()))?.map(|r| Some(r.1)),
            WOp::PutCas(..) => {
                let f: PutCas = Box::new(move |o, n| d.eval(o.map(|o| o.seq), n.seq));
                bounded(&what, v.put_cas(&k, val.as_deref(), f))?.map(|r| r.1)
            }
            WOp::DelCas(..) => {
                let f: DelCas = Box::new(move |o| d.eval(Some(o.seq), len));
                bounded(&what, v.del_cas(&k, f))?.map(|_| None)
            }
            _ => bounded(&what, v.del(&k))?.map(|_| None),
        };
        seen.note(&res);
        match res {
            Ok(Some(seq)) if seq != len || log.len() != len + 1 => return Err(format!("{what} reports log index {seq}, the log went from {len} to {} blocks", log.len())),
            Err(_) if log.len() != len => return Err(format!("{what} fails, and the log went from {len} to {} blocks", log.len())),
            _ => (),
        }
        let own_prefix = own(&v);
        let r = range(s, &t.w, &own_prefix, &k);
        let what = format!("traverse {} below {}", show_range(&r), show(&own_prefix));
        let got = bounded(&what, async {
            let conf = r.conf();
            match &v {
                Via::Main(h) => Ok::<_, HyperbeeError>(first(h.traverse(conf).await?, MOST).await),
                Via::Sub(h, _) => Ok(first(h.traverse(&conf).await?, MOST).await),
            }
        })?;
        match got {
            Ok((items, err)) => {
                for (i, (k, seq, _)) in items.iter().enumerate() {
                    check_entry(&what, &log, &[&own_prefix[..], k].concat(), *seq)?;
                    if !r.has(k) {
                        return Err(format!("{what}: item {i}, {}, is outside the range", show(k)));
                    }
                }
                seen.note(&err.map_or(Ok(()), Err));
            }
            Err(e) => seen.note::<()>(&Err(e)),
        }
        let h = bounded("height", hb.height())?;
        seen.note(&h);
        if let Ok(h) = h {
            if h > 2000 {
                return Err(format!("height() walks {h} levels"));
            }
        }
    }
    let failed = seen.errors;
    cx.add("operations that answered", seen.fine);
    cx.add("operations that failed", failed);
    grade(&c.case, cx, if changed { failed } else { 0 });
    cx.note = Some(format!("height {}, {failed} failed, {} answered", c.case.height, seen.fine));
    Ok(())
}
async fn first(s: impl Stream<Item = Result<KeyValueData, HyperbeeError>>, n: usize) -> (Vec<Item>, Option<HyperbeeError>) {
    futures_util::pin_mut!(s);
    let mut out = vec![];
    while out.len() < n {
        match s.next().await {
            Some(Ok(x)) => out.push(item(x)),
            Some(Err(e)) => return (out, Some(e)),
            None => break,
        }
    }
    (out, None)
}
