//! C24: watching the tree does not disturb it.
use crate::{
    bee::{self, *},
    exec::{self, R},
    gen::{self, drive, Hist, Prim},
    model::Map,
    runner::{part, Ctx, Property, Tier},
};
use futures_util::StreamExt;
use hyperbee::{prefixed::Prefixed, Hyperbee, HyperbeeError};
use hypercore::sim::{Fault, SimLog};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{
    fmt::Write as _,
    future::Future,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
};
use tracing::{
    field::{Field, Visit},
    span, Event, Metadata, Subscriber,
};

/// A subscriber that wants everything up to a level and formats every field of it.
pub struct Everything {
    pub level: tracing::Level,
    pub ids: AtomicU64,
    pub seen: Arc<AtomicU64>,
}
struct Text(String);
impl Visit for Text {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        let _ = write!(self.0, "{}={v:?};{v:#?}", f.name());
    }
}
impl Everything {
    fn took(&self, t: Text) {
        self.seen.fetch_add(1 + std::hint::black_box(t.0).len() as u64, Ordering::Relaxed);
    }
}
impl Subscriber for Everything {
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        m.level() <= &self.level
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        let mut t = Text(String::new());
        a.record(&mut t);
        self.took(t);
        span::Id::from_u64(self.ids.fetch_add(1, Ordering::Relaxed) + 1)
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        let mut t = Text(String::new());
        r.record(&mut t);
        self.took(t);
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut t = Text(String::new());
        e.record(&mut t);
        self.took(t);
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Watched {
    hist: Hist,
    /// polls each storage call stays pending, in turn
    yields: Vec<u8>,
    /// which polls are followed by formatting the handles
    looks: Vec<bool>,
    /// how much is traced: 0 nothing, then ERROR to TRACE
    level: u8,
    #[serde(with = "crate::hex::one")]
    prefix: Vec<u8>,
    /// the k-th storage read of every n-th operation fails
    fault: Option<(u8, u8)>,
}
fn strat(t: Tier) -> BoxedStrategy<Watched> {
    let h = match t {
        Tier::Quick => prop_oneof![2 => gen::hist(30, 20), 2 => gen::hist(90, 12), 1 => gen::grow_drain(30, 90)].boxed(),
        Tier::Thorough => prop_oneof![2 => gen::hist(40, 40), 3 => gen::hist(160, 30), 1 => gen::grow_drain(30, 200)].boxed(),
    };
    (
        h,
        vec(0u8..3, 1..6),
        vec(prop::bool::weighted(0.3), 1..40),
        prop_oneof![1 => Just(0u8), 1 => 1u8..5, 3 => Just(5u8)],
        gen::raw_key(),
        prop_oneof![3 => Just(None), 1 => (0u8..12, 1u8..6).prop_map(Some)],
    )
        .prop_map(|(hist, yields, looks, level, mut prefix, fault)| {
            prefix.truncate(20);
            Watched { hist, yields, looks, level, prefix, fault }
        })
        .boxed()
}

/// What a run shows to its user.
#[derive(Default)]
struct Seen {
    results: Vec<String>,
    blocks: Vec<Vec<u8>>,
}

/// Runs `fut`, formatting `what` between polls as `looks` says.
fn watched<T>(
    fut: impl Future<Output = T>,
    looks: &mut dyn FnMut() -> R<()>,
) -> R<T> {
    let mut fut = Box::pin(fut);
    let mut bad = None;
    let r = exec::run(std::future::poll_fn(|cx| {
        let p = fut.as_mut().poll(cx);
        if let Err(e) = looks() {
            bad.get_or_insert(e);
        }
        p
    }));
    if let Some(e) = bad {
        return Err(e);
    }
    r.map_err(|h| format!("hangs ({})", h.0))
}

fn text<T: std::fmt::Debug>(r: Result<T, HyperbeeError>) -> (String, Option<T>) {
    match r {
        Ok(x) => (format!("{x:?}"), Some(x)),
        Err(e) => (format!("error: {} {e:?}", err_text(&e)), None),
    }
}

fn session(c: &Watched, looking: bool) -> R<(Seen, u64, u64)> {
    struct S {
        hb: Hyperbee,
        sub: Prefixed,
        log: SimLog,
        map: Map,
        seen: Seen,
        stamp: u64,
        n: u64,
        polls: usize,
        looked: u64,
        pending_looks: u64,
    }
    let (hb, log) = bee::fresh();
    let sub = hb.sub(&c.prefix, Default::default());
    let mut s = S { hb, sub, log, map: Map::new(), seen: Seen::default(), stamp: 0, n: 0, polls: 0, looked: 0, pending_looks: 0 };
    s.log.set_yields(&[], 0);
    drive(&mut s, &c.hist.keys, &c.hist.ops, |s| &s.map, |s, p| {
        s.n += 1;
        s.stamp += 1;
        let failing = c.fault.filter(|f| s.n % f.1 as u64 == 0 && f.1 > 1);
        s.log.clear_faults();
        s.log.reset_counters();
        s.log.set_yields(&c.yields, c.yields[0]);
        if let Some((k, _)) = failing {
            s.log.fail_get(k as u64, if k % 2 == 0 { Fault::GetIo } else { Fault::GetMissing });
        }
        let S { hb, sub, log, polls, looked, pending_looks, map, seen, stamp, n } = &mut *s;
        let (stamp, n) = (*stamp, *n);
        let mut this = 0u64;
        let mut look = || -> R<()> {
            *polls += 1;
            this += 1;
            if !looking || !c.looks[*polls % c.looks.len()] {
                return Ok(());
            }
            *looked += 1;
            *pending_looks += u64::from(this > 1);
            if *polls % 2 == 0 {
                std::hint::black_box(format!("{hb:?}"));
            } else {
                std::hint::black_box(format!("{sub:#?}"));
            }
            Ok(())
        };
        let key = match &p {
            Prim::Put(k, _) | Prim::Del(k) | Prim::Get(k) => k.clone(),
        };
        let mut keep: Option<Option<Vec<u8>>> = None;
        let out = match &p {
            Prim::Put(k, v) => {
                let v = v.bytes(stamp);
                let (t, r) = match stamp % 4 {
                    0 => {
                        let (t, r) = text(watched(hb.put_compare_and_swap(k, v.as_deref(), |o, n| o.is_none() || n.seq % 2 == 0), &mut look)?);
                        (t, r.and_then(|(o, n)| n.map(|n| (o, n))))
                    }
                    1 => text(watched(sub.put(k, v.as_deref()), &mut look)?),
                    _ => text(watched(hb.put(k, v.as_deref()), &mut look)?),
                };
                if r.is_some() && stamp % 4 != 1 {
                    keep = Some(v);
                }
                t
            }
            Prim::Del(k) => {
                let (t, r) = text(watched(hb.del(k), &mut look)?);
                if r.is_some() {
                    map.remove(k);
                }
                t
            }
            Prim::Get(k) => text(watched(hb.get(k), &mut look)?).0,
        };
        seen.results.push(format!("{} -> {out}", crate::props::maps::show_prim(&p)));
        if let Some(v) = keep {
            let at = log.len() - 1;
            map.insert(key, (at, v));
        }
        if n % 7 == 0 {
            let items = watched(
                async {
                    let mut out = String::new();
                    match hb.traverse(Range::all(n % 2 == 0).conf()).await {
                        Err(e) => out += &format!("error: {e:?}"),
                        Ok(t) => {
                            let mut t = Box::pin(t);
                            while let Some(x) = t.next().await {
                                out += &format!("{x:?};");
                            }
                        }
                    }
                    out
                },
                &mut look,
            )?;
            seen.results.push(items);
            seen.results.push(text(watched(hb.height(), &mut look)?).0);
            seen.results.push(text(watched(hb.print(), &mut look)?).0);
        }
        Ok(())
    })?;
    s.seen.blocks = s.log.blocks();
    Ok((s.seen, s.looked, s.pending_looks))
}

fn c24(c: &Watched, cx: &mut Ctx) -> R<()> {
    let (plain, ..) = session(c, false)?;
    let seen = Arc::new(AtomicU64::new(0));
    let level = match c.level {
        1 => tracing::Level::ERROR,
        2 => tracing::Level::WARN,
        3 => tracing::Level::INFO,
        4 => tracing::Level::DEBUG,
        _ => tracing::Level::TRACE,
    };
    let (got, looked, pending) = if c.level == 0 {
        session(c, true)?
    } else {
        tracing::subscriber::with_default(Everything { level, ids: AtomicU64::new(0), seen: seen.clone() }, || session(c, true))?
    };
    for (i, (a, b)) in plain.results.iter().zip(&got.results).enumerate() {
        if a != b {
            return Err(format!("watched, step {i} gave {}; unwatched it gave {}", crate::runner::trunc(b, 300), crate::runner::trunc(a, 300)));
        }
    }
    if plain.results.len() != got.results.len() {
        return Err("watched, the history took another course".into());
    }
    if plain.blocks != got.blocks {
        return Err("watched, the log came out different".into());
    }
    let traced = seen.load(Ordering::Relaxed);
    cx.class("traced", traced > 0);
    cx.class("formatted while an operation was pending", pending > 0);
    cx.class("with failing reads", c.fault.is_some());
    cx.add("looks", looked);
    cx.nontrivial = plain.blocks.len() > 12 && (traced > 0 || pending > 0);
    cx.note = Some(format!("{} results, {} blocks, {looked} looks ({pending} while pending), {traced} characters traced", plain.results.len(), plain.blocks.len()));
    Ok(())
}

pub fn c24_prop() -> Property {
    Property {
        id: "C24",
        level: "exploration",
        rule: "a generated history (puts, conditional puts, deletes, gets, a sub-tree, traversals, height, print, some reads failing, storage calls that stay pending) is run twice: plainly, and with a tracing subscriber that formats every span and event up to a generated level while the handles are formatted with {:?} and {:#?} between polls; every result, item and error text, and the log's bytes, must be the same. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: more than twelve blocks, and something traced or formatted while an operation was pending; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["hypercore is the offline stand-in in /verif/stubs"],
        parts: vec![part("watched", 1500, 30000, strat, c24), part("tall", 2000, 60000, super::tall::strat, super::tall::c24)],
    }
}
