//! C12: readers whose log arrives from elsewhere.
use crate::{
    bee::{self, *},
    exec::{self, R},
    gen::{self, Hist, KSel, RSel, V},
    model::{JsBee, Map},
    props::reads::grow_model,
    props::writes::*,
    runner::{part, Ctx, Property, Tier},
};
use futures_lite::{AsyncRead, AsyncWrite};
use futures_util::{Stream, StreamExt};
use hyperbee::{Hyperbee, HyperbeeError, KeyValueData};
use hypercore::sim::SimLog;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{
    pin::Pin,
    sync::{atomic::{AtomicU8, Ordering}, Arc, Mutex},
    task::{Context, Poll, Waker},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    /// the peer announces that many more blocks
    Announce(u16),
    /// one of the blocks that have not arrived (the log grows to hold it)
    Arrive { which: u16, ahead: u8 },
    /// the missing blocks from the front / the back of what is announced
    ArriveMany { n: u16, back: bool },
    /// what is missing below the announced length
    ArriveAll,
    /// drop local copies
    Clear { at: u16, n: u8 },
    Get(KSel, bool),
    Scan(RSel, bool),
    View(bool),
    TryPut(KSel),
    TryDel(KSel),
    Reopen,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Arrivals {
    hist: Hist,
    ops: Vec<Ev>,
    yields: u8,
}
fn strat_a(t: Tier) -> BoxedStrategy<Arrivals> {
    let op = prop_oneof![
        2 => prop_oneof![1u16..4, any::<u16>()].prop_map(Ev::Announce),
        4 => (any::<u16>(), prop_oneof![3 => Just(0u8), 1 => 1u8..20]).prop_map(|(which, ahead)| Ev::Arrive { which, ahead }),
        3 => (prop_oneof![1u16..10, any::<u16>()], any::<bool>()).prop_map(|(n, back)| Ev::ArriveMany { n, back }),
        1 => Just(Ev::ArriveAll),
        1 => (any::<u16>(), 1u8..30).prop_map(|(at, n)| Ev::Clear { at, n }),
        6 => (gen::ksel(), prop::bool::weighted(0.2)).prop_map(|(k, s)| Ev::Get(k, s)),
        4 => (gen::rsel(), prop::bool::weighted(0.2)).prop_map(|(k, s)| Ev::Scan(k, s)),
        1 => any::<bool>().prop_map(Ev::View),
        1 => gen::ksel().prop_map(Ev::TryPut),
        1 => gen::ksel().prop_map(Ev::TryDel),
        1 => Just(Ev::Reopen),
    ];
    let n = if t == Tier::Quick { 50 } else { 120 };
    let h = prop_oneof![1 => gen::hist(12, 4), 3 => gen::hist(160, 12), 2 => gen::grow_drain(30, 200)];
    (h, vec(op, 3..n), 0u8..2).prop_map(|(hist, ops, yields)| Arrivals { hist, ops, yields }).boxed()
}

/// The writer's map at every length of its log.
pub fn maps_of(m: &JsBee) -> Vec<Map> {
    let mut out = vec![Map::new()];
    for b in &m.blocks {
        let mut map = out.last().unwrap().clone();
        if let Some(b) = b {
            // a data block of this model is one put or one delete; the model tells which
            let seq = out.len() as u64 - 1;
            let held = b.levels.iter().any(|l| l.keys.contains(&seq));
            if held {
                map.insert(b.key.clone(), (seq, b.value.clone()));
            } else {
                map.remove(&b.key);
            }
        }
        out.push(map);
    }
    out
}

/// Items up to the first error, and that error.
async fn drain(s: impl Stream<Item = Result<KeyValueData, HyperbeeError>>, limit: usize) -> (Vec<Item>, Option<HyperbeeError>) {
    let mut s = Box::pin(s);
    let mut out = vec![];
    while let Some(x) = s.next().await {
        match x {
            Ok(kv) => out.push(item(kv)),
            Err(e) => return (out, Some(e)),
        }
        if out.len() > limit {
            break;
        }
    }
    (out, None)
}
async fn scan(via: &Via<'_>, r: &Range, limit: usize) -> (Vec<Item>, Option<HyperbeeError>) {
    match via {
        Via::Main(h) => match h.traverse(r.conf()).await {
            Ok(s) => drain(s, limit).await,
            Err(e) => (vec![], Some(e)),
        },
        Via::Sub(h, _) => match h.traverse(&r.conf()).await {
            Ok(s) => drain(s, limit).await,
            Err(e) => (vec![], Some(e)),
        },
    }
}

fn missing(log: &SimLog, len: u64) -> Vec<u64> {
    (0..len).filter(|s| !log.has(*s)).collect()
}

/// Read at the reader's current length; `true` when it was an error.
fn reader_get(hb: &Hyperbee, log: &SimLog, map: &Map, k: &[u8], sub: bool) -> R<bool> {
    let via = via_of(hb, sub);
    let full = via.full(k);
    let len = log.len();
    match maybe("get", via.get(k))? {
        Ok(got) => {
            if got.as_ref() != map.get(&full) {
                return Err(format!(
                    "the reader at length {len} answers get({}) with {:?}, the writer then had {:?}",
                    show(&full),
                    short(&got),
                    short(&map.get(&full).cloned())
                ));
            }
            Ok(false)
        }
        Err(e) => {
            if missing(log, len).iter().all(|s| *s == 0) {
                return Err(format!("get({}) at length {len} fails though every block is there: {}", show(&full), err_text(&e)));
            }
            Ok(true)
        }
    }
}
fn reader_scan(hb: &Hyperbee, log: &SimLog, map: &Map, r: &RSel, keys: &gen::Keys, sub: bool) -> R<bool> {
    let via = via_of(hb, sub);
    let view = if sub { view_of(map, SUB) } else { map.clone() };
    let range = r.pick(keys, &view);
    let want = range.want(&view);
    let len = log.len();
    let (got, e) = exec::run(scan(&via, &range, want.len() + 8)).map_err(|h| format!("traverse: hangs ({})", h.0))?;
    let what = format!("the reader at length {len}: traverse{} {}", if sub { " of the sub-tree" } else { "" }, show_range(&range));
    match e {
        None => diff_items(&what, &got, &want).map(|_| false),
        Some(HyperbeeError::NoRootError) if len <= 1 => Ok(false),
        Some(e) => {
            if !want.starts_with(&got) {
                return diff_items(&format!("{what} (before its error)"), &got, &want).map(|_| true);
            }
            if missing(log, len).iter().all(|s| *s == 0) {
                return Err(format!("{what} fails though every block is there: {}", err_text(&e)));
            }
            Ok(true)
        }
    }
}

fn c12a(c: &Arrivals, cx: &mut Ctx) -> R<()> {
    let m = grow_model(&c.hist);
    let maps = maps_of(&m);
    if maps.last() != Some(&m.map) {
        return Err("harness: the maps do not follow the log".into());
    }
    let log = SimLog::new();
    log.set_writable(false);
    log.set_yields(&[], c.yields);
    let mut hb = bee::open(&log)?;
    let total = m.len();
    let (mut errors, mut partial_ok) = (0u64, 0u64);
    let check_len = |hb: &Hyperbee| -> R<()> {
        let v = exec::run(hb.version()).map_err(|h| h.0)?;
        if v != log.len() {
            return Err(format!("version {v} on a log of length {}", log.len()));
        }
        Ok(())
    };
    for op in &c.ops {
        let len = log.len();
        let map = &maps[len as usize];
        let holes = missing(&log, len);
        let tally = |err: bool, errors: &mut u64, ok: &mut u64| {
            if err {
                *errors += 1
            } else if !holes.is_empty() && len > 1 {
                *ok += 1
            }
        };
        match op {
            Ev::Announce(n) => {
                let left = total - len;
                let n = if *n < 4 { *n as u64 } else { *n as u64 % (left + 1) };
                log.set_remote_len(len + n.min(left));
            }
            Ev::Arrive { which, ahead } => {
                let to = (len + *ahead as u64).min(total);
                let mut holes = missing(&log, len);
                holes.extend(len..to);
                if !holes.is_empty() {
                    let s = holes[*which as usize % holes.len()];
                    log.put_remote(s, &m.raw[s as usize]);
                }
            }
            Ev::ArriveMany { n, back } => {
                let mut h = holes.clone();
                if *back {
                    h.reverse();
                }
                for s in h.iter().take(1 + *n as usize % 40) {
                    log.put_remote(*s, &m.raw[*s as usize]);
                }
            }
            Ev::ArriveAll => {
                for s in holes {
                    log.put_remote(s, &m.raw[s as usize]);
                }
            }
            Ev::Clear { at, n } => {
                if len > 0 {
                    let s = *at as u64 % len;
                    log.clear(s, s + *n as u64);
                }
            }
            Ev::Get(k, sub) => {
                let view = if *sub { view_of(map, SUB) } else { map.clone() };
                let k = k.pick(&c.hist.keys, &view);
                let e = reader_get(&hb, &log, map, &k, *sub)?;
                tally(e, &mut errors, &mut partial_ok);
            }
            Ev::Scan(r, sub) => {
                let e = reader_scan(&hb, &log, map, r, &c.hist.keys, *sub)?;
                tally(e, &mut errors, &mut partial_ok);
            }
            Ev::View(print) => {
                let e = if *print && len > 1 {
                    let text: Option<Vec<String>> = map.keys().map(|k| String::from_utf8(k.clone()).ok()).collect();
                    match (maybe("print", hb.print())?, text) {
                        (_, None) => None,
                        (Ok(got), Some(keys)) => {
                            let flat = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
                            if flat(&got) != flat(&keys.concat()) {
                                return Err(format!("the reader at length {len} prints {got:?}, the writer's keys were {keys:?}"));
                            }
                            None
                        }
                        (Err(e), Some(_)) => Some(e),
                    }
                } else {
                    match maybe("height", hb.height())? {
                        Ok(h) => {
                            let mut at = m.clone();
                            at.raw.truncate(len as usize);
                            at.blocks.truncate(len as usize);
                            if h != at.height() {
                                return Err(format!("the reader at length {len} reports height {h}, the writer's was {}", at.height()));
                            }
                            None
                        }
                        Err(e) => Some(e),
                    }
                };
                if let Some(e) = e {
                    if holes.iter().all(|s| *s == 0) {
                        return Err(format!("the debug view fails at length {len} though every block is there: {}", err_text(&e)));
                    }
                }
            }
            Ev::TryPut(k) => {
                let k = k.pick(&c.hist.keys, map);
                if maybe("put", hb.put(&k, Some(b"x")))?.is_ok() {
                    return Err(format!("put({}) on a read-only core reports success", show(&k)));
                }
            }
            Ev::TryDel(k) => {
                let k = k.pick(&c.hist.keys, map);
                if let Ok(Some(_)) = maybe("del", hb.del(&k))? {
                    return Err(format!("del({}) on a read-only core reports success", show(&k)));
                }
            }
            Ev::Reopen => hb = bee::open(&log)?,
        }
        check_len(&hb)?;
    }
    // everything arrives: the same handle answers everything
    for s in 0..total {
        log.put_remote(s, &m.raw[s as usize]);
    }
    let absent: Vec<Vec<u8>> = (0..6).map(|i| c.hist.keys.key(i * 7)).collect();
    check_all(&hb, &m.map, &absent).map_err(|e| format!("once every block has arrived: {e}"))?;
    if log.blocks() != m.raw {
        return Err("the reader's log differs from the writer's".into());
    }
    cx.add("reads that met a missing block", errors);
    cx.add("reads answered from a log with holes", partial_ok);
    cx.nontrivial = errors > 0 && m.height() >= 2;
    cx.note = Some(format!("{} events, {errors} reads failed on missing blocks, {partial_ok} were answered despite holes", c.ops.len()));
    Ok(())
}

// ---- over a stream ----------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SEv {
    /// connect reader `i`; who initiates; which side is added first
    Connect { i: u8, writer_initiates: bool, reader_first: bool },
    /// the connection of reader `i` breaks: reading ends, or fails
    Cut { i: u8, fails: bool },
    Put(KSel, V),
    Del(KSel),
    Fill(u8),
    /// let the connection run for this many turns
    Turn(u8),
    Get { i: u8, k: KSel },
    Scan { i: u8, r: RSel },
    /// wait until every connected reader is up to date
    Sync,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Streams {
    hist: Hist,
    ops: Vec<SEv>,
}
fn strat_b(t: Tier) -> BoxedStrategy<Streams> {
    let op = prop_oneof![
        3 => (0u8..3, any::<bool>(), any::<bool>()).prop_map(|(i, writer_initiates, reader_first)| SEv::Connect { i, writer_initiates, reader_first }),
        2 => (0u8..3, any::<bool>()).prop_map(|(i, fails)| SEv::Cut { i, fails }),
        3 => (gen::ksel(), gen::val()).prop_map(|(k, v)| SEv::Put(k, v)),
        2 => gen::ksel().prop_map(SEv::Del),
        1 => (1u8..40).prop_map(SEv::Fill),
        2 => (1u8..40).prop_map(SEv::Turn),
        2 => (0u8..3, gen::ksel()).prop_map(|(i, k)| SEv::Get { i, k }),
        1 => (0u8..3, gen::rsel()).prop_map(|(i, r)| SEv::Scan { i, r }),
        1 => Just(SEv::Sync),
    ];
    let n = if t == Tier::Quick { 24 } else { 60 };
    let empty = gen::keys(40).prop_map(|keys| Hist { keys, ops: vec![] });
    let h = prop_oneof![1 => empty, 2 => gen::hist(120, 10)];
    (h, any::<(bool, bool)>(), vec(op, 2..n))
        .prop_map(|(hist, (writer_initiates, reader_first), mut ops)| {
            let at = if reader_first { 0 } else { ops.len() / 2 };
            ops.insert(at, SEv::Connect { i: 0, writer_initiates, reader_first });
            Streams { hist, ops }
        })
        .boxed()
}
struct Reader {
    hb: Hyperbee,
    log: SimLog,
    connected: bool,
    /// how often it was connected, and cuts its last connection
    times: u32,
    cut: Option<Arc<Cut>>,
}
#[derive(Default)]
struct Cut {
    /// 0: sound, 1: at its end, 2: broken
    state: AtomicU8,
    wakers: Mutex<Vec<Waker>>,
}
impl Cut {
    fn now(&self, fails: bool) {
        self.state.store(1 + u8::from(fails), Ordering::SeqCst);
        self.wakers.lock().unwrap().drain(..).for_each(Waker::wake);
    }
    fn gone(&self, cx: &Context<'_>) -> Option<std::io::Result<usize>> {
        self.wakers.lock().unwrap().push(cx.waker().clone());
        match self.state.load(Ordering::SeqCst) {
            0 => None,
            1 => Some(Ok(0)),
            _ => Some(Err(std::io::ErrorKind::ConnectionReset.into())),
        }
    }
}
/// One end of a connection that can be cut.
struct Line<S>(S, Arc<Cut>);
impl<S: AsyncRead + Unpin> AsyncRead for Line<S> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        match self.1.gone(cx) {
            Some(r) => Poll::Ready(r),
            None => Pin::new(&mut self.0).poll_read(cx, buf),
        }
    }
}
impl<S: AsyncWrite + Unpin> AsyncWrite for Line<S> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        match self.1.gone(cx) {
            Some(_) => Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into())),
            None => Pin::new(&mut self.0).poll_write(cx, buf),
        }
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}
fn c12b(c: &Streams, cx: &mut Ctx) -> R<()> {
    exec::reset_rt();
    let r = c12b_in(c, cx);
    exec::reset_rt();
    r
}
fn turns(n: u32) -> R<()> {
    exec::run(async {
        for _ in 0..n {
            tokio::task::yield_now().await;
        }
    })
    .map_err(|h| h.0)
}
fn c12b_in(c: &Streams, cx: &mut Ctx) -> R<()> {
    let mut m = grow_model(&c.hist);
    let mut maps = maps_of(&m);
    let (writer, wlog) = bee::over(&m.raw)?;
    let mut readers = vec![];
    for _ in 0..3 {
        let log = SimLog::new();
        log.set_writable(false);
        readers.push(Reader { hb: bee::open(&log)?, log, connected: false, times: 0, cut: None });
    }
    let mut stamp = 6_000_000u64;
    let mut synced_blocks = 0u64;
    let sync = |readers: &[Reader], m: &JsBee| -> R<()> {
        for (i, r) in readers.iter().enumerate().filter(|(_, r)| r.connected) {
            let mut left = 400 + 40 * m.len();
            while r.log.len() < m.len() || !missing(&r.log, m.len()).is_empty() {
                turns(5)?;
                left -= 1;
                if left == 0 {
                    return Err(format!(
                        "reader {i} is connected but stays at length {} of {} (replication: {:?} / {:?})",
                        r.log.len(),
                        m.len(),
                        r.log.replication_errors(),
                        wlog.replication_errors()
                    ));
                }
            }
            if r.log.blocks() != m.raw {
                return Err(format!("reader {i} received other blocks than the writer's"));
            }
            let absent: Vec<Vec<u8>> = (0..4).map(|i| c.hist.keys.key(i * 5)).collect();
            check_all(&r.hb, &m.map, &absent).map_err(|e| format!("reader {i}, up to date: {e}"))?;
        }
        Ok(())
    };
    for op in &c.ops {
        stamp += 1;
        match op {
            SEv::Connect { i, writer_initiates, reader_first } => {
                let r = &mut readers[*i as usize % 3];
                if r.connected {
                    continue;
                }
                r.connected = true;
                r.times += 1;
                let cut = Arc::new(Cut::default());
                let (a, b) = replicator::utils::create_connected_streams();
                let (a, b) = (Line(a, cut.clone()), Line(b, cut.clone()));
                r.cut = Some(cut);
                exec::run(async {
                    if *reader_first {
                        r.hb.add_stream(b, !*writer_initiates).await?;
                        writer.add_stream(a, *writer_initiates).await
                    } else {
                        writer.add_stream(a, *writer_initiates).await?;
                        r.hb.add_stream(b, !*writer_initiates).await
                    }
                })
                .map_err(|h| format!("add_stream: hangs ({})", h.0))?
                .map_err(|e| format!("add_stream: {}", err_text(&e)))?;
            }
            SEv::Cut { i, fails } => {
                let r = &mut readers[*i as usize % 3];
                r.connected = false;
                if let Some(cut) = r.cut.take() {
                    cut.now(*fails);
                }
            }
            SEv::Put(k, v) => {
                let k = k.pick(&c.hist.keys, &m.map);
                let v = v.bytes(stamp);
                ok("put", writer.put(&k, v.as_deref()))?;
                m.put(&k, v.as_deref());
            }
            SEv::Del(k) => {
                let k = k.pick(&c.hist.keys, &m.map);
                ok("del", writer.del(&k))?;
                m.del(&k);
            }
            SEv::Fill(n) => {
                for j in 0..*n as usize {
                    let k = c.hist.keys.key(j * 3 + stamp as usize);
                    ok("put", writer.put(&k, Some(b"f")))?;
                    m.put(&k, Some(b"f"));
                }
            }
            SEv::Turn(n) => turns(*n as u32)?,
            SEv::Get { i, k } => {
                let r = &readers[*i as usize % 3];
                let len = r.log.len();
                // the blocks may arrive while it reads: then either length is right
                let k = k.pick(&c.hist.keys, &m.map);
                if let Ok(got) = maybe("get", r.hb.get(&k))? {
                    let fits = (len..=r.log.len()).any(|l| maps.get(l as usize).is_some_and(|m| m.get(&k) == got.as_ref()));
                    if !fits {
                        return Err(format!("reader {i} at length {len} to {} answers get({}) with {:?}", r.log.len(), show(&k), short(&got)));
                    }
                }
            }
            SEv::Scan { i, r: rs } => {
                let r = &readers[*i as usize % 3];
                let len = r.log.len();
                let range = rs.pick(&c.hist.keys, &m.map);
                let (got, e) = exec::run(scan(&Via::Main(&r.hb), &range, m.map.len() + 8)).map_err(|h| format!("traverse: hangs ({})", h.0))?;
                let fits = (len..=r.log.len()).any(|l| {
                    maps.get(l as usize).is_some_and(|m| {
                        let want = range.want(m);
                        if e.is_some() {
                            want.starts_with(&got)
                        } else {
                            want == got
                        }
                    })
                });
                if !fits {
                    return Err(format!("reader {i} at length {len}: traverse {} gave {} entries that the writer did not have then", show_range(&range), got.len()));
                }
            }
            SEv::Sync => sync(&readers, &m)?,
        }
        while maps.len() <= m.len() as usize {
            // lengths inside a Fill are exact too
            maps = maps_of(&m);
        }
    }
    sync(&readers, &m)?;
    for r in &readers {
        if r.connected {
            synced_blocks += r.log.len();
        } else if r.times == 0 && !r.log.is_empty() {
            return Err("a reader that was never connected has blocks".into());
        }
    }
    cx.add("blocks replicated", synced_blocks);
    cx.add("connections made again", readers.iter().map(|r| r.times.saturating_sub(1) as u64).sum());
    cx.add("readers connected", readers.iter().filter(|r| r.connected).count() as u64);
    cx.nontrivial = synced_blocks > 3;
    cx.note = Some(format!("{} events, {synced_blocks} blocks replicated", c.ops.len()));
    Ok(())
}

pub fn c12_prop() -> Property {
    Property {
        id: "C12",
        level: "exploration",
        rule: "arrivals: a reader handle on a read-only core that receives the blocks of a generated writer's log in a generated order (length announced before the blocks, blocks ahead of others, local copies dropped again), read in between; each answer must be the writer's at the reader's length or, only while blocks are missing, an error (a traversal's items before its error the right ones); at the end everything arrives and everything must be answered. streams: a writer and up to three readers joined with add_stream in both roles while the writer goes on writing, connections breaking anywhere and made again; a connected reader must reach the writer's blocks and answers. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: a read met a missing block on a tree of two levels or more / more than three blocks were replicated; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["hypercore and replicator are the offline stand-ins in /verif/stubs: a connection needs exactly one initiator, blocks come unaltered (verification is hypercore's), logs are not truncated"],
        parts: vec![part("arrivals", 24000, 300_000, strat_a, c12a), part("streams", 4500, 60_000, strat_b, c12b), part("tall", 5000, 60000, super::tall::strat, super::tall::c12)],
    }
}
