//! C14: the C symbols, called as a C program would.
use super::{
    giant::{sel, Sel, World},
    reads::grow_model,
};
use crate::{
    bee::{self, maybe, show},
    gen::{self, Hist, KSel},
    exec::R,
    model::Giant,
    runner::{part, Ctx, Property, Tier},
    wire,
};
use hypercore::sim::{Fault, SimLog};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{
    cell::Cell,
    ffi::{c_char, c_void, CStr, CString},
    path::Path,
    sync::{atomic::{AtomicBool, AtomicIsize, Ordering}, Mutex},
    time::{Duration, Instant},
};

type Cb = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);
#[allow(clashing_extern_declarations)]
extern "C" {
    fn init_runtime() -> *mut c_void;
    fn close_runtime(rt: *mut c_void);
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut c_void;
    fn close_hyperbee(hb: *mut c_void);
    fn hb_get(rt: *mut c_void, hb: *mut c_void, key: *const u8, len: usize, cb: Cb) -> i32;
    fn deallocate_rust_string(p: *mut c_char);
    fn deallocate_rust_buffer(p: *mut u8, len: usize);
}

/// What a callback was given. The pointers stay owned by whoever takes this out of the table.
#[derive(Debug, Clone, Copy)]
struct Call {
    code: i64,
    msg: usize,
    seq: u64,
    buf: usize,
    len: usize,
}
/// concurrent cases, and callbacks in use by one case at a time
const SLOTS: usize = 16;
const FLIGHT: usize = 9;
#[allow(clippy::declare_interior_mutable_const)]
const NONE: Mutex<Vec<Call>> = Mutex::new(Vec::new());
#[allow(clippy::declare_interior_mutable_const)]
const ROW: [Mutex<Vec<Call>>; FLIGHT] = [NONE; FLIGHT];
static CALLS: [[Mutex<Vec<Call>>; FLIGHT]; SLOTS] = [ROW; SLOTS];
#[allow(clippy::declare_interior_mutable_const)]
const FREE: AtomicBool = AtomicBool::new(false);
static TAKEN: [AtomicBool; SLOTS] = [FREE; SLOTS];

unsafe extern "C" fn cb<const S: usize, const F: usize>(code: i64, msg: *const c_char, seq: u64, buf: *mut u8, len: usize) {
    // what the thread that answers allocates and releases from now on belongs to the same case
    ACCOUNT.with(|a| a.set(S + 1));
    CALLS[S][F].lock().unwrap_or_else(|e| e.into_inner()).push(Call { code, msg: msg as usize, seq, buf: buf as usize, len });
}
macro_rules! row {
    ($s:literal) => {
        [cb::<$s, 0> as Cb, cb::<$s, 1>, cb::<$s, 2>, cb::<$s, 3>, cb::<$s, 4>, cb::<$s, 5>, cb::<$s, 6>, cb::<$s, 7>, cb::<$s, 8>]
    };
}
static CBS: [[Cb; FLIGHT]; SLOTS] =
    [row!(0), row!(1), row!(2), row!(3), row!(4), row!(5), row!(6), row!(7), row!(8), row!(9), row!(10), row!(11), row!(12), row!(13), row!(14), row!(15)];

struct Slot(usize);
impl Slot {
    fn take() -> Slot {
        loop {
            for (i, t) in TAKEN.iter().enumerate() {
                if !t.swap(true, Ordering::SeqCst) {
                    for c in &CALLS[i] {
                        c.lock().unwrap_or_else(|e| e.into_inner()).clear();
                    }
                    return Slot(i);
                }
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    fn calls(&self, f: usize) -> Vec<Call> {
        CALLS[self.0][f].lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
    fn clear(&self, f: usize) {
        CALLS[self.0][f].lock().unwrap_or_else(|e| e.into_inner()).clear();
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        TAKEN[self.0].store(false, Ordering::SeqCst);
    }
}

// ---- an allocator that notices releases that do not fit the allocation --------

thread_local! {
    static MISFIT: Cell<Option<(usize, usize)>> = const { Cell::new(None) };
}
pub struct Checking;

thread_local! {
    /// bytes this thread has allocated and not released, since its case began
    static NET: Cell<isize> = const { Cell::new(0) };
    /// 1 + the slot of the case that what this thread allocates is put down to, or 0
    static ACCOUNT: Cell<usize> = const { Cell::new(0) };
    /// an address to look out for, and whether it was released
    static RELEASED: Cell<(usize, bool)> = const { Cell::new((0, false)) };
}
/// No case needs this much; one that does is not going to stop.
const NET_LIMIT: isize = 3 << 30;
static MOST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn forget_allocations() {
    NET.with(|n| n.set(0));
}
pub fn net_allocated() -> isize {
    NET.with(|n| n.get())
}
pub fn most_memory() -> usize {
    MOST.load(Ordering::Relaxed)
}
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicIsize = AtomicIsize::new(0);
/// bytes allocated and not released by the case in each slot and the threads that answered its lookups
static ACCOUNTS: [AtomicIsize; SLOTS] = [ZERO; SLOTS];
struct Account(usize);
impl Account {
    fn of(s: &Slot) -> Account {
        ACCOUNTS[s.0].store(0, Ordering::SeqCst);
        ACCOUNT.with(|a| a.set(s.0 + 1));
        Account(s.0)
    }
    fn now(&self) -> isize {
        ACCOUNTS[self.0].load(Ordering::SeqCst)
    }
    /// The least there is within this time, or the first that is at most `enough`.
    fn settled(&self, within: Duration, enough: isize) -> isize {
        let t = Instant::now();
        let mut least = self.now();
        while least > enough && t.elapsed() < within {
            std::thread::yield_now();
            least = least.min(self.now());
        }
        least
    }
}
impl Drop for Account {
    fn drop(&mut self) {
        ACCOUNT.with(|a| a.set(0));
    }
}
fn grew(by: isize) {
    let _ = ACCOUNT.try_with(|a| {
        if a.get() > 0 {
            ACCOUNTS[a.get() - 1].fetch_add(by, Ordering::SeqCst);
        }
    });
    let _ = NET.try_with(|n| {
        let now = n.get() + by;
        n.set(now);
        if by > 65536 && now > 0 {
            MOST.fetch_max(now as usize, Ordering::Relaxed);
        }
        if now > NET_LIMIT {
            // reported by the supervisor, like any other crash
            std::process::abort();
        }
    });
}
const HEAD: usize = 16;
const MAGIC: usize = 0x5bee_a110_c8ed_0001;
// SAFETY: passes everything on to the system allocator, with a header before each block.
unsafe impl std::alloc::GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.align() > HEAD {
            return std::alloc::System.alloc(l);
        }
        let p = std::alloc::System.alloc(std::alloc::Layout::from_size_align_unchecked(l.size() + HEAD, HEAD));
        if p.is_null() {
            return p;
        }
        (p as *mut usize).write(l.size());
        (p as *mut usize).add(1).write(MAGIC);
        grew(l.size() as isize);
        p.add(HEAD)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if l.align() > HEAD {
            return std::alloc::System.dealloc(p, l);
        }
        let q = p.sub(HEAD);
        let (size, magic) = ((q as *mut usize).read(), (q as *mut usize).add(1).read());
        if magic != MAGIC {
            let _ = MISFIT.try_with(|m| m.set(Some((usize::MAX, l.size()))));
            return; // released before, or never allocated: leave it
        }
        if size != l.size() {
            let _ = MISFIT.try_with(|m| m.set(Some((size, l.size()))));
        }
        (q as *mut usize).add(1).write(0);
        grew(-(size as isize));
        let _ = RELEASED.try_with(|r| {
            if r.get().0 == p as usize {
                r.set((p as usize, true))
            }
        });
        std::alloc::System.dealloc(q, std::alloc::Layout::from_size_align_unchecked(size + HEAD, HEAD));
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if l.align() > HEAD {
            return std::alloc::System.realloc(p, l, n);
        }
        let q = p.sub(HEAD);
        let size = (q as *mut usize).read();
        let r = std::alloc::System.realloc(q, std::alloc::Layout::from_size_align_unchecked(size + HEAD, HEAD), n + HEAD);
        if r.is_null() {
            return r;
        }
        (r as *mut usize).write(n);
        grew(n as isize - size as isize);
        r.add(HEAD)
    }
}

/// Whether `f` gives the memory at `at` back.
fn releases(at: usize, f: impl FnOnce()) -> R<()> {
    RELEASED.with(|r| r.set((at, false)));
    f();
    if !RELEASED.with(|r| r.replace((0, false))).1 {
        return Err("releasing does not give back the memory of".into());
    }
    Ok(())
}

// ---- the check -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Look {
    Key(KSel),
    /// the empty key, given as (null, 0)
    Null,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Harm {
    /// one block is replaced by other bytes
    Block(u16, u8),
    /// the storage file ends inside a block
    Cut(u16),
    /// the path is a file, or below one
    File(bool),
    NullPath,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ffi {
    hist: Hist,
    header_only: bool,
    name: u8,
    harm: Option<Harm>,
    /// looked up in flights of this many
    groups: Vec<Vec<Look>>,
    reopen: bool,
    release_order: u8,
}
pub fn strat(t: Tier) -> BoxedStrategy<Ffi> {
    let look = prop_oneof![12 => gen::ksel().prop_map(Look::Key), 1 => Just(Look::Null)];
    let harm = prop_oneof![
        12 => Just(None),
        6 => (any::<u16>(), any::<u8>()).prop_map(|(b, k)| Some(Harm::Block(b, k))),
        1 => any::<u16>().prop_map(|n| Some(Harm::Cut(n))),
        1 => any::<bool>().prop_map(|b| Some(Harm::File(b))),
        1 => Just(Some(Harm::NullPath)),
    ];
    let n = if t == Tier::Quick { 120 } else { 400 };
    let h = prop_oneof![4 => gen::hist(n, 12), 2 => gen::grow_drain(20, n), 1 => gen::keys(20).prop_map(|keys| Hist { keys, ops: vec![] })];
    (h, any::<bool>(), 0u8..4, harm, vec(vec(look, 1..FLIGHT), 1..6), any::<bool>(), any::<u8>())
        .prop_map(|(hist, header_only, name, harm, groups, reopen, release_order)| Ffi { hist, header_only, name, harm, groups, reopen, release_order })
        .boxed()
}

pub fn write_dir(dir: &Path, blocks: &[Vec<u8>]) {
    // the stand-in's format: length-prefixed blocks
    std::fs::create_dir_all(dir).expect("scratch");
    let mut raw = vec![];
    for b in blocks {
        raw.extend_from_slice(&(b.len() as u32).to_le_bytes());
        raw.extend_from_slice(b);
    }
    std::fs::write(dir.join("data"), raw).expect("scratch");
}
fn c_path(p: &Path) -> CString {
    CString::new(p.to_str().expect("utf-8")).expect("no nul")
}

struct Rt(*mut c_void);
impl Drop for Rt {
    fn drop(&mut self) {
        unsafe { close_runtime(self.0) }
    }
}
struct Hb(*mut c_void);
impl Drop for Hb {
    fn drop(&mut self) {
        unsafe { close_hyperbee(self.0) }
    }
}
impl Rt {
    fn new() -> Rt {
        // one worker: tasks are taken in order, so later ones tell about earlier ones
        let p = unsafe { init_runtime() };
        assert!(!p.is_null(), "runtime");
        Rt(p)
    }
    fn open(&self, dir: &Path) -> Option<Hb> {
        let d = c_path(dir);
        let p = unsafe { hyperbee_from_storage_directory(self.0, d.as_ptr()) };
        (!p.is_null()).then(|| Hb(p))
    }
}

/// Whether a runtime of the harness's own gets through 2000 tasks, each a turn later than the one before.
fn control_answers(within: Duration) -> bool {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().expect("runtime");
    let (tx, rx) = std::sync::mpsc::channel();
    rt.spawn(async move {
        for _ in 0..2000 {
            tokio::spawn(tokio::task::yield_now()).await.ok();
        }
        tx.send(()).ok();
    });
    let ok = rx.recv_timeout(within).is_ok();
    rt.shutdown_background();
    ok
}

/// Lookups of a key that is there, one after the other, through their own handle.
fn sentinels(rt: &Rt, hb: &Hb, slot: &Slot, n: usize) -> R<()> {
    for _ in 0..n {
        slot.clear(FLIGHT - 1);
        unsafe { hb_get(rt.0, hb.0, b"here".as_ptr(), 4, CBS[slot.0][FLIGHT - 1]) };
        let t = Instant::now();
        loop {
            if let Some(c) = slot.calls(FLIGHT - 1).first() {
                if c.seq != 1 || c.code != 0 || c.len != 3 {
                    return Err(format!("the lookup of a stored key gave code {} seq {} and {} bytes", c.code, c.seq, c.len));
                }
                unsafe {
                    deallocate_rust_string(c.msg as *mut c_char);
                    deallocate_rust_buffer(c.buf as *mut u8, c.len);
                }
                break;
            }
            if t.elapsed() > Duration::from_secs(1) {
                // is the machine stuck, or this runtime?
                let control = control_answers(Duration::from_secs(if t.elapsed() > Duration::from_secs(60) { 30 } else { 100 }));
                if !slot.calls(FLIGHT - 1).is_empty() {
                    continue;
                }
                if t.elapsed() > Duration::from_secs(20) && control {
                    return Err("the lookup of a stored key is never answered (20 s, while another runtime runs 2000 tasks)".into());
                }
                if t.elapsed() > Duration::from_secs(120) {
                    crate::runner::HARNESS_ERROR.lock().unwrap().get_or_insert("a lookup of a stored key has no answer after 120 s".into());
                    return Err("no verdict".into());
                }
                std::thread::sleep(Duration::from_millis(100));
            }
            std::thread::yield_now();
        }
    }
    Ok(())
}

/// The blocks as they are written, one of them damaged when the case says so.
fn harmed(c: &Ffi, raw: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut blocks = raw.to_vec();
    if let Some(Harm::Block(b, k)) = &c.harm {
        if blocks.len() > 1 {
            let n = blocks.len();
            let b = &mut blocks[if *b < 20_000 { n - 1 } else { 1 + *b as usize % (n - 1) }];
            match k % 4 {
                0 => *b = vec![0xff; 1 + *k as usize / 4],
                1 => {
                    b.truncate(*k as usize / 4);
                }
                2 => *b = wire::encode_block(&wire::Block { levels: vec![], key: b"x".to_vec(), value: None }),
                _ => {
                    let i = *k as usize % b.len().max(1);
                    if let Some(x) = b.get_mut(i) {
                        *x ^= 0x55
                    }
                }
            }
        }
    }
    blocks
}
/// These lookups at once, each answered exactly once.
fn flight(rt: &Rt, hb: &Hb, sentinel: &Hb, slot: &Slot, keys: &[Vec<u8>], null: &[bool], rounds: u8) -> R<()> {
    for (i, k) in keys.iter().enumerate() {
        slot.clear(i);
        // the key buffer belongs to the caller and is gone when hb_get returns
        let mut own = k.clone();
        own.reserve_exact(1);
        let p = if null[i] { std::ptr::null() } else { own.as_ptr() };
        unsafe { hb_get(rt.0, hb.0, p, own.len(), CBS[slot.0][i]) };
        own.fill(0xA5);
    }
    // all answered, usually at once
    let answered = || (0..keys.len()).all(|i| !slot.calls(i).is_empty());
    let t = Instant::now();
    while !answered() && t.elapsed() < Duration::from_millis(20) {
        std::thread::yield_now();
    }
    sentinels(rt, sentinel, slot, 2)?;
    for _ in 0..rounds {
        if answered() {
            break;
        }
        // the runtime has one worker and takes tasks in order: after these, nothing is still on its way
        sentinels(rt, sentinel, slot, 300)?;
        let t = Instant::now();
        while !answered() && t.elapsed() < Duration::from_millis(1500) {
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    for (i, k) in keys.iter().enumerate() {
        let calls = slot.calls(i);
        if calls.len() != 1 {
            return Err(format!("looking up {} called the callback {} times", show(k), calls.len()));
        }
    }
    Ok(())
}
/// What a callback was given: its value and its message.
fn read(call: &Call) -> (Vec<u8>, String) {
    let got = if call.len == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(call.buf as *const u8, call.len) }.to_vec() };
    let text = if call.msg == 0 { String::new() } else { unsafe { CStr::from_ptr(call.msg as *const c_char) }.to_string_lossy().into_owned() };
    (got, text)
}
/// Give back what a callback was given.
fn release(call: &Call, what: &str) -> R<()> {
    MISFIT.with(|m| m.set(None));
    if call.msg != 0 {
        releases(call.msg, || unsafe { deallocate_rust_string(call.msg as *mut c_char) }).map_err(|e| format!("{what}; {e} its message"))?;
    }
    if call.buf != 0 && call.len == 0 {
        // nothing was allocated for it
        unsafe { deallocate_rust_buffer(call.buf as *mut u8, 0) }
    } else if call.buf != 0 {
        releases(call.buf, || unsafe { deallocate_rust_buffer(call.buf as *mut u8, call.len) }).map_err(|e| format!("{what}; {e} its value"))?;
    }
    if let Some((size, with)) = MISFIT.with(|m| m.take()) {
        return Err(match size {
            usize::MAX => format!("{what}; releasing its buffers frees memory that is not allocated"),
            _ => format!("{what}; releasing its buffers frees an allocation of {size} bytes as one of {with}"),
        });
    }
    Ok(())
}
fn c14(c: &Ffi, cx: &mut Ctx) -> R<()> {
    let mut m = grow_model(&c.hist);
    if c.header_only {
        m.ensure_header();
    }
    let tmp = tempfile::tempdir().expect("scratch");
    let dir = tmp.path().join(["store", "a b", "påth-ключ", "x/y/z"][c.name as usize % 4]);
    let blocks = harmed(c, &m.raw);
    write_dir(&dir, &blocks);
    let rt = Rt::new();
    // openings that must be refused
    match &c.harm {
        Some(Harm::NullPath) => {
            if !unsafe { hyperbee_from_storage_directory(rt.0, std::ptr::null()) }.is_null() {
                return Err("opening a null path gave a handle".into());
            }
        }
        Some(Harm::File(below)) => {
            let f = tmp.path().join("file");
            std::fs::write(&f, b"x").expect("scratch");
            let p = if *below { f.join("dir") } else { f };
            if rt.open(&p).is_some() {
                return Err(format!("opening {} gave a handle", if *below { "a path below a file" } else { "a file" }));
            }
        }
        Some(Harm::Cut(n)) => {
            let f = dir.join("data");
            let raw = std::fs::read(&f).expect("scratch");
            if !raw.is_empty() {
                let other = tmp.path().join("cut");
                write_dir(&other, &[]);
                // inside the last block
                let last = 4 + blocks.last().map_or(0, |b| b.len());
                std::fs::write(other.join("data"), &raw[..raw.len() - 1 - *n as usize % (last - 1)]).expect("scratch");
                if rt.open(&other).is_some() {
                    return Err("opening a damaged storage gave a handle".into());
                }
            }
        }
        _ => (),
    }
    let sdir = tmp.path().join("sentinel");
    let mut s = crate::model::JsBee::default();
    s.put(b"here", Some(b"yes"));
    write_dir(&sdir, &s.raw);
    let sentinel = rt.open(&sdir).ok_or("opening a sound storage directory gave a null handle")?;
    let mut hb = rt.open(&dir).ok_or("opening a sound storage directory gave a null handle")?;
    let (twin, _) = bee::over(&blocks)?;
    let slot = Slot::take();
    let (mut hits, mut misses, mut fails) = (0u64, 0u64, 0u64);
    for g in &c.groups {
        if c.reopen {
            hb = rt.open(&dir).ok_or("reopening gave a null handle")?;
        }
        let keys: Vec<Vec<u8>> = g
            .iter()
            .map(|l| match l {
                Look::Key(k) => k.pick(&c.hist.keys, &m.map),
                Look::Null => vec![],
            })
            .collect();
        let null: Vec<bool> = g.iter().map(|l| matches!(l, Look::Null)).collect();
        flight(&rt, &hb, &sentinel, &slot, &keys, &null, 1)?;
        let mut order: Vec<usize> = (0..g.len()).collect();
        order.rotate_left(c.release_order as usize % g.len());
        for i in order {
            let (k, call) = (&keys[i], slot.calls(i)[0]);
            let (got, text) = read(&call);
            let what = format!("looking up {} gave code {} ({text:?}), seq {}, value {}", show(k), call.code, call.seq, show(&got));
            // against the Rust interface over the same bytes, and the map when nothing is damaged
            let want = maybe("get", twin.get(k))?;
            if !matches!(c.harm, Some(Harm::Block(..))) {
                let w = m.map.get(k).cloned();
                let (seq, v) = w.clone().unwrap_or_default();
                if call.code != 0 || call.seq != seq || got != v.unwrap_or_default() {
                    return Err(format!("{what}; the tree has {}", bee::short(&w)));
                }
            }
            match want {
                Ok(w) => {
                    let found = w.is_some();
                    let (seq, v) = w.unwrap_or_default();
                    if call.code != 0 || call.seq != seq || got != v.clone().unwrap_or_default() {
                        return Err(format!("{what}; the Rust interface gives seq {seq}, value {:?}", v.map(|v| show(&v))));
                    }
                    hits += u64::from(found);
                    misses += u64::from(!found);
                }
                Err(e) => {
                    if call.code == 0 {
                        return Err(format!("{what}; the Rust interface gives the error {}", bee::err_text(&e)));
                    }
                    fails += 1;
                }
            }
            release(&call, &what)?;
        }
    }
    drop(hb);
    drop(sentinel);
    drop(rt);
    cx.add("answered with an entry", hits);
    cx.add("answered not found", misses);
    cx.add("answered with an error", fails);
    cx.class("damaged block", matches!(c.harm, Some(Harm::Block(..))));
    cx.class("refused opening", matches!(c.harm, Some(Harm::File(_) | Harm::NullPath | Harm::Cut(_))));
    cx.nontrivial = (hits > 0 && misses > 0) || fails > 0;
    cx.note = Some(format!("{hits} hits, {misses} misses, {fails} errors"));
    Ok(())
}
/// A tree of up to 26 levels, on a storage that fails and pauses as generated.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tall {
    ways: u8,
    top: u8,
    height: u8,
    groups: Vec<(Vec<Sel>, Option<(u16, u8)>)>,
    reopen: bool,
    yields: Vec<u8>,
    release_order: u8,
}
fn strat_tall(_: Tier) -> BoxedStrategy<Tall> {
    let fault = prop_oneof![2 => Just(None), 3 => (prop_oneof![0u16..12, 0u16..120], any::<u8>()).prop_map(Some)];
    (super::tall::size(), vec((vec(sel(), 1..FLIGHT), fault), 1..5), any::<bool>(), vec(0u8..3, 0..12), any::<u8>())
        .prop_map(|((ways, top, height), groups, reopen, yields, release_order)| Tall { ways, top, height, groups, reopen, yields, release_order })
        .boxed()
}
fn tall(c: &Tall, cx: &mut Ctx) -> R<()> {
    let g = Giant { ways: c.ways.into(), top: c.top.into(), height: c.height.into() };
    let w = World { g, over: Default::default() };
    let log = SimLog::made(&wire::default_header(), g.n(), std::sync::Arc::new(move |i| Some(wire::encode_block(&g.block(i)))));
    let tmp = tempfile::tempdir().expect("scratch");
    let dir = tmp.path().join("store");
    let mounted = log.mount(&dir).expect("scratch");
    let sdir = tmp.path().join("sentinel");
    let mut s = crate::model::JsBee::default();
    s.put(b"here", Some(b"yes"));
    write_dir(&sdir, &s.raw);
    let rt = Rt::new();
    let sentinel = rt.open(&sdir).ok_or("opening a sound storage directory gave a null handle")?;
    log.set_open_error(true);
    if rt.open(&dir).is_some() {
        return Err("opening a storage that cannot be opened gave a handle".into());
    }
    log.set_open_error(false);
    let mut hb = rt.open(&dir).ok_or("opening a sound storage directory gave a null handle")?;
    log.set_yields(&c.yields, 0);
    let slot = Slot::take();
    let (mut hits, mut misses, mut fails, mut big) = (0u64, 0u64, 0u64, false);
    for (sels, fault) in &c.groups {
        let keys: Vec<Vec<u8>> = sels.iter().map(|s| w.pick(s)).collect();
        if c.reopen {
            hb = rt.open(&dir).ok_or("reopening gave a null handle")?;
        }
        // with the fault, and once more without it
        for fault in [fault.as_ref(), None] {
            log.reset_counters();
            if let Some((nth, how)) = fault {
                let f = if how & 1 == 0 { Fault::GetIo } else { Fault::GetMissing };
                match how & 2 {
                    0 => log.fail_get(u64::from(*nth), f),
                    _ => log.fail_gets_from(u64::from(*nth), f),
                }
            }
            flight(&rt, &hb, &sentinel, &slot, &keys, &vec![false; keys.len()], 6)?;
            let fired = log.faults_fired() > 0;
            log.clear_faults();
            let mut failed = 0;
            let mut order: Vec<usize> = (0..keys.len()).collect();
            order.rotate_left(c.release_order as usize % keys.len());
            for i in order {
                let (k, call) = (&keys[i], slot.calls(i)[0]);
                let (got, text) = read(&call);
                let what = format!("looking up {} gave code {} ({text:?}), seq {}, value {}", show(k), call.code, call.seq, show(&got));
                let want = w.get(k);
                let (seq, v) = want.clone().unwrap_or_default();
                if call.code != 0 {
                    failed += 1;
                    if !fired {
                        return Err(format!("{what}, and nothing went wrong; the tree has {}", bee::short(&want)));
                    }
                } else if call.seq != seq || got != v.unwrap_or_default() {
                    return Err(format!("{what}; the tree has {}{}", bee::short(&want), if fired { ", and a read failed" } else { "" }));
                } else {
                    hits += u64::from(want.is_some());
                    misses += u64::from(want.is_none());
                    big |= seq > u64::from(u32::MAX);
                }
                release(&call, &what)?;
            }
            if fired && failed == 0 {
                return Err(format!("a read failed, and each of {} lookups says that all is well", keys.len()));
            }
            fails += failed;
        }
    }
    drop(hb);
    drop(sentinel);
    drop(rt);
    drop(mounted);
    cx.add("answered with an entry", hits);
    cx.add("answered not found", misses);
    cx.add("answered with an error", fails);
    cx.class("an entry beyond the first 2^32 blocks", big);
    cx.nontrivial = c.height > 6 && hits > 0 && misses + fails > 0;
    cx.note = Some(format!("{} ways, height {}: {hits} hits, {misses} misses, {fails} errors", c.ways, c.height));
    Ok(())
}
/// For C25: trees opened, used and closed through the C symbols are closed.
pub fn closed(c: &Ffi, cx: &mut Ctx) -> R<()> {
    let m = grow_model(&c.hist);
    let tmp = tempfile::tempdir().expect("scratch");
    let dirs: Vec<_> = (0..c.groups.len()).map(|i| tmp.path().join(i.to_string())).collect();
    let rt = Rt::new();
    let slot = Slot::take();
    let mut open = vec![];
    let mut looked = 0u64;
    for (d, g) in dirs.iter().zip(&c.groups) {
        write_dir(d, &m.raw);
        let Some(hb) = rt.open(d) else { return Ok(()) };
        for (i, l) in g.iter().enumerate() {
            slot.clear(i);
            let k = match l {
                Look::Key(k) => k.pick(&c.hist.keys, &m.map),
                Look::Null => vec![],
            };
            unsafe { hb_get(rt.0, hb.0, k.as_ptr(), k.len(), CBS[slot.0][i]) };
        }
        let t = Instant::now();
        while (0..g.len()).any(|i| slot.calls(i).is_empty()) {
            if t.elapsed() > Duration::from_secs(20) {
                // a lookup that is never answered is for another check; closing is not allowed before
                std::mem::forget((hb, rt, slot));
                return Ok(());
            }
            std::thread::yield_now();
        }
        for i in 0..g.len() {
            let call = slot.calls(i)[0];
            looked += 1;
            unsafe {
                if call.msg != 0 {
                    deallocate_rust_string(call.msg as *mut c_char)
                }
                if call.buf != 0 {
                    deallocate_rust_buffer(call.buf as *mut u8, call.len)
                }
            }
        }
        open.push((d, hb));
    }
    let n = open.len();
    open.rotate_left(c.release_order as usize % n);
    let mut rt = Some(rt);
    let still = |d: &Path| {
        let t = Instant::now();
        while hypercore::sim::open_on(d) > 0 && t.elapsed() < Duration::from_secs(10) {
            std::thread::yield_now();
        }
        hypercore::sim::open_on(d)
    };
    for (i, (d, hb)) in open.into_iter().enumerate() {
        if c.reopen && i == 1 {
            // the runtime may go first
            rt.take();
        }
        drop(hb);
        let n = still(d);
        if n > 0 {
            return Err(format!("a tree that the C interface opened and closed keeps its storage directory open ({n} times)"));
        }
    }
    drop(rt);
    cx.add("trees closed through the C interface", n as u64);
    cx.nontrivial = m.len() > 10 && looked > 0;
    cx.note = Some(format!("{n} trees, {looked} lookups"));
    Ok(())
}
/// For C25: opening, looking up, releasing and closing through the C symbols again and again takes
/// no more memory each time.
pub fn c_again(c: &Ffi, cx: &mut Ctx) -> R<()> {
    const WARM: usize = 3;
    const ROUNDS: usize = 6;
    let m = grow_model(&c.hist);
    let tmp = tempfile::tempdir().expect("scratch");
    let dir = tmp.path().join("store");
    write_dir(&dir, &harmed(c, &m.raw));
    let keys: Vec<Vec<Vec<u8>>> = c
        .groups
        .iter()
        .map(|g| {
            g.iter()
                .map(|l| match l {
                    Look::Key(k) => k.pick(&c.hist.keys, &m.map),
                    Look::Null => vec![],
                })
                .collect()
        })
        .collect();
    let rt = Rt::new();
    let slot = Slot::take();
    let account = Account::of(&slot);
    // one tree for all of it, or one for each round
    let mut hb = None;
    let (mut answered, mut failed) = (0u64, 0u64);
    let mut at = 0;
    let mut by = vec![];
    for round in 0..WARM + ROUNDS {
        if c.reopen {
            hb = None;
        }
        if hb.is_none() {
            hb = rt.open(&dir);
        }
        let Some(h) = &hb else { return Ok(()) };
        for g in &keys {
            for (i, k) in g.iter().enumerate() {
                slot.clear(i);
                unsafe { hb_get(rt.0, h.0, k.as_ptr(), k.len(), CBS[slot.0][i]) };
            }
            let t = Instant::now();
            while (0..g.len()).any(|i| slot.calls(i).is_empty()) {
                if t.elapsed() > Duration::from_secs(20) {
                    // a lookup that is never answered is for another check; closing is not allowed before
                    drop(account);
                    std::mem::forget((hb, rt, slot));
                    return Ok(());
                }
                std::thread::yield_now();
            }
            for i in 0..g.len() {
                let call = slot.calls(i)[0];
                answered += 1;
                failed += u64::from(call.code != 0);
                unsafe {
                    if call.msg != 0 {
                        deallocate_rust_string(call.msg as *mut c_char)
                    }
                    if call.buf != 0 {
                        deallocate_rust_buffer(call.buf as *mut u8, call.len)
                    }
                }
            }
        }
        if c.reopen {
            hb = None;
        }
        if round + 1 < WARM {
            continue;
        }
        if round + 1 == WARM {
            at = account.settled(Duration::from_millis(1), isize::MIN);
            by.reserve(ROUNDS);
            at += (ROUNDS * std::mem::size_of::<isize>()) as isize;
            continue;
        }
        let now = account.settled(Duration::from_millis(25), at);
        if now <= at {
            break;
        }
        by.push(now - at);
        at = now;
    }
    drop(hb);
    drop(account);
    drop(rt);
    if by.len() == ROUNDS {
        let what = if c.reopen { "opening, looking up and closing" } else { "looking up" };
        return Err(format!("{what} through the C interface: memory in use grows each time the same is done: by {} bytes", by.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ")));
    }
    cx.add("lookups through the C interface", answered);
    cx.class("opened and closed each time", c.reopen);
    cx.nontrivial = m.len() > 10 && answered > 0;
    cx.note = Some(format!("{answered} lookups, {failed} failed"));
    Ok(())
}
pub fn c14_prop() -> Property {
    std::env::set_var("TOKIO_WORKER_THREADS", "1");
    Property {
        id: "C14",
        level: "exploration",
        rule: "a storage directory holding the tree of a generated history (possibly with a damaged block) is opened and looked up through the C symbols, several lookups in flight, key buffers overwritten as soon as the call returns; each callback's count, code, index and bytes are compared with the ordered map and with the Rust interface over the same bytes, and the buffers are released under an allocator that checks sizes. Part tall: the same on complete trees of up to 26 levels and 2^61 keys, over a storage that pauses, and whose reads fail as generated: then each answer is right or an error, at least one is an error, and the next lookups are right. Non-trivial: both found and absent keys were looked up, or a lookup failed; in a tall tree, also more than six levels.",
        assumptions: &["the runtime runs with one worker (TOKIO_WORKER_THREADS), so a lookup that is unanswered after 300 later ones counts as never answered", "paths are valid UTF-8"],
        parts: vec![part("lookups", 40_000, 150_000, strat, c14), part("tall", 4_000, 60_000, strat_tall, tall)],
    }
}
