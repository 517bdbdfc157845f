//! The controllable log behind the stand-in: yields, faults and a record of
//! every I/O call, all decided by the check and none by chance.
use std::{
    collections::{BTreeMap, VecDeque},
    fmt,
    future::poll_fn,
    io::{Read, Seek, Write},
    path::{Path, PathBuf},
    sync::{Arc, Mutex},
    task::Poll,
};

use tokio::sync::watch;

use crate::{AppendOutcome, HypercoreError, Info};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fault {
    /// `get` returns an I/O error
    GetIo,
    /// `get` returns `Ok(None)`, as for a block that is not held locally
    GetMissing,
    /// `append` returns an I/O error and nothing is written
    AppendIo,
    /// `append` returns `NotWritable` and nothing is written
    AppendNotWritable,
}

#[derive(Debug, Clone)]
pub struct AppendRecord {
    /// index the block landed at
    pub seq: u64,
    /// value of [`SimLog::set_actor`] at that moment
    pub actor: u64,
    /// value of [`SimLog::set_clock`] at that moment
    pub clock: u64,
}

thread_local! {
    static THREAD_ACTOR: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}

#[derive(Default)]
struct State {
    blocks: Vec<Option<Vec<u8>>>,
    writable: bool,
    /// polls to stay pending before/after each I/O call, consumed in order, then `yields_rest`
    yields: VecDeque<u8>,
    yields_rest: u8,
    /// faults by ordinal of get / append call (counted from the last `reset_counters`)
    get_faults: BTreeMap<u64, Fault>,
    append_faults: BTreeMap<u64, Fault>,
    /// every get from this ordinal on fails
    get_fault_from: Option<(u64, Fault)>,
    n_get: u64,
    n_append: u64,
    n_info: u64,
    faults_fired: u64,
    actor: u64,
    clock: u64,
    appended: Vec<AppendRecord>,
    gets: Vec<u64>,
    record_gets: bool,
    dir: Option<PathBuf>,
    /// kept open as long as the log is, like the storage of the real one
    file: Option<std::fs::File>,
    replication_errors: Vec<String>,
    open_error: bool,
    /// blocks 1 to `.0`, made when they are asked for; `blocks` goes on after them
    made: Option<(u64, Make)>,
}
static MOUNTED: Mutex<BTreeMap<u64, SimLog>> = Mutex::new(BTreeMap::new());
static OPEN_DIRS: Mutex<BTreeMap<PathBuf, usize>> = Mutex::new(BTreeMap::new());
/// How many logs are open on a storage directory.
pub fn open_on(dir: &Path) -> usize {
    OPEN_DIRS.lock().unwrap_or_else(|e| e.into_inner()).get(dir).copied().unwrap_or(0)
}
/// See [`SimLog::mount`].
pub struct Mounted(u64);
impl Drop for Mounted {
    fn drop(&mut self) {
        MOUNTED.lock().unwrap_or_else(|e| e.into_inner()).remove(&self.0);
    }
}
impl Drop for State {
    fn drop(&mut self) {
        if let Some(d) = &self.dir {
            let mut open = OPEN_DIRS.lock().unwrap_or_else(|e| e.into_inner());
            if let Some(n) = open.get_mut(d) {
                *n -= 1;
                if *n == 0 {
                    open.remove(d);
                }
            }
        }
    }
}
/// Makes a block, or leaves it missing.
pub type Make = Arc<dyn Fn(u64) -> Option<Vec<u8>> + Send + Sync>;
impl State {
    fn len(&self) -> u64 {
        self.blocks.len() as u64 + self.made.as_ref().map_or(0, |m| m.0)
    }
    fn at(&self, index: u64) -> Option<Vec<u8>> {
        let i = match &self.made {
            Some((n, f)) if (1..=*n).contains(&index) => return f(index),
            Some((n, _)) if index > *n => index - n,
            _ => index,
        };
        self.blocks.get(usize::try_from(i).ok()?).cloned().flatten()
    }
}

/// Shared handle on a simulated log.
#[derive(Clone)]
pub struct SimLog {
    st: Arc<Mutex<State>>,
    grown: Arc<watch::Sender<u64>>,
}

impl fmt::Debug for SimLog {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimLog")
    }
}

impl Default for SimLog {
    fn default() -> Self {
        Self::new()
    }
}

thread_local! {
    static STACK_LOW: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
/// Address of a local variable: where this thread's stack is right now.
pub fn stack_here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}
/// Forget what [`stack_low`] has seen.
pub fn reset_stack_low() {
    STACK_LOW.with(|s| s.set(usize::MAX));
}
/// The lowest stack address at which this thread has read a block.
pub fn stack_low() -> usize {
    STACK_LOW.with(|s| s.get())
}

async fn stay_pending(n: u8) {
    let mut left = n;
    poll_fn(move |cx| {
        if left == 0 {
            Poll::Ready(())
        } else {
            left -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

fn io_err(what: &str) -> HypercoreError {
    HypercoreError::IO {
        context: Some(format!("injected: {what}")),
        source: std::io::Error::new(std::io::ErrorKind::Other, "injected fault"),
    }
}

impl SimLog {
    pub fn new() -> Self {
        Self {
            st: Arc::new(Mutex::new({
                let mut st = State::default();
                st.writable = true;
                st
            })),
            grown: Arc::new(watch::channel(0).0),
        }
    }

    /// A log holding exactly these blocks.
    pub fn from_blocks(blocks: &[Vec<u8>]) -> Self {
        let me = Self::new();
        me.lock().blocks = blocks.iter().cloned().map(Some).collect();
        me
    }

    /// A log of a header and `n` more blocks that `make` makes.
    pub fn made(header: &[u8], n: u64, make: Make) -> Self {
        let me = Self::from_blocks(&[header.to_vec()]);
        me.lock().made = Some((n, make));
        me
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Opening this directory gives this log, as long as the result is kept.
    pub fn mount(&self, dir: &Path) -> std::io::Result<Mounted> {
        std::fs::create_dir_all(dir)?;
        let mut all = MOUNTED.lock().unwrap_or_else(|e| e.into_inner());
        let id = all.keys().last().map_or(0, |i| i + 1);
        std::fs::write(dir.join("mounted"), id.to_string())?;
        all.insert(id, self.clone());
        Ok(Mounted(id))
    }

    pub(crate) fn open_dir(dir: &Path, overwrite: bool) -> Result<Self, HypercoreError> {
        if let Ok(id) = std::fs::read_to_string(dir.join("mounted")) {
            let all = MOUNTED.lock().unwrap_or_else(|e| e.into_inner());
            let log = id.parse().ok().and_then(|i: u64| all.get(&i)).cloned();
            return log.ok_or_else(|| io_err("mounted"));
        }
        std::fs::create_dir_all(dir)?;
        let file = crate::data_file(dir);
        let me = Self::new();
        {
            let mut st = me.lock();
            if overwrite {
                std::fs::write(&file, b"")?;
            } else if file.exists() {
                let mut raw = vec![];
                std::fs::File::open(&file)?.read_to_end(&mut raw)?;
                let mut i = 0;
                while i < raw.len() {
                    let bad = || HypercoreError::CorruptStorage {
                        context: Some("short frame".into()),
                    };
                    let n = raw.get(i..i + 4).ok_or_else(bad)?;
                    let n = u32::from_le_bytes(n.try_into().unwrap()) as usize;
                    let b = raw.get(i + 4..i + 4 + n).ok_or_else(bad)?;
                    st.blocks.push(Some(b.to_vec()));
                    i += 4 + n;
                }
            } else {
                std::fs::write(&file, b"")?;
            }
            // `gap`: a count and a block, which comes that often between the first block and the others
            if let Ok(g) = std::fs::read(dir.join("gap")) {
                if let Some((n, block)) = g.split_first_chunk::<8>() {
                    let block = block.to_vec();
                    st.made = Some((u64::from_le_bytes(*n), Arc::new(move |_| Some(block.clone()))));
                }
            }
            // `faults`: lines like `get 3 io`, `gets 2 missing` (from the third on), `append 0 readonly`
            for line in std::fs::read_to_string(dir.join("faults")).unwrap_or_default().lines() {
                let w: Vec<&str> = line.split(' ').collect();
                let [call, n, how] = w[..] else { continue };
                let n = n.parse().unwrap_or(0);
                match (call, how) {
                    ("get", "io") => _ = st.get_faults.insert(n, Fault::GetIo),
                    ("get", _) => _ = st.get_faults.insert(n, Fault::GetMissing),
                    ("gets", "io") => st.get_fault_from = Some((n, Fault::GetIo)),
                    ("gets", _) => st.get_fault_from = Some((n, Fault::GetMissing)),
                    ("append", "io") => _ = st.append_faults.insert(n, Fault::AppendIo),
                    _ => _ = st.append_faults.insert(n, Fault::AppendNotWritable),
                }
            }
            st.dir = Some(dir.to_owned());
            st.file = Some(std::fs::File::open(&file)?);
            *OPEN_DIRS.lock().unwrap_or_else(|e| e.into_inner()).entry(dir.to_owned()).or_default() += 1;
        }
        Ok(me)
    }

    pub(crate) fn open_check(&self) -> Result<(), HypercoreError> {
        if self.lock().open_error {
            return Err(io_err("open"));
        }
        Ok(())
    }

    // ---- what the checks use -------------------------------------------------

    /// How many handles on this log there are, this one included.
    pub fn holders(&self) -> usize {
        Arc::strong_count(&self.st)
    }

    pub fn len(&self) -> u64 {
        self.lock().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn block(&self, seq: u64) -> Option<Vec<u8>> {
        self.lock().at(seq)
    }
    pub fn blocks(&self) -> Vec<Vec<u8>> {
        self.lock()
            .blocks
            .iter()
            .map(|b| b.clone().unwrap_or_default())
            .collect()
    }
    pub fn set_writable(&self, w: bool) {
        self.lock().writable = w;
    }
    pub fn set_open_error(&self, e: bool) {
        self.lock().open_error = e;
    }
    pub fn set_yields(&self, first: &[u8], rest: u8) {
        let mut st = self.lock();
        st.yields = first.iter().copied().collect();
        st.yields_rest = rest;
    }
    pub fn reset_counters(&self) {
        let mut st = self.lock();
        st.n_get = 0;
        st.n_append = 0;
        st.n_info = 0;
        st.faults_fired = 0;
    }
    pub fn clear_faults(&self) {
        let mut st = self.lock();
        st.get_faults.clear();
        st.append_faults.clear();
        st.get_fault_from = None;
    }
    pub fn fail_get(&self, nth: u64, f: Fault) {
        self.lock().get_faults.insert(nth, f);
    }
    pub fn fail_gets_from(&self, nth: u64, f: Fault) {
        self.lock().get_fault_from = Some((nth, f));
    }
    pub fn fail_append(&self, nth: u64, f: Fault) {
        self.lock().append_faults.insert(nth, f);
    }
    pub fn faults_fired(&self) -> u64 {
        self.lock().faults_fired
    }
    pub fn n_get(&self) -> u64 {
        self.lock().n_get
    }
    pub fn n_append(&self) -> u64 {
        self.lock().n_append
    }
    /// What this thread appends is marked with this, whatever [`SimLog::set_actor`] says.
    pub fn set_thread_actor(a: Option<u64>) {
        THREAD_ACTOR.with(|t| t.set(a));
    }
    pub fn set_actor(&self, a: u64) {
        self.lock().actor = a;
    }
    pub fn set_clock(&self, c: u64) {
        self.lock().clock = c;
    }
    pub fn appended(&self) -> Vec<AppendRecord> {
        self.lock().appended.clone()
    }
    pub fn record_gets(&self, on: bool) {
        let mut st = self.lock();
        st.record_gets = on;
        st.gets.clear();
    }
    pub fn take_gets(&self) -> Vec<u64> {
        std::mem::take(&mut self.lock().gets)
    }
    pub fn replication_errors(&self) -> Vec<String> {
        self.lock().replication_errors.clone()
    }
    pub fn note_replication_error(&self, e: &str) {
        self.lock().replication_errors.push(e.to_string());
    }

    /// A block arriving from a remote peer. Grows the log when needed.
    pub fn put_remote(&self, seq: u64, data: &[u8]) {
        let len = {
            let mut st = self.lock();
            while st.blocks.len() <= seq as usize {
                st.blocks.push(None);
            }
            st.blocks[seq as usize] = Some(data.to_vec());
            st.blocks.len() as u64
        };
        self.grown.send_replace(len);
    }
    /// The remote announced a new length; the blocks may come later.
    pub fn set_remote_len(&self, len: u64) {
        {
            let mut st = self.lock();
            while st.blocks.len() < len as usize {
                st.blocks.push(None);
            }
        }
        self.grown.send_replace(len);
    }
    /// Forget the local copies of `start..end`.
    pub fn clear(&self, start: u64, end: u64) {
        let mut st = self.lock();
        for i in start..end.min(st.blocks.len() as u64) {
            st.blocks[i as usize] = None;
        }
    }
    pub fn subscribe(&self) -> watch::Receiver<u64> {
        self.grown.subscribe()
    }
    pub fn writable(&self) -> bool {
        self.lock().writable
    }

    // ---- what hyperbee reaches ------------------------------------------------

    pub fn has(&self, index: u64) -> bool {
        self.lock().at(index).is_some()
    }

    pub fn info(&self) -> Info {
        let mut st = self.lock();
        st.n_info += 1;
        Info {
            length: st.len(),
            byte_length: st.blocks.iter().flatten().map(|b| b.len() as u64).sum(),
            contiguous_length: st.blocks.iter().take_while(|b| b.is_some()).count() as u64 + st.made.as_ref().map_or(0, |m| m.0),
            fork: 0,
            writeable: st.writable,
        }
    }

    fn next_yield(&self) -> u8 {
        let mut st = self.lock();
        match st.yields.pop_front() {
            Some(y) => y,
            None => st.yields_rest,
        }
    }

    pub async fn info_io(&self) -> Info {
        stay_pending(self.next_yield()).await;
        self.info()
    }

    pub async fn get_io(&self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        let here = stack_here();
        STACK_LOW.with(|s| s.set(s.get().min(here)));
        stay_pending(self.next_yield()).await;
        let res = {
            let mut st = self.lock();
            let n = st.n_get;
            st.n_get += 1;
            if st.record_gets {
                st.gets.push(index);
            }
            let fault = st.get_faults.get(&n).copied().or(match st.get_fault_from {
                Some((from, f)) if n >= from => Some(f),
                _ => None,
            });
            match fault {
                Some(Fault::GetMissing) => {
                    st.faults_fired += 1;
                    Ok(None)
                }
                Some(_) => {
                    st.faults_fired += 1;
                    Err(io_err("get"))
                }
                None => Ok(st.at(index)),
            }
        };
        stay_pending(self.next_yield()).await;
        res
    }

    pub async fn append_io(&self, batch: &[&[u8]]) -> Result<AppendOutcome, HypercoreError> {
        stay_pending(self.next_yield()).await;
        let res = self.append_now(batch);
        stay_pending(self.next_yield()).await;
        res
    }

    fn append_now(&self, batch: &[&[u8]]) -> Result<AppendOutcome, HypercoreError> {
        let out = {
            let mut st = self.lock();
            let n = st.n_append;
            st.n_append += 1;
            if let Some(f) = st.append_faults.get(&n).copied() {
                st.faults_fired += 1;
                return Err(match f {
                    Fault::AppendNotWritable => HypercoreError::NotWritable,
                    _ => io_err("append"),
                });
            }
            if !st.writable {
                return Err(HypercoreError::NotWritable);
            }
            if let Some(dir) = st.dir.clone() {
                let mut f = std::fs::OpenOptions::new()
                    .create(true)
                    .append(true)
                    .open(crate::data_file(&dir))?;
                let mut buf = vec![];
                for b in batch {
                    buf.extend_from_slice(&(b.len() as u32).to_le_bytes());
                    buf.extend_from_slice(b);
                }
                f.write_all(&buf)?;
                let _ = f.stream_position();
            }
            for b in batch {
                let rec = AppendRecord {
                    seq: st.len(),
                    actor: THREAD_ACTOR.with(|t| t.get()).unwrap_or(st.actor),
                    clock: st.clock,
                };
                st.appended.push(rec);
                st.blocks.push(Some(b.to_vec()));
            }
            AppendOutcome {
                length: st.len(),
                byte_length: st.blocks.iter().flatten().map(|b| b.len() as u64).sum(),
            }
        };
        self.grown.send_replace(out.length);
        Ok(out)
    }
}
