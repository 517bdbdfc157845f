//! Drives the parts of a property with proptest: fixed seeds, fixed work, several
//! deterministic workers, shrinking, replay files, evidence.
use proptest::{
    strategy::{BoxedStrategy, Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{hash_map::DefaultHasher, BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub classes: BTreeMap<String, u64>,
    pub note: Option<String>,
}
impl Ctx {
    pub fn hit(&mut self, c: &str) {
        self.add(c, 1)
    }
    pub fn add(&mut self, c: &str, n: u64) {
        if n > 0 {
            *self.classes.entry(c.to_string()).or_default() += n
        }
    }
    pub fn class(&mut self, c: &str, yes: bool) {
        if yes {
            self.hit(c)
        }
    }
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Value>,
}

pub struct Part {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    run: Box<dyn Fn(u64, u32, Tier, &Watch) -> Report>,
    replay: Box<dyn Fn(&Value, &Watch) -> Result<(), String>>,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

pub const WORKERS: u32 = 8;
/// Processor time (not wall time) one case may use, in seconds. The longest takes a few.
pub static CASE_CPU: AtomicU64 = AtomicU64::new(50);
/// So many times that much wall time.
const CASE_WALL: u32 = 5;

/// Processor time used so far by a thread of this process.
fn cpu_of(tid: i32) -> Option<Duration> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
    // user and system time, in ticks of 10 ms
    let ticks: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(Duration::from_millis(ticks * 10))
}
fn my_tid() -> i32 {
    let p = std::fs::read_link("/proc/thread-self").unwrap_or_default();
    p.file_name().and_then(|x| x.to_str()?.parse().ok()).unwrap_or(0)
}

struct Running {
    since: Instant,
    tid: i32,
    /// at the watch's first look at the case
    cpu: Option<Duration>,
}
/// Cases in flight. One that uses [`CASE_CPU`] on its own thread never ends: the process
/// aborts and the supervisor treats it like a crash. One that just never returns ends the
/// run as an error.
#[derive(Clone, Default)]
pub struct Watch(Arc<Mutex<BTreeMap<u32, Running>>>);
thread_local! {
    static TID: i32 = my_tid();
}
static LONGEST: AtomicU64 = AtomicU64::new(0);
impl Watch {
    fn start(&self, w: u32) {
        let tid = TID.with(|t| *t);
        self.0.lock().unwrap().insert(w, Running { since: Instant::now(), tid, cpu: None });
        crate::props::ffi::forget_allocations();
    }
    fn stop(&self, w: u32) {
        self.0.lock().unwrap().remove(&w);
    }
    pub fn spawn(&self) {
        let me = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            let limit = Duration::from_secs(CASE_CPU.load(Ordering::Relaxed));
            let mut running = me.0.lock().unwrap();
            for r in running.values_mut() {
                let Some(now) = cpu_of(r.tid) else { continue };
                let used = now.saturating_sub(*r.cpu.get_or_insert(now));
                LONGEST.fetch_max(used.as_millis() as u64, Ordering::Relaxed);
                if used > limit {
                    eprintln!("a case has used {limit:?} of processor time");
                    std::process::abort();
                }
            }
            if running.values().any(|r| r.since.elapsed() > limit * CASE_WALL) {
                println!("ERROR: a case has been running for {:?}; no verdict", limit * CASE_WALL);
                std::process::exit(2);
            }
        });
    }
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
thread_local! {
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub static HARNESS_ERROR: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(move |info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg.clone(), loc.clone())));
        if !GUARDED.with(|g| g.get()) {
            eprintln!("panic at {loc}: {msg}")
        }
    }));
}

/// Run `f`; a panic in the code under test is an `Err`, one in the harness an
/// error of the check.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    GUARDED.with(|g| g.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(false));
    match r {
        Ok(r) => r,
        Err(_) => {
            crate::exec::reset_rt();
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("/stubs/") {
                let e = format!("the harness itself panicked at {loc}: {msg}");
                HARNESS_ERROR.lock().unwrap().get_or_insert(e);
            }
            Err(format!("panic at {}: {}", loc.replace("/repo/", ""), trunc(&msg, 300)))
        }
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

fn mix(seed: u64, part: &str, worker: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        // SplitMix64 over a string hash that is fixed by this source
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in part.bytes().chain(seed.to_le_bytes()).chain(worker.to_le_bytes()).chain(i.to_le_bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        h ^= h >> 30;
        h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
        h ^= h >> 27;
        h = h.wrapping_mul(0x94d0_49bb_1331_11eb);
        h ^= h >> 31;
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub fn part<C>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strat: fn(Tier) -> BoxedStrategy<C>,
    check: fn(&C, &mut Ctx) -> Result<(), String>,
) -> Part
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
{
    let one = move |c: &C, cx: &mut Ctx| guarded(|| check(c, cx));
    Part {
        name,
        quick,
        thorough,
        run: Box::new(move |seed, cases, tier, watch| {
            let stop = AtomicBool::new(false);
            let done = AtomicU64::new(0);
            let reports: Vec<Report> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..WORKERS)
                    .map(|w| {
                        let (stop, done, one) = (&stop, &done, &one);
                        let n = cases / WORKERS + u32::from(w < cases % WORKERS);
                        std::thread::Builder::new()
                            .stack_size(1 << 30)
                            .spawn_scoped(s, move || {
                                worker(name, seed, w, n, strat(tier), one, stop, done, watch)
                            })
                            .expect("thread")
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("worker")).collect()
            });
            let mut out = Report::default();
            for r in reports {
                out.evaluations += r.evaluations;
                out.nontrivial.extend(r.nontrivial);
                for (k, v) in r.classes {
                    *out.classes.entry(k).or_default() += v;
                }
                if out.samples.len() < 3 {
                    out.samples.extend(r.samples.into_iter().take(1));
                }
                if out.failure.is_none() {
                    out.failure = r.failure;
                }
            }
            out
        }),
        replay: Box::new(move |v, watch| {
            let c: C = serde_json::from_value(v.clone()).map_err(|e| {
                HARNESS_ERROR.lock().unwrap().get_or_insert(format!("replay file: {e}"));
                e.to_string()
            })?;
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(1 << 30)
                    .spawn_scoped(s, move || {
                        watch.start(u32::MAX);
                        let r = one(&c, &mut Ctx::default());
                        watch.stop(u32::MAX);
                        r
                    })
                    .expect("thread")
                    .join()
                    .expect("replay")
            })
        }),
    }
}

#[allow(clippy::too_many_arguments)]
fn worker<C>(
    name: &str,
    seed: u64,
    w: u32,
    n: u32,
    strat: BoxedStrategy<C>,
    one: &dyn Fn(&C, &mut Ctx) -> Result<(), String>,
    stop: &AtomicBool,
    done: &AtomicU64,
    watch: &Watch,
) -> Report
where
    C: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    let mut rep = Report::default();
    if n == 0 {
        return rep;
    }
    let config = Config {
        cases: 1,
        failure_persistence: None,
        max_shrink_iters: 3000,
        max_shrink_time: 60_000,
        verbose: 0,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &mix(seed, name, w));
    let mut runner = TestRunner::new_with_rng(config, rng);
    for i in 0..n {
        if stop.load(Ordering::Relaxed) {
            break;
        }
        let tree = match strat.new_tree(&mut runner) {
            Ok(t) => t,
            Err(e) => {
                HARNESS_ERROR.lock().unwrap().get_or_insert(format!("generator: {e}"));
                stop.store(true, Ordering::Relaxed);
                break;
            }
        };
        let case = tree.current();
        journal(name, w, &case);
        let mut cx = Ctx::default();
        watch.start(w);
        let res = one(&case, &mut cx);
        watch.stop(w);
        rep.evaluations += 1;
        done.fetch_add(1, Ordering::Relaxed);
        for (k, v) in cx.classes {
            *rep.classes.entry(k).or_default() += v;
        }
        if cx.nontrivial {
            let mut h = DefaultHasher::new();
            name.hash(&mut h);
            serde_json::to_string(&case).unwrap_or_default().hash(&mut h);
            rep.nontrivial.insert(h.finish());
        }
        if i == n / 2 {
            let s = trunc(&serde_json::to_string(&case).unwrap_or_default(), 700);
            rep.samples.push(json!({"part": name, "case": s, "note": cx.note, "nontrivial": cx.nontrivial}));
        }
        if let Err(msg) = res {
            stop.store(true, Ordering::Relaxed);
            // shrink
            let best = RefCell::new((case.clone(), msg.clone()));
            let r = runner.run_one(tree, |c| {
                journal(name, w, &c);
                let mut cx = Ctx::default();
                watch.start(w);
                let res = one(&c, &mut cx);
                watch.stop(w);
                match res {
                    Ok(()) => Ok(()),
                    Err(m) => {
                        *best.borrow_mut() = (c, m.clone());
                        Err(TestCaseError::fail(m))
                    }
                }
            });
            let (mut c, mut m) = best.into_inner();
            if let Err(TestError::Fail(reason, minimal)) = r {
                m = reason.message().to_string();
                c = minimal;
            }
            rep.failure = Some(json!({"part": name, "case": c, "message": m, "first_message": msg}));
            break;
        }
    }
    rep
}

/// Note the case a worker is about to run, for [`crate::supervise`].
fn journal<C: Serialize>(part: &str, w: u32, case: &C) {
    if let Some(d) = std::env::var_os("HB_JOURNAL") {
        let _ = std::fs::write(
            std::path::Path::new(&d).join(format!("case-{w}")),
            serde_json::to_string(&json!({"part": part, "case": case})).unwrap_or_default(),
        );
    }
}
/// Shrink a case that crashes the process: drop list elements (halves, then single
/// ones) and make numbers smaller as long as `crashes` says so.
pub fn shrink_json(case: &str, crashes: &mut dyn FnMut(&str) -> bool) -> String {
    fn lists(v: &Value, at: &mut Vec<String>, out: &mut Vec<(String, usize)>) {
        match v {
            Value::Array(a) => {
                out.push((at.concat(), a.len()));
                for (i, x) in a.iter().enumerate() {
                    at.push(format!("/{i}"));
                    lists(x, at, out);
                    at.pop();
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    at.push(format!("/{k}"));
                    lists(x, at, out);
                    at.pop();
                }
            }
            Value::Number(_) => out.push((at.concat(), usize::MAX)),
            _ => (),
        }
    }
    let Ok(mut best) = serde_json::from_str::<Value>(case) else { return case.into() };
    let mut try_it = |v: Value, best: &mut Value| {
        let ok = v != *best && crashes(&v.to_string());
        if ok {
            *best = v
        }
        ok
    };
    loop {
        let mut progress = false;
        let mut places = vec![];
        lists(&best["case"], &mut vec![], &mut places);
        for (at, _) in places {
            let at = format!("/case{at}");
            if let Some(n) = best.pointer(&at).and_then(|x| x.as_u64()) {
                for m in [0, n / 2, n.saturating_sub(1)] {
                    if m < n {
                        let mut v = best.clone();
                        *v.pointer_mut(&at).expect("there") = json!(m);
                        if try_it(v, &mut best) {
                            progress = true;
                            break;
                        }
                    }
                }
                continue;
            }
            let len = |b: &Value| b.pointer(&at).and_then(|x| x.as_array()).map_or(0, |a| a.len());
            let mut step = len(&best);
            while step > 0 {
                let mut i = 0;
                while i + step <= len(&best) {
                    let mut v = best.clone();
                    v.pointer_mut(&at).and_then(|x| x.as_array_mut()).expect("there").drain(i..i + step);
                    if try_it(v, &mut best) {
                        progress = true
                    } else {
                        i += step
                    }
                }
                step /= 2;
            }
        }
        if !progress {
            return best.to_string();
        }
    }
}
/// Keep a case that crashes the process.
pub fn keep_crash(id: &str, case: &str) -> std::path::PathBuf {
    let mut h = DefaultHasher::new();
    case.hash(&mut h);
    let rd = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rd);
    let path = rd.join(format!("{id}-crash-{:016x}.json", h.finish()));
    let _ = std::fs::write(&path, case);
    path
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("HB_VERIF").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn load_replay(path: &std::path::Path) -> Result<Value, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    serde_json::from_str(&s).map_err(|e| format!("{}: {e}", path.display()))
}

fn replay_value(p: &Property, v: &Value, watch: &Watch) -> Result<(), String> {
    let name = v["part"].as_str().unwrap_or("");
    let part = p.parts.iter().find(|q| q.name == name).ok_or_else(|| {
        let e = format!("no part {name:?} in {}", p.id);
        HARNESS_ERROR.lock().unwrap().get_or_insert(e.clone());
        e
    })?;
    (part.replay)(&v["case"], watch)
}

fn harness_error() -> Option<i32> {
    let e = HARNESS_ERROR.lock().unwrap().clone();
    e.map(|e| {
        println!("ERROR: {e}");
        2
    })
}

/// Returns the exit code.
pub fn replay(p: &Property, path: &str) -> i32 {
    let v = match load_replay(path.as_ref()) {
        Ok(v) => v,
        Err(e) => {
            println!("ERROR: {e}");
            return 2;
        }
    };
    let watch = Watch::default();
    watch.spawn();
    let r = replay_value(p, &v, &watch);
    if let Some(c) = harness_error() {
        return c;
    }
    match r {
        Ok(()) => {
            println!("{}: replay holds", p.id);
            0
        }
        Err(m) => {
            println!("{}", trunc(&m, 2000));
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
    }
}

pub fn run(p: &Property, tier: Tier, seed: u64, scale: f64) -> i32 {
    let t0 = Instant::now();
    let watch = Watch::default();
    watch.spawn();
    let dir = verif_dir();
    let mut total = Report::default();
    let mut per_part = serde_json::Map::new();
    let mut failure: Option<Value> = None;
    // saved regressions first
    let mut regress = 0u64;
    let corpus = dir.join("corpus").join(p.id);
    let mut files: Vec<_> = std::fs::read_dir(&corpus)
        .map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "json")).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        match load_replay(&f) {
            Err(e) => {
                println!("ERROR: {e}");
                return 2;
            }
            Ok(v) => {
                regress += 1;
                let r = replay_value(p, &v, &watch);
                if let Err(m) = r {
                    let mut v = v.clone();
                    v["message"] = json!(m);
                    failure = Some(v);
                    break;
                }
            }
        }
    }
    if failure.is_none() {
        let only = std::env::var("HB_PART").ok();
        for part in p.parts.iter().filter(|q| only.as_ref().is_none_or(|o| q.name == o)) {
            let n = match tier {
                Tier::Quick => part.quick,
                Tier::Thorough => part.thorough,
            };
            let n = ((n as f64 * scale) as u32).max(1);
            let tp = Instant::now();
            let r = (part.run)(seed, n, tier, &watch);
            per_part.insert(
                part.name.into(),
                json!({"evaluations": r.evaluations, "distinct_nontrivial": r.nontrivial.len(),
                       "wall_s": tp.elapsed().as_secs_f64(), "classes": r.classes}),
            );
            total.evaluations += r.evaluations;
            total.nontrivial.extend(r.nontrivial);
            total.samples.extend(r.samples);
            if r.failure.is_some() {
                failure = r.failure;
                break;
            }
            if HARNESS_ERROR.lock().unwrap().is_some() {
                break;
            }
        }
    }
    if let Some(c) = harness_error() {
        return c;
    }
    let wall = t0.elapsed().as_secs_f64();
    if std::env::var_os("HB_STATS").is_some() {
        println!("longest case {} ms of processor time, most polls {}, most memory {} MB", LONGEST.load(Ordering::Relaxed), crate::exec::MOST.load(Ordering::Relaxed), crate::props::ffi::most_memory() >> 20);
    }
    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.nontrivial.len(),
            "rule": p.rule,
            "samples": total.samples,
            "regressions_replayed": regress,
            "parts": per_part,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": u64::from(failure.is_some()),
    });
    let evdir = dir.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("ERROR: cannot write evidence: {e}");
        return 2;
    }
    match failure {
        None => {
            println!(
                "{}: held on {} cases ({} distinct non-trivial) in {:.1}s",
                p.id, total.evaluations, total.nontrivial.len(), wall
            );
            0
        }
        Some(mut f) => {
            f["property"] = json!(p.id);
            f["seed"] = json!(seed);
            let mut h = DefaultHasher::new();
            f["case"].to_string().hash(&mut h);
            let rd = dir.join("replays");
            let _ = std::fs::create_dir_all(&rd);
            let path = rd.join(format!("{}-{:016x}.json", p.id, h.finish()));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap());
            println!("{} {}: {}", p.id, f["part"].as_str().unwrap_or(""), trunc(f["message"].as_str().unwrap_or(""), 1500));
            println!("minimal case: {}", trunc(&f["case"].to_string(), 1500));
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
    }
}
