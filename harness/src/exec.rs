//! Deterministic execution of futures, with detection of hangs that needs no clock.
//!
//! Futures run inside a single-threaded tokio runtime, so tokio's cooperative
//! budget makes any loop that keeps taking locks yield now and then. Every poll
//! is counted. A future that needs more polls than its budget, or that is
//! pending although nobody has promised to wake it, is reported as hung.
use std::{
    cell::RefCell,
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Hang(pub String);

pub type R<T> = Result<T, String>;

pub struct Flag {
    set: AtomicBool,
    outer: std::sync::Mutex<Option<Waker>>,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.set.store(true, Ordering::SeqCst);
        let w = self.outer.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake()
        }
    }
}
impl Flag {
    pub fn new() -> Arc<Self> {
        Arc::new(Flag { set: AtomicBool::new(true), outer: Default::default() })
    }
    pub fn take(&self) -> bool {
        self.set.swap(false, Ordering::SeqCst)
    }
    pub fn is_set(&self) -> bool {
        self.set.load(Ordering::SeqCst)
    }
    pub fn outer(&self, w: &Waker) {
        *self.outer.lock().unwrap() = Some(w.clone());
    }
}

thread_local! {
    static RT: RefCell<Option<tokio::runtime::Runtime>> = const { RefCell::new(None) };
}

/// Turns of the runtime to let deferred wakeups and spawned tasks happen before
/// a pending, unwoken future counts as stuck.
const IDLE_TURNS: u32 = 400;

fn with_rt<T>(f: impl FnOnce(&tokio::runtime::Runtime) -> T) -> T {
    let rt = RT.with(|r| r.borrow_mut().take()).unwrap_or_else(|| {
        tokio::runtime::Builder::new_current_thread().build().expect("runtime")
    });
    let out = f(&rt);
    RT.with(|r| *r.borrow_mut() = Some(rt));
    out
}

/// Forget this thread's runtime (after a panic inside it, or to end spawned tasks).
pub fn reset_rt() {
    RT.with(|r| r.borrow_mut().take());
}

/// The most polls a finished future took.
pub static MOST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Far more polls than any future of a correct library takes (see `HB_STATS`).
pub const BUDGET: u64 = 400_000;

/// Run one future to completion.
pub fn run<F: Future>(fut: F) -> Result<F::Output, Hang> {
    run_budget(fut, BUDGET)
}

pub fn run_budget<F: Future>(fut: F, budget: u64) -> Result<F::Output, Hang> {
    let mut fut = Box::pin(fut);
    let flag = Flag::new();
    let waker: Waker = flag.clone().into();
    let (mut polls, mut idle) = (0u64, 0u32);
    with_rt(|rt| {
        rt.block_on(std::future::poll_fn(|cx| {
            flag.outer(cx.waker());
            if !flag.take() {
                idle += 1;
                if idle > IDLE_TURNS {
                    return Poll::Ready(Err(Hang(format!(
                        "pending after {polls} polls with nothing left that could wake it"
                    ))));
                }
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            idle = 0;
            polls += 1;
            if polls > budget {
                return Poll::Ready(Err(Hang(format!("not finished after {budget} polls"))));
            }
            match fut.as_mut().poll(&mut Context::from_waker(&waker)) {
                Poll::Ready(x) => {
                    if polls > 50 {
                        MOST.fetch_max(polls, Ordering::Relaxed);
                    }
                    Poll::Ready(Ok(x))
                }
                Poll::Pending => {
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
            }
        }))
    })
}

/// Poll a future at most `n` times, then drop it. `Some` when it completed.
pub fn run_then_drop<F: Future>(fut: F, n: u64) -> Result<Option<F::Output>, Hang> {
    let mut fut = Some(Box::pin(fut));
    let flag = Flag::new();
    let waker: Waker = flag.clone().into();
    let (mut polls, mut idle) = (0u64, 0u32);
    with_rt(|rt| {
        rt.block_on(std::future::poll_fn(|cx| {
            flag.outer(cx.waker());
            if polls >= n {
                fut.take();
                return Poll::Ready(Ok(None));
            }
            if !flag.take() {
                idle += 1;
                if idle > IDLE_TURNS {
                    fut.take();
                    return Poll::Ready(Err(Hang("pending with nothing left that could wake it".into())));
                }
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            idle = 0;
            polls += 1;
            match fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker)) {
                Poll::Ready(x) => {
                    fut.take();
                    Poll::Ready(Ok(Some(x)))
                }
                Poll::Pending => {
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
            }
        }))
    })
}

pub type Task<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

/// One step of a scheduled run, as the harness saw it.
#[derive(Debug, Clone)]
pub struct Done<T> {
    pub out: T,
    /// step at which the task was first polled
    pub start: u64,
    /// step at which it completed
    pub end: u64,
}

/// Steps of a scheduled run after which every runnable task gets its turn.
const UNFAIR: u64 = 100_000;

/// Poll several tasks, one poll at a time, in the order `pick` chooses among the
/// runnable ones. `on_step(task, step)` runs before each poll.
/// `pick` gets the indices of the runnable tasks and returns a position in them.
pub fn run_scheduled<'a, T>(
    tasks: Vec<Task<'a, T>>,
    mut pick: impl FnMut(&[usize]) -> usize,
    mut on_step: impl FnMut(usize, u64),
    budget: u64,
) -> Result<Vec<Done<T>>, Hang> {
    let n = tasks.len();
    let mut tasks: Vec<Option<Task<'a, T>>> = tasks.into_iter().map(Some).collect();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Flag::new()).collect();
    let wakers: Vec<Waker> = flags.iter().map(|f| f.clone().into()).collect();
    let mut started = vec![None; n];
    let mut done: Vec<Option<Done<T>>> = (0..n).map(|_| None).collect();
    let (mut step, mut idle, mut turn) = (0u64, 0u32, 0usize);
    with_rt(|rt| {
        rt.block_on(std::future::poll_fn(|cx| {
            for f in &flags {
                f.outer(cx.waker());
            }
            if tasks.iter().all(|t| t.is_none()) {
                return Poll::Ready(Ok(()));
            }
            let ready: Vec<usize> =
                (0..n).filter(|&i| tasks[i].is_some() && flags[i].is_set()).collect();
            if ready.is_empty() {
                idle += 1;
                if idle > IDLE_TURNS {
                    return Poll::Ready(Err(Hang(format!(
                        "deadlock: {} tasks pending after {step} steps and none can be woken",
                        tasks.iter().flatten().count()
                    ))));
                }
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            idle = 0;
            step += 1;
            if step > budget {
                return Poll::Ready(Err(Hang(format!("not finished after {budget} steps"))));
            }
            let mut i = ready[pick(&ready) % ready.len()];
            if step > UNFAIR {
                // The code may poll again and again for what another task has yet to do,
                // so a schedule must not leave that task out for ever.
                i = ready.iter().copied().find(|r| *r > turn).unwrap_or(ready[0]);
                turn = i;
            }
            flags[i].take();
            started[i].get_or_insert(step);
            on_step(i, step);
            if let Poll::Ready(out) =
                tasks[i].as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&wakers[i]))
            {
                tasks[i] = None;
                done[i] = Some(Done { out, start: started[i].unwrap(), end: step });
            }
            cx.waker().wake_by_ref();
            Poll::Pending
        }))
    })?;
    Ok(done.into_iter().map(|d| d.unwrap()).collect())
}
