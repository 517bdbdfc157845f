pub use core::future::{pending, ready, Future, Pending, Ready};
use core::pin::Pin;
use core::task::{Context, Poll};

pub type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send + 'static>>;
pub type BoxedLocal<T> = Pin<Box<dyn Future<Output = T> + 'static>>;

pub use core::future::poll_fn;

pub fn block_on<T>(future: impl Future<Output = T>) -> T {
    struct W(std::thread::Thread);
    impl std::task::Wake for W {
        fn wake(self: std::sync::Arc<Self>) {
            self.0.unpark();
        }
    }
    let waker = std::task::Waker::from(std::sync::Arc::new(W(std::thread::current())));
    let mut cx = Context::from_waker(&waker);
    let mut f = core::pin::pin!(future);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        std::thread::park();
    }
}

pub async fn yield_now() {
    let mut done = false;
    poll_fn(move |cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

/// Polls the future once.
pub async fn poll_once<T, F: Future<Output = T>>(f: F) -> Option<T> {
    let mut f = Box::pin(f);
    poll_fn(move |cx| match f.as_mut().poll(cx) {
        Poll::Ready(v) => Poll::Ready(Some(v)),
        Poll::Pending => Poll::Ready(None),
    })
    .await
}

pub async fn zip<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
    futures_util::future::join(a, b).await
}

pub async fn try_zip<T1, T2, E>(
    a: impl Future<Output = Result<T1, E>>,
    b: impl Future<Output = Result<T2, E>>,
) -> Result<(T1, T2), E> {
    futures_util::future::try_join(a, b).await
}

pub async fn or<T>(a: impl Future<Output = T>, b: impl Future<Output = T>) -> T {
    let mut a = Box::pin(a);
    let mut b = Box::pin(b);
    poll_fn(move |cx| {
        if let Poll::Ready(v) = a.as_mut().poll(cx) {
            return Poll::Ready(v);
        }
        b.as_mut().poll(cx)
    })
    .await
}

pub trait FutureExt: Future {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Self::Output>
    where
        Self: Unpin,
    {
        Future::poll(Pin::new(self), cx)
    }
    fn or<F>(self, other: F) -> impl Future<Output = Self::Output>
    where
        Self: Sized,
        F: Future<Output = Self::Output>,
    {
        or(self, other)
    }
    fn catch_unwind(
        self,
    ) -> futures_util::future::CatchUnwind<Self>
    where
        Self: Sized + std::panic::UnwindSafe,
    {
        futures_util::FutureExt::catch_unwind(self)
    }
    fn boxed<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + Send + 'a>>
    where
        Self: Sized + Send + 'a,
    {
        Box::pin(self)
    }
    fn boxed_local<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + 'a>>
    where
        Self: Sized + 'a,
    {
        Box::pin(self)
    }
}

impl<F: Future + ?Sized> FutureExt for F {}
