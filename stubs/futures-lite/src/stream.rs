pub use futures_core::stream::Stream;
use futures_util::future::ready;
use futures_util::stream as fs;
pub use futures_util::stream::{empty, iter, once as once_future, pending, poll_fn, repeat, Empty, Iter};
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};

pub type Boxed<T> = Pin<Box<dyn Stream<Item = T> + Send + 'static>>;
pub type BoxedLocal<T> = Pin<Box<dyn Stream<Item = T> + 'static>>;

pub fn once<T>(t: T) -> impl Stream<Item = T> {
    fs::once(ready(t))
}
pub fn unfold<T, F, Fut, Item>(seed: T, f: F) -> impl Stream<Item = Item>
where
    F: FnMut(T) -> Fut,
    Fut: Future<Output = Option<(Item, T)>>,
{
    fs::unfold(seed, f)
}
pub fn block_on<S: Stream + Unpin>(s: S) -> impl Iterator<Item = S::Item> {
    let mut s = s;
    core::iter::from_fn(move || crate::future::block_on(fs::StreamExt::next(&mut s)))
}

pub trait StreamExt: Stream {
    fn poll_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>
    where
        Self: Unpin,
    {
        Stream::poll_next(Pin::new(self), cx)
    }
    fn next(&mut self) -> fs::Next<'_, Self>
    where
        Self: Unpin,
    {
        fs::StreamExt::next(self)
    }
    fn try_next<T, E>(&mut self) -> impl Future<Output = Result<Option<T>, E>>
    where
        Self: Stream<Item = Result<T, E>> + Unpin,
    {
        async move { fs::StreamExt::next(self).await.transpose() }
    }
    fn count(self) -> impl Future<Output = usize>
    where
        Self: Sized,
    {
        fs::StreamExt::count(self)
    }
    fn map<T, F>(self, f: F) -> fs::Map<Self, F>
    where
        Self: Sized,
        F: FnMut(Self::Item) -> T,
    {
        fs::StreamExt::map(self, f)
    }
    fn flat_map<U, F>(self, f: F) -> fs::FlatMap<Self, U, F>
    where
        Self: Sized,
        U: Stream,
        F: FnMut(Self::Item) -> U,
    {
        fs::StreamExt::flat_map(self, f)
    }
    fn then<F, Fut>(self, f: F) -> fs::Then<Self, Fut, F>
    where
        Self: Sized,
        F: FnMut(Self::Item) -> Fut,
        Fut: Future,
    {
        fs::StreamExt::then(self, f)
    }
    fn filter<P>(self, mut predicate: P) -> impl Stream<Item = Self::Item>
    where
        Self: Sized,
        P: FnMut(&Self::Item) -> bool,
    {
        fs::StreamExt::filter(self, move |x| ready(predicate(x)))
    }
    fn filter_map<T, F>(self, mut f: F) -> impl Stream<Item = T>
    where
        Self: Sized,
        F: FnMut(Self::Item) -> Option<T>,
    {
        fs::StreamExt::filter_map(self, move |x| ready(f(x)))
    }
    fn take(self, n: usize) -> fs::Take<Self>
    where
        Self: Sized,
    {
        fs::StreamExt::take(self, n)
    }
    fn take_while<P>(self, mut predicate: P) -> impl Stream<Item = Self::Item>
    where
        Self: Sized,
        P: FnMut(&Self::Item) -> bool,
    {
        fs::StreamExt::take_while(self, move |x| ready(predicate(x)))
    }
    fn map_while<T, P>(self, mut predicate: P) -> impl Stream<Item = T>
    where
        Self: Sized,
        P: FnMut(Self::Item) -> Option<T>,
    {
        fs::StreamExt::filter_map(
            fs::StreamExt::take_while(fs::StreamExt::map(self, move |x| predicate(x)), |x| {
                ready(x.is_some())
            }),
            ready,
        )
    }
    fn skip(self, n: usize) -> fs::Skip<Self>
    where
        Self: Sized,
    {
        fs::StreamExt::skip(self, n)
    }
    fn skip_while<P>(self, mut predicate: P) -> impl Stream<Item = Self::Item>
    where
        Self: Sized,
        P: FnMut(&Self::Item) -> bool,
    {
        fs::StreamExt::skip_while(self, move |x| ready(predicate(x)))
    }
    fn chain<U>(self, other: U) -> fs::Chain<Self, U>
    where
        Self: Sized,
        U: Stream<Item = Self::Item> + Sized,
    {
        fs::StreamExt::chain(self, other)
    }
    fn zip<U>(self, other: U) -> fs::Zip<Self, U>
    where
        Self: Sized,
        U: Stream,
    {
        fs::StreamExt::zip(self, other)
    }
    fn enumerate(self) -> fs::Enumerate<Self>
    where
        Self: Sized,
    {
        fs::StreamExt::enumerate(self)
    }
    fn inspect<F>(self, f: F) -> fs::Inspect<Self, F>
    where
        Self: Sized,
        F: FnMut(&Self::Item),
    {
        fs::StreamExt::inspect(self, f)
    }
    fn fuse(self) -> fs::Fuse<Self>
    where
        Self: Sized,
    {
        fs::StreamExt::fuse(self)
    }
    fn cloned<'a, T>(self) -> impl Stream<Item = T>
    where
        Self: Stream<Item = &'a T> + Sized,
        T: Clone + 'a,
    {
        fs::StreamExt::map(self, |x: &T| x.clone())
    }
    fn collect<C>(self) -> impl Future<Output = C>
    where
        Self: Sized,
        C: Default + Extend<Self::Item>,
    {
        fs::StreamExt::collect::<C>(self)
    }
    fn try_collect<T, E, C>(self) -> impl Future<Output = Result<C, E>>
    where
        Self: Stream<Item = Result<T, E>> + Sized,
        C: Default + Extend<T>,
    {
        fs::TryStreamExt::try_collect(self)
    }
    fn fold<T, F>(self, init: T, mut f: F) -> impl Future<Output = T>
    where
        Self: Sized,
        F: FnMut(T, Self::Item) -> T,
    {
        fs::StreamExt::fold(self, init, move |a, x| ready(f(a, x)))
    }
    fn for_each<F>(self, mut f: F) -> impl Future<Output = ()>
    where
        Self: Sized,
        F: FnMut(Self::Item),
    {
        fs::StreamExt::for_each(self, move |x| ready(f(x)))
    }
    fn last(self) -> impl Future<Output = Option<Self::Item>>
    where
        Self: Sized,
    {
        fs::StreamExt::fold(self, None, |_, x| ready(Some(x)))
    }
    fn nth(&mut self, n: usize) -> impl Future<Output = Option<Self::Item>>
    where
        Self: Unpin,
    {
        async move {
            for _ in 0..n {
                fs::StreamExt::next(self).await?;
            }
            fs::StreamExt::next(self).await
        }
    }
    fn find<P>(&mut self, mut predicate: P) -> impl Future<Output = Option<Self::Item>>
    where
        Self: Unpin,
        P: FnMut(&Self::Item) -> bool,
    {
        async move {
            while let Some(x) = fs::StreamExt::next(self).await {
                if predicate(&x) {
                    return Some(x);
                }
            }
            None
        }
    }
    fn any<P>(&mut self, mut predicate: P) -> impl Future<Output = bool>
    where
        Self: Unpin,
        P: FnMut(Self::Item) -> bool,
    {
        async move {
            while let Some(x) = fs::StreamExt::next(self).await {
                if predicate(x) {
                    return true;
                }
            }
            false
        }
    }
    fn all<P>(&mut self, mut predicate: P) -> impl Future<Output = bool>
    where
        Self: Unpin,
        P: FnMut(Self::Item) -> bool,
    {
        async move {
            while let Some(x) = fs::StreamExt::next(self).await {
                if !predicate(x) {
                    return false;
                }
            }
            true
        }
    }
    fn boxed<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + Send + 'a>>
    where
        Self: Sized + Send + 'a,
    {
        Box::pin(self)
    }
    fn boxed_local<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + 'a>>
    where
        Self: Sized + 'a,
    {
        Box::pin(self)
    }
}
impl<S: Stream + ?Sized> StreamExt for S {}
