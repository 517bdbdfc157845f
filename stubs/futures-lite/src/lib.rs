//! Offline stand-in for `futures-lite` 2: the same names and semantics for the
//! part hyperbee uses (and its close neighbourhood), delegating to `futures-util`.
pub mod future;
pub mod io;
pub mod stream;

#[doc(no_inline)]
pub use future::{Future, FutureExt};
#[doc(no_inline)]
pub use io::{
    AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite,
    AsyncWriteExt,
};
#[doc(no_inline)]
pub use stream::{Stream, StreamExt};

pub mod prelude {
    pub use crate::future::{Future, FutureExt as _};
    pub use crate::io::{
        AsyncBufRead, AsyncBufReadExt as _, AsyncRead, AsyncReadExt as _, AsyncSeek,
        AsyncSeekExt as _, AsyncWrite, AsyncWriteExt as _,
    };
    pub use crate::stream::{Stream, StreamExt as _};
}

pub use futures_util::ready;

#[macro_export]
macro_rules! pin {
    ($($x:ident),* $(,)?) => {
        $(
            let mut $x = $x;
            #[allow(unused_mut)]
            let mut $x = unsafe { core::pin::Pin::new_unchecked(&mut $x) };
        )*
    }
}
