pub use futures_io::{
    AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, Error, ErrorKind, Result, SeekFrom,
};
pub use futures_util::io::{AsyncBufReadExt, AsyncReadExt, AsyncSeekExt, AsyncWriteExt};
pub use futures_util::io::{copy, empty, repeat, sink, BufReader, BufWriter, Cursor};
