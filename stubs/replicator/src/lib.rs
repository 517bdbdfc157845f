//! Offline stand-in for `replicator`: a [`ReplicatingCore`] wraps a
//! [`SharedCore`] and copies blocks to and from peers over byte streams.
//!
//! The protocol here is the stand-in's own: one role byte each way (a
//! connection needs exactly one initiator, as the Noise handshake of the real
//! protocol does), then frames `L len` (announce length) and `B seq n bytes`.
use std::future::Future;

use futures_lite::{AsyncRead, AsyncWrite};
use futures_util::io::{AsyncReadExt, AsyncWriteExt};
use hypercore::{
    replication::{CoreInfo, CoreMethods, CoreMethodsError, SharedCore},
    sim::SimLog,
    AppendOutcome, Hypercore, HypercoreError, Info,
};

#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum ReplicatorError {
    #[error("There was an error in the underlying Hypercore")]
    HypercoreError(#[from] HypercoreError),
    #[error("There was an error in the underlying core methods")]
    CoreMethodsError(#[from] CoreMethodsError),
    #[error("IO error")]
    IoError(#[from] std::io::Error),
}

#[derive(Debug, Clone)]
pub struct ReplicatingCore {
    core: SharedCore,
}

impl From<SharedCore> for ReplicatingCore {
    fn from(core: SharedCore) -> Self {
        Self { core }
    }
}
impl From<Hypercore> for ReplicatingCore {
    fn from(core: Hypercore) -> Self {
        Self { core: core.into() }
    }
}

impl CoreInfo for ReplicatingCore {
    fn info(&self) -> impl Future<Output = Info> + Send {
        self.core.info()
    }
}
impl CoreMethods for ReplicatingCore {
    fn has(&self, index: u64) -> impl Future<Output = bool> + Send {
        self.core.has(index)
    }
    fn get(
        &self,
        index: u64,
    ) -> impl Future<Output = Result<Option<Vec<u8>>, CoreMethodsError>> + Send {
        self.core.get(index)
    }
    fn append(
        &self,
        data: &[u8],
    ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send {
        self.core.append(data)
    }
    fn append_batch<A: AsRef<[u8]> + Send + Sync, B: AsRef<[A]> + Send>(
        &self,
        batch: B,
    ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send {
        self.core.append_batch(batch)
    }
}

impl ReplicatingCore {
    /// Replicate with the peer on the other end of `stream`.
    pub async fn add_stream<S>(&self, stream: S, is_initiator: bool)
    where
        S: AsyncRead + AsyncWrite + Send + Unpin + 'static,
    {
        let log = self.core.sim();
        tokio::spawn(async move {
            if let Err(e) = replicate(log.clone(), stream, is_initiator).await {
                log.note_replication_error(&e);
            }
        });
    }
}

async fn replicate<S>(log: SimLog, stream: S, is_initiator: bool) -> Result<(), String>
where
    S: AsyncRead + AsyncWrite + Send + Unpin + 'static,
{
    let (mut r, mut w) = stream.split();
    let e = |e: std::io::Error| e.to_string();
    w.write_all(&[if is_initiator { b'I' } else { b'R' }])
        .await
        .map_err(e)?;
    w.flush().await.map_err(e)?;
    let mut role = [0u8];
    r.read_exact(&mut role).await.map_err(e)?;
    if (role[0] == b'I') == is_initiator {
        return Err("both ends have the same role".into());
    }
    // Only a writable core has anything its peers cannot already get elsewhere.
    let send_log = log.clone();
    let send = async move {
        if !send_log.writable() {
            return Ok::<(), String>(());
        }
        let mut rx = send_log.subscribe();
        let mut sent = 0u64;
        loop {
            let len = send_log.len();
            if len > sent {
                let mut out = vec![b'L'];
                out.extend_from_slice(&len.to_le_bytes());
                w.write_all(&out).await.map_err(e)?;
                while sent < len {
                    let b = send_log.block(sent).unwrap_or_default();
                    let mut out = vec![b'B'];
                    out.extend_from_slice(&sent.to_le_bytes());
                    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
                    out.extend_from_slice(&b);
                    w.write_all(&out).await.map_err(e)?;
                    sent += 1;
                }
                w.flush().await.map_err(e)?;
            }
            if send_log.len() == sent && rx.changed().await.is_err() {
                return Ok(());
            }
        }
    };
    let recv = async move {
        loop {
            let mut tag = [0u8];
            if r.read_exact(&mut tag).await.is_err() {
                return Ok::<(), String>(());
            }
            let mut n8 = [0u8; 8];
            r.read_exact(&mut n8).await.map_err(e)?;
            let n = u64::from_le_bytes(n8);
            match tag[0] {
                b'L' => {
                    if !log.writable() {
                        log.set_remote_len(n)
                    }
                }
                b'B' => {
                    let mut n4 = [0u8; 4];
                    r.read_exact(&mut n4).await.map_err(e)?;
                    let mut b = vec![0u8; u32::from_le_bytes(n4) as usize];
                    r.read_exact(&mut b).await.map_err(e)?;
                    if !log.writable() {
                        log.put_remote(n, &b);
                    }
                }
                t => return Err(format!("bad frame tag {t}")),
            }
        }
    };
    let (a, b) = futures_util::future::join(send, recv).await;
    a?;
    b
}

#[cfg(feature = "utils")]
pub mod utils {
    //! Test helpers with the names the real crate exports.
    use futures_lite::{AsyncRead, AsyncWrite};
    use hypercore::{replication::SharedCore, sim::SimLog, HypercoreBuilder, HypercoreError, Storage};
    use std::{
        pin::Pin,
        task::{Context, Poll},
    };

    pub struct Duplex(tokio::io::DuplexStream);
    impl AsyncRead for Duplex {
        fn poll_read(
            mut self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            buf: &mut [u8],
        ) -> Poll<std::io::Result<usize>> {
            let mut rb = tokio::io::ReadBuf::new(buf);
            match tokio::io::AsyncRead::poll_read(Pin::new(&mut self.0), cx, &mut rb) {
                Poll::Ready(Ok(())) => Poll::Ready(Ok(rb.filled().len())),
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
    }
    impl AsyncWrite for Duplex {
        fn poll_write(
            mut self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            buf: &[u8],
        ) -> Poll<std::io::Result<usize>> {
            tokio::io::AsyncWrite::poll_write(Pin::new(&mut self.0), cx, buf)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            tokio::io::AsyncWrite::poll_flush(Pin::new(&mut self.0), cx)
        }
        fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            tokio::io::AsyncWrite::poll_shutdown(Pin::new(&mut self.0), cx)
        }
    }
    pub fn create_connected_streams() -> (Duplex, Duplex) {
        let (a, b) = tokio::io::duplex(1 << 14);
        (Duplex(a), Duplex(b))
    }
    pub async fn writer_and_reader_cores() -> Result<(SharedCore, SharedCore), HypercoreError> {
        let w = HypercoreBuilder::new(Storage::new_memory().await?).build().await?;
        let log = SimLog::new();
        log.set_writable(false);
        let r = HypercoreBuilder::new(Storage::new_sim(log)).build().await?;
        Ok((w.into(), r.into()))
    }
}
