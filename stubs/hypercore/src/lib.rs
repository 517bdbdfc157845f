//! Offline stand-in for `hypercore` 0.14.
//!
//! It models the contract hyperbee relies on: an append-only sequence of opaque
//! blocks; `append` puts one block at index `length` and is atomic; `get`
//! returns the block at an index, `None` when it is not held locally. No
//! signatures, Merkle tree or network. Every I/O call goes through
//! [`sim::SimLog`], where a check can make it yield, fail, or record it.
use std::path::{Path, PathBuf};

pub mod replication;
pub mod sim;

use sim::SimLog;

#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum HypercoreError {
    #[error("Bad argument. {context}")]
    BadArgument { context: String },
    #[error("Hypercore not writable")]
    NotWritable,
    #[error("Invalid signature. {context}")]
    InvalidSignature { context: String },
    #[error("Invalid checksum. {context}")]
    InvalidChecksum { context: String },
    #[error("Empty storage")]
    EmptyStorage,
    #[error("Corrupt storage. {}", .context.clone().unwrap_or_default())]
    CorruptStorage { context: Option<String> },
    #[error("Invalid operation. {context}")]
    InvalidOperation { context: String },
    #[error("Unrecoverable input/output error occured. {}", .context.clone().unwrap_or_default())]
    IO {
        context: Option<String>,
        #[source]
        source: std::io::Error,
    },
}

impl From<std::io::Error> for HypercoreError {
    fn from(source: std::io::Error) -> Self {
        Self::IO { context: None, source }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AppendOutcome {
    /// Length of the hypercore after append
    pub length: u64,
    /// Byte length of the hypercore after append
    pub byte_length: u64,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Info {
    pub length: u64,
    pub byte_length: u64,
    pub contiguous_length: u64,
    pub fork: u64,
    pub writeable: bool,
}

/// Where the blocks live.
#[derive(Debug)]
pub struct Storage {
    log: SimLog,
}

impl Storage {
    pub async fn new_memory() -> Result<Self, HypercoreError> {
        Ok(Self { log: SimLog::new() })
    }

    pub async fn new_disk(dir: &PathBuf, overwrite: bool) -> Result<Self, HypercoreError> {
        Ok(Self { log: SimLog::open_dir(dir, overwrite)? })
    }

    /// Stand-in only: storage backed by a log the caller controls.
    pub fn new_sim(log: SimLog) -> Self {
        Self { log }
    }
}

#[derive(Debug)]
pub struct HypercoreBuilder {
    storage: Storage,
}

impl HypercoreBuilder {
    pub fn new(storage: Storage) -> Self {
        Self { storage }
    }
    pub fn open(self, _open: bool) -> Self {
        self
    }
    pub async fn build(self) -> Result<Hypercore, HypercoreError> {
        Hypercore::new(self.storage).await
    }
}

#[derive(Debug)]
pub struct Hypercore {
    log: SimLog,
}

impl Hypercore {
    pub async fn new(storage: Storage) -> Result<Hypercore, HypercoreError> {
        storage.log.open_check()?;
        Ok(Hypercore { log: storage.log })
    }
    /// Stand-in only.
    pub fn sim(&self) -> SimLog {
        self.log.clone()
    }
    pub fn info(&self) -> Info {
        self.log.info()
    }
    pub async fn append(&mut self, data: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        self.log.append_io(&[data]).await
    }
    pub async fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]>>(
        &mut self,
        batch: B,
    ) -> Result<AppendOutcome, HypercoreError> {
        let refs: Vec<&[u8]> = batch.as_ref().iter().map(|x| x.as_ref()).collect();
        self.log.append_io(&refs).await
    }
    pub async fn get(&mut self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        self.log.get_io(index).await
    }
    pub fn has(&self, index: u64) -> bool {
        self.log.has(index)
    }
    pub async fn clear(&mut self, start: u64, end: u64) -> Result<(), HypercoreError> {
        self.log.clear(start, end);
        Ok(())
    }
}

pub(crate) fn data_file(dir: &Path) -> PathBuf {
    dir.join("data")
}
