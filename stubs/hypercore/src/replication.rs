//! The `replication` half of the stand-in: [`SharedCore`] and its traits.
use std::{future::Future, sync::Arc};

use tokio::sync::Mutex;

use crate::{sim::SimLog, AppendOutcome, Hypercore, HypercoreError, Info};

#[derive(thiserror::Error, Debug)]
pub enum CoreMethodsError {
    #[error("Got a hypercore error: [{0}]")]
    HypercoreError(#[from] HypercoreError),
}

pub trait CoreInfo {
    fn info(&self) -> impl Future<Output = Info> + Send;
}

pub trait CoreMethods: CoreInfo {
    fn has(&self, index: u64) -> impl Future<Output = bool> + Send;
    fn get(
        &self,
        index: u64,
    ) -> impl Future<Output = Result<Option<Vec<u8>>, CoreMethodsError>> + Send;
    fn append(
        &self,
        data: &[u8],
    ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
    fn append_batch<A: AsRef<[u8]> + Send + Sync, B: AsRef<[A]> + Send>(
        &self,
        batch: B,
    ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
}

/// A [`Hypercore`] that can be shared between owners.
#[derive(Debug, Clone)]
pub struct SharedCore(pub Arc<Mutex<Hypercore>>, SimLog);

impl SharedCore {
    pub fn from_hypercore(hypercore: Hypercore) -> Self {
        let log = hypercore.sim();
        SharedCore(Arc::new(Mutex::new(hypercore)), log)
    }
    /// Stand-in only.
    pub fn sim(&self) -> SimLog {
        self.1.clone()
    }
}

impl From<Hypercore> for SharedCore {
    fn from(core: Hypercore) -> Self {
        SharedCore::from_hypercore(core)
    }
}

impl CoreInfo for SharedCore {
    async fn info(&self) -> Info {
        self.1.info_io().await
    }
}

impl CoreMethods for SharedCore {
    async fn has(&self, index: u64) -> bool {
        self.1.has(index)
    }
    async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
        Ok(self.1.get_io(index).await?)
    }
    async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
        Ok(self.1.append_io(&[data]).await?)
    }
    async fn append_batch<A: AsRef<[u8]> + Send + Sync, B: AsRef<[A]> + Send>(
        &self,
        batch: B,
    ) -> Result<AppendOutcome, CoreMethodsError> {
        let owned: Vec<Vec<u8>> = batch.as_ref().iter().map(|x| x.as_ref().to_vec()).collect();
        let refs: Vec<&[u8]> = owned.iter().map(|x| &x[..]).collect();
        Ok(self.1.append_io(&refs).await?)
    }
}
