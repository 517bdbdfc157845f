//! What the demonstrations share.
#![allow(dead_code, unused_imports)]
pub use futures_util::StreamExt;
pub use hypercore::{
    sim::{Fault, SimLog},
    HypercoreBuilder, Storage,
};
pub use hyperbee::{
    prefixed::PrefixedConfig,
    traverse::{LimitValue, TraverseConfig, TraverseConfigBuilder},
    Hyperbee, HyperbeeError, KeyValueData, Metadata,
};
pub use std::collections::BTreeMap;

pub type Item = (Vec<u8>, u64, Option<Vec<u8>>);

/// Run on a single-threaded tokio runtime; a future that is never done is a failure.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        match tokio::time::timeout(std::time::Duration::from_secs(60), f).await {
            Ok(x) => x,
            Err(_) => {
                println!("not finished after 60 s");
                std::process::exit(1)
            }
        }
    })
}
pub async fn open(log: &SimLog) -> Hyperbee {
    let core = HypercoreBuilder::new(Storage::new_sim(log.clone())).build().await.unwrap();
    Hyperbee::from_hypercore(core).unwrap()
}
/// A key like those of the tests.
pub fn k(i: usize) -> Vec<u8> {
    format!("{i:05}").into_bytes()
}
pub async fn items(hb: &Hyperbee, conf: TraverseConfig) -> Vec<Item> {
    let st = hb.traverse(conf).await.unwrap();
    futures_util::pin_mut!(st);
    let mut out = vec![];
    while let Some(x) = st.next().await {
        let x = x.unwrap();
        out.push((x.key, x.seq, x.value));
    }
    out
}
pub async fn keys(hb: &Hyperbee, conf: TraverseConfig) -> Vec<Vec<u8>> {
    items(hb, conf).await.into_iter().map(|x| x.0).collect()
}
pub fn all() -> TraverseConfig {
    TraverseConfig::default()
}
/// A small fixed pseudo-random sequence.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n
    }
}
