//! The code under test behind a small synchronous face.
use crate::{
    exec::{self, R},
    model::{Entry, Map},
};
use futures_util::StreamExt;
use hyperbee::{
    traverse::{LimitValue, TraverseConfig},
    Hyperbee, HyperbeeError, KeyValueData,
};
use hypercore::{sim::SimLog, Hypercore, HypercoreBuilder, Storage};
use serde::{Deserialize, Serialize};

pub type Item = (Vec<u8>, u64, Option<Vec<u8>>);

pub fn core_of(log: &SimLog) -> Hypercore {
    exec::run(async { HypercoreBuilder::new(Storage::new_sim(log.clone())).build().await })
        .expect("core")
        .expect("core")
}
pub fn open(log: &SimLog) -> R<Hyperbee> {
    Hyperbee::from_hypercore(core_of(log)).map_err(|e| format!("from_hypercore: {e}"))
}
pub fn fresh() -> (Hyperbee, SimLog) {
    let log = SimLog::new();
    (open(&log).expect("open"), log)
}
pub fn over(blocks: &[Vec<u8>]) -> R<(Hyperbee, SimLog)> {
    let log = SimLog::from_blocks(blocks);
    Ok((open(&log)?, log))
}

/// Run an operation that must succeed.
pub fn ok<T>(what: &str, fut: impl std::future::Future<Output = Result<T, HyperbeeError>>) -> R<T> {
    match exec::run(fut) {
        Err(h) => Err(format!("{what}: hangs ({})", h.0)),
        Ok(Err(e)) => Err(format!("{what}: unexpected error: {}", err_text(&e))),
        Ok(Ok(x)) => Ok(x),
    }
}
/// Run an operation that may fail.
pub fn maybe<T>(
    what: &str,
    fut: impl std::future::Future<Output = Result<T, HyperbeeError>>,
) -> R<Result<T, HyperbeeError>> {
    exec::run(fut).map_err(|h| format!("{what}: hangs ({})", h.0))
}
pub fn err_text(e: &HyperbeeError) -> String {
    let mut s = e.to_string();
    let mut src = std::error::Error::source(e);
    while let Some(x) = src {
        s += &format!(": {x}");
        src = x.source();
    }
    s
}

pub fn show(k: &[u8]) -> String {
    if k.len() <= 24 && k.iter().all(|b| (0x20..0x7f).contains(b)) {
        format!("{:?}", String::from_utf8_lossy(k))
    } else if k.len() <= 24 {
        format!("{k:02x?}")
    } else {
        format!("{:02x?}..{:02x?} ({} bytes)", &k[..6], &k[k.len() - 4..], k.len())
    }
}

pub fn check_get(hb: &Hyperbee, key: &[u8], want: Option<&Entry>) -> R<()> {
    let got = ok("get", hb.get(key))?;
    if got.as_ref() != want {
        return Err(format!(
            "get({}) gave {:?}, the model has {:?}",
            show(key),
            short(&got),
            short(&want.cloned())
        ));
    }
    Ok(())
}
pub fn short(e: &Option<Entry>) -> String {
    match e {
        None => "nothing".into(),
        Some((s, None)) => format!("seq {s}, no value"),
        Some((s, Some(v))) => format!("seq {s}, value {}", show(v)),
    }
}

/// A bound of a range.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum B {
    NegInf,
    PosInf,
    Key(#[serde(with = "crate::hex::one")] Vec<u8>),
}
impl B {
    pub fn limit(&self) -> LimitValue {
        match self {
            B::NegInf => TraverseConfig::default().min_value,
            B::PosInf => TraverseConfig::default().max_value,
            B::Key(k) => LimitValue::Finite(k.clone()),
        }
    }
    /// ordering of this bound against a key
    pub fn cmp(&self, k: &[u8]) -> std::cmp::Ordering {
        match self {
            B::NegInf => std::cmp::Ordering::Less,
            B::PosInf => std::cmp::Ordering::Greater,
            B::Key(b) => b.as_slice().cmp(k),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Range {
    pub min: B,
    pub min_incl: bool,
    pub max: B,
    pub max_incl: bool,
    pub rev: bool,
}
impl Range {
    pub fn all(rev: bool) -> Self {
        Range { min: B::NegInf, min_incl: true, max: B::PosInf, max_incl: true, rev }
    }
    pub fn conf(&self) -> TraverseConfig {
        TraverseConfig {
            min_value: self.min.limit(),
            min_inclusive: self.min_incl,
            max_value: self.max.limit(),
            max_inclusive: self.max_incl,
            reversed: self.rev,
        }
    }
    pub fn has(&self, k: &[u8]) -> bool {
        use std::cmp::Ordering::*;
        (match self.min.cmp(k) {
            Less => true,
            Equal => self.min_incl,
            Greater => false,
        }) && match self.max.cmp(k) {
            Greater => true,
            Equal => self.max_incl,
            Less => false,
        }
    }
    pub fn want(&self, map: &Map) -> Vec<Item> {
        let mut v: Vec<Item> = map
            .iter()
            .filter(|(k, _)| self.has(k))
            .map(|(k, (s, v))| (k.clone(), *s, v.clone()))
            .collect();
        if self.rev {
            v.reverse()
        }
        v
    }
}

pub fn item(kv: KeyValueData) -> Item {
    (kv.key, kv.seq, kv.value)
}

/// Collect a stream that must not fail. `limit` bounds the number of items.
pub fn collect(
    what: &str,
    fut: impl std::future::Future<
        Output = Result<
            impl futures_util::Stream<Item = Result<KeyValueData, HyperbeeError>>,
            HyperbeeError,
        >,
    >,
    limit: usize,
) -> R<Vec<Item>> {
    ok(what, async {
        let s = fut.await?;
        let mut s = Box::pin(s);
        let mut out = vec![];
        while let Some(x) = s.next().await {
            out.push(item(x?));
            if out.len() > limit {
                break;
            }
        }
        Ok(out)
    })
}

pub fn diff_items(what: &str, got: &[Item], want: &[Item]) -> R<()> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let f = |x: Option<&Item>| match x {
        None => "nothing".to_string(),
        Some((k, s, v)) => format!("{} {}", show(k), short(&Some((*s, v.clone())))),
    };
    Err(format!(
        "{what}: {} items, expected {}; at position {i}: got {}, expected {}",
        got.len(),
        want.len(),
        f(got.get(i)),
        f(want.get(i))
    ))
}

pub fn check_range(hb: &Hyperbee, r: &Range, map: &Map) -> R<usize> {
    let want = r.want(map);
    let got = collect("traverse", hb.traverse(r.conf()), map.len() + 8)?;
    diff_items(&format!("traverse {}", show_range(r)), &got, &want)?;
    Ok(want.len())
}
pub fn show_range(r: &Range) -> String {
    let b = |b: &B| match b {
        B::NegInf => "-inf".to_string(),
        B::PosInf => "+inf".to_string(),
        B::Key(k) => show(k),
    };
    format!(
        "{}{}, {}{}{}",
        if r.min_incl { "[" } else { "(" },
        b(&r.min),
        b(&r.max),
        if r.max_incl { "]" } else { ")" },
        if r.rev { " reversed" } else { "" }
    )
}

/// Everything readable equals `map`: every entry by get, some absent keys, and a full traversal.
pub fn check_all(hb: &Hyperbee, map: &Map, absent: &[Vec<u8>]) -> R<()> {
    for (k, e) in map {
        check_get(hb, k, Some(e))?;
    }
    for k in absent {
        check_get(hb, k, map.get(k))?;
    }
    check_scan(hb, map)
}
/// A full traversal equals `map` (a never-written tree has no root to traverse).
pub fn check_scan(hb: &Hyperbee, map: &Map) -> R<()> {
    if exec::run(hb.version()).map_err(|h| h.0)? <= 1 {
        if !map.is_empty() {
            return Err("version <= 1 but the map is not empty".into());
        }
        return Ok(());
    }
    check_range(hb, &Range::all(false), map).map(|_| ())
}
