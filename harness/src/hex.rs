//! Byte strings as compact text in replay files: hex, runs as `xx*n`.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub fn enc(b: &[u8]) -> String {
    if b.len() > 8 && b.iter().all(|x| *x == b[0]) {
        return format!("{:02x}*{}", b[0], b.len());
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn dec(s: &str) -> Option<Vec<u8>> {
    if let Some((h, n)) = s.split_once('*') {
        return Some(vec![u8::from_str_radix(h, 16).ok()?; n.parse().ok()?]);
    }
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(s.get(i..i + 2)?, 16).ok()).collect()
}
pub mod one {
    use super::*;
    pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
        enc(b).serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        dec(&String::deserialize(d)?).ok_or_else(|| serde::de::Error::custom("hex"))
    }
}
pub mod many {
    use super::*;
    pub fn serialize<S: Serializer>(b: &[Vec<u8>], s: S) -> Result<S::Ok, S::Error> {
        b.iter().map(|x| enc(x)).collect::<Vec<_>>().serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<Vec<u8>>, D::Error> {
        Vec::<String>::deserialize(d)?
            .iter()
            .map(|x| dec(x).ok_or_else(|| serde::de::Error::custom("hex")))
            .collect()
    }
}
