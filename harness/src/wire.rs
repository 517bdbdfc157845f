//! The Hyperbee block format, written independently of the code under test:
//! a hand-written protobuf encoder and decoder for the published schema.

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Level {
    pub keys: Vec<u64>,
    /// (seq, offset) pairs
    pub children: Vec<(u64, u64)>,
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Block {
    pub levels: Vec<Level>,
    pub key: Vec<u8>,
    pub value: Option<Vec<u8>>,
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Header {
    pub protocol: Vec<u8>,
    /// (contentFeed, userData)
    pub metadata: Option<(Option<Vec<u8>>, Option<Vec<u8>>)>,
}

pub fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn bytes_field(out: &mut Vec<u8>, field: u64, data: &[u8]) {
    varint(out, field << 3 | 2);
    varint(out, data.len() as u64);
    out.extend_from_slice(data);
}
fn packed(out: &mut Vec<u8>, field: u64, vals: impl Iterator<Item = u64>) {
    let mut b = vec![];
    vals.for_each(|v| varint(&mut b, v));
    if !b.is_empty() {
        bytes_field(out, field, &b);
    }
}
pub fn encode_level(l: &Level) -> Vec<u8> {
    let mut out = vec![];
    packed(&mut out, 1, l.keys.iter().copied());
    packed(&mut out, 2, l.children.iter().flat_map(|&(s, o)| [s, o]));
    out
}
pub fn encode_index(levels: &[Level]) -> Vec<u8> {
    let mut out = vec![];
    for l in levels {
        bytes_field(&mut out, 1, &encode_level(l));
    }
    out
}
/// Canonical (JavaScript) encoding of a block.
pub fn encode_block(b: &Block) -> Vec<u8> {
    let mut out = vec![];
    bytes_field(&mut out, 1, &encode_index(&b.levels));
    bytes_field(&mut out, 2, &b.key);
    if let Some(v) = &b.value {
        bytes_field(&mut out, 3, v);
    }
    out
}

pub enum Val<'a> {
    Int(u64),
    Bytes(&'a [u8]),
}
fn rd_varint(b: &mut &[u8]) -> Result<u64, String> {
    let mut v = 0u64;
    for i in 0..10 {
        let (&x, rest) = b.split_first().ok_or("truncated varint")?;
        *b = rest;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x < 0x80 {
            return Ok(v);
        }
    }
    Err("varint too long".into())
}
pub fn fields(mut b: &[u8]) -> Result<Vec<(u64, Val<'_>)>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        let tag = rd_varint(&mut b)?;
        let f = tag >> 3;
        match tag & 7 {
            0 => out.push((f, Val::Int(rd_varint(&mut b)?))),
            2 => {
                let n = rd_varint(&mut b)? as usize;
                if n > b.len() {
                    return Err("truncated bytes".into());
                }
                out.push((f, Val::Bytes(&b[..n])));
                b = &b[n..];
            }
            w => return Err(format!("wire type {w}")),
        }
    }
    Ok(out)
}
fn ints(v: Val<'_>, out: &mut Vec<u64>) -> Result<(), String> {
    match v {
        Val::Int(i) => out.push(i),
        Val::Bytes(mut b) => {
            while !b.is_empty() {
                out.push(rd_varint(&mut b)?)
            }
        }
    }
    Ok(())
}
pub fn decode_block(raw: &[u8]) -> Result<Block, String> {
    let (mut index, mut key, mut value) = (None, None, None);
    for (f, v) in fields(raw)? {
        match (f, v) {
            (1, Val::Bytes(b)) => index = Some(b),
            (2, Val::Bytes(b)) => key = Some(b.to_vec()),
            (3, Val::Bytes(b)) => value = Some(b.to_vec()),
            (f, _) => return Err(format!("unexpected field {f} in a block")),
        }
    }
    let mut levels = vec![];
    for (f, v) in fields(index.ok_or("block without index")?)? {
        let (1, Val::Bytes(b)) = (f, v) else { return Err("unexpected field in index".into()) };
        let (mut keys, mut ch) = (vec![], vec![]);
        for (f, v) in fields(b)? {
            match f {
                1 => ints(v, &mut keys)?,
                2 => ints(v, &mut ch)?,
                f => return Err(format!("unexpected field {f} in a level")),
            }
        }
        if ch.len() % 2 != 0 {
            return Err("odd number of child numbers".into());
        }
        levels.push(Level { keys, children: ch.chunks(2).map(|c| (c[0], c[1])).collect() });
    }
    Ok(Block { levels, key: key.ok_or("block without key")?, value })
}
pub fn decode_header(raw: &[u8]) -> Result<Header, String> {
    let mut h = Header::default();
    let mut proto = None;
    for (f, v) in fields(raw)? {
        match (f, v) {
            (1, Val::Bytes(b)) => proto = Some(b.to_vec()),
            (2, Val::Bytes(b)) => {
                let mut m = (None, None);
                for (f, v) in fields(b)? {
                    match (f, v) {
                        (1, Val::Bytes(b)) => m.0 = Some(b.to_vec()),
                        (2, Val::Bytes(b)) => m.1 = Some(b.to_vec()),
                        (f, _) => return Err(format!("unexpected field {f} in metadata")),
                    }
                }
                h.metadata = Some(m);
            }
            (f, _) => return Err(format!("unexpected field {f} in header")),
        }
    }
    h.protocol = proto.ok_or("header without protocol")?;
    Ok(h)
}
pub fn default_header() -> Vec<u8> {
    let mut out = vec![];
    bytes_field(&mut out, 1, b"hyperbee");
    out
}
