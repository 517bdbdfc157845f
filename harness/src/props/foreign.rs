//! C22: logs by other writers of the same format.
use crate::{
    bee::{self, *},
    exec::R,
    gen::{self, Hist, KSel, Prim, RSel, V},
    model::{check_blocks, BatchOp, JsBee},
    runner::{part, Ctx, Property, Tier},
    wire::{self, Block},
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use hypercore::sim::SimLog;

/// How one writer encodes: a stream of small choices, consumed as the bytes are made.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Style {
    choices: Vec<u8>,
    unknown: bool,
    reorder: bool,
    split: bool,
    long_varints: bool,
    twice: bool,
    /// nodes that nothing refers to, behind the others
    #[serde(default)]
    spare: bool,
    /// so many more of those in one of the blocks
    #[serde(default)]
    crowd: u16,
}
fn style() -> BoxedStrategy<Style> {
    (vec(any::<u8>(), 1..64), any::<bool>(), any::<bool>(), any::<bool>(), prop::bool::weighted(0.3), prop::bool::weighted(0.2), prop::bool::weighted(0.3), prop_oneof![30 => Just(0u16), 1 => 1u16..300, 1 => 300u16..2000])
        .prop_map(|(choices, unknown, reorder, split, long_varints, twice, spare, crowd)| Style { choices, unknown, reorder, split, long_varints, twice, spare, crowd })
        .boxed()
}
struct Enc<'a> {
    s: &'a Style,
    i: usize,
}
impl Enc<'_> {
    fn pick(&mut self, n: usize) -> usize {
        let c = self.s.choices[self.i % self.s.choices.len()] as usize + self.i / self.s.choices.len();
        self.i += 1;
        c % n
    }
    fn varint(&mut self, out: &mut Vec<u8>, v: u64) {
        wire::varint(out, v);
        if self.s.long_varints && v < 1 << 40 && self.pick(3) == 0 {
            // the same number in more bytes
            for _ in 0..=self.pick(2) {
                *out.last_mut().unwrap() |= 0x80;
                out.push(0);
            }
        }
    }
    fn bytes(&mut self, field: u64, data: &[u8]) -> Vec<u8> {
        let mut out = vec![];
        wire::varint(&mut out, field << 3 | 2);
        self.varint(&mut out, data.len() as u64);
        out.extend_from_slice(data);
        out
    }
    /// A field no version of the schema has.
    fn unknown(&mut self) -> Vec<u8> {
        let f = [4u64, 5, 9, 15, 16, 100, 2047, 536_870_911][self.pick(8)];
        let mut out = vec![];
        match self.pick(4) {
            0 => {
                wire::varint(&mut out, f << 3);
                let v = [0u64, 1, 300, u64::MAX][self.pick(4)];
                wire::varint(&mut out, v);
            }
            1 => {
                wire::varint(&mut out, f << 3 | 1);
                out.extend([0xaa; 8]);
            }
            2 => {
                wire::varint(&mut out, f << 3 | 5);
                out.extend([0x0a; 4]);
            }
            _ => {
                let n = self.pick(9);
                out = self.bytes(f, &vec![0x12; n]);
            }
        }
        out
    }
    /// Put the parts of a message together. Parts of one group keep their order.
    fn message(&mut self, mut groups: Vec<Vec<Vec<u8>>>) -> Vec<u8> {
        if self.s.unknown {
            for _ in 0..self.pick(3) {
                let u = self.unknown();
                groups.push(vec![u]);
            }
        }
        let mut out = vec![];
        groups.iter_mut().for_each(|g| g.reverse());
        while groups.iter().any(|g| !g.is_empty()) {
            groups.retain(|g| !g.is_empty());
            let i = if self.s.reorder { self.pick(groups.len()) } else { 0 };
            out.extend(groups[i].pop().unwrap());
        }
        out
    }
    fn numbers(&mut self, field: u64, v: &[u64]) -> Vec<Vec<u8>> {
        let mut out = vec![];
        if !self.s.split {
            if !v.is_empty() {
                let mut b = vec![];
                for x in v {
                    self.varint(&mut b, *x);
                }
                out.push(self.bytes(field, &b));
            }
            return out;
        }
        let mut rest = v;
        while !rest.is_empty() {
            if self.pick(2) == 0 {
                let mut b = vec![];
                wire::varint(&mut b, field << 3);
                self.varint(&mut b, rest[0]);
                out.push(b);
                rest = &rest[1..];
            } else {
                let n = self.pick(rest.len() + 1);
                let mut b = vec![];
                for x in &rest[..n] {
                    self.varint(&mut b, *x);
                }
                out.push(self.bytes(field, &b));
                rest = &rest[n..];
            }
            if out.len() > 4 * v.len() + 4 {
                // only empty pieces: end it
                let mut b = vec![];
                rest.iter().for_each(|x| wire::varint(&mut b, *x));
                out.push(self.bytes(field, &b));
                break;
            }
        }
        out
    }
    fn once(&mut self, field: u64, data: &[u8]) -> Vec<Vec<u8>> {
        let real = self.bytes(field, data);
        if self.s.twice && self.pick(3) == 0 {
            // of a repeated singular field the last one counts
            let other = self.bytes(field, if field == 1 { b"" } else { b"other" });
            vec![other, real]
        } else {
            vec![real]
        }
    }
    fn block(&mut self, b: &Block) -> Vec<u8> {
        let mut levels = vec![];
        let mut spare: Vec<wire::Level> = vec![];
        if self.s.spare {
            for _ in 0..self.pick(3) {
                let n = b.levels.len() + 1;
                spare.push(match b.levels.get(self.pick(n)) {
                    None => wire::Level { keys: vec![], children: vec![] },
                    Some(l) => {
                        let k = self.pick(l.keys.len() + 1);
                        match self.pick(2) {
                            0 => l.clone(),
                            _ => wire::Level { keys: l.keys[..k].to_vec(), children: vec![] },
                        }
                    }
                });
            }
        }
        if self.s.crowd > 0 && self.pick(4) == 0 {
            if let Some(l) = b.levels.first() {
                spare.resize(spare.len() + self.s.crowd as usize, l.clone());
            }
        }
        for l in b.levels.iter().chain(&spare) {
            let keys = self.numbers(1, &l.keys);
            let ch: Vec<u64> = l.children.iter().flat_map(|&(s, o)| [s, o]).collect();
            let ch = self.numbers(2, &ch);
            let m = self.message(vec![keys, ch]);
            levels.push(self.bytes(1, &m));
        }
        let index = self.message(vec![levels]);
        let mut parts = vec![self.once(1, &index), self.once(2, &b.key)];
        if let Some(v) = &b.value {
            let v = self.once(3, v);
            parts.push(v);
        }
        self.message(parts)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hdr {
    Plain,
    Meta(Option<String>, Option<Vec<u8>>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Foreign {
    hist: Hist,
    /// how many of the next operations go into one batch (1: none), over and over
    batches: Vec<u8>,
    place: Vec<Vec<u8>>,
    styles: Vec<Style>,
    header: Hdr,
    gets: Vec<KSel>,
    ranges: Vec<RSel>,
    writes: Vec<(KSel, Option<V>)>,
    /// use one handle throughout, or a fresh one after every write
    fresh: bool,
}
fn strat(t: Tier) -> BoxedStrategy<Foreign> {
    let h = match t {
        Tier::Quick => prop_oneof![1 => gen::hist(40, 12), 3 => gen::hist(200, 10), 1 => gen::grow_drain(30, 200)],
        Tier::Thorough => prop_oneof![1 => gen::hist(60, 20), 3 => gen::hist(300, 16), 2 => gen::grow_drain(30, 400)],
    };
    (
        h,
        vec(prop_oneof![2 => Just(1u8), 2 => 2u8..8, 2 => 8u8..60], 1..6),
        vec(vec(any::<u8>(), 0..20), 1..4),
        vec(style(), 1..4),
        prop_oneof![2 => Just(Hdr::Plain), 1 => (prop::option::of("[a-z]{0,8}"), prop::option::of(vec(any::<u8>(), 0..8))).prop_map(|(a, b)| Hdr::Meta(a, b))],
        vec(gen::ksel(), 0..12),
        vec(gen::rsel(), 0..5),
        vec((gen::ksel(), prop_oneof![3 => gen::val().prop_map(Some), 4 => Just(None)]), 0..16),
        any::<bool>(),
    )
        .prop_map(|(hist, batches, place, styles, header, gets, ranges, writes, fresh)| Foreign {
            hist,
            batches,
            place,
            styles,
            header,
            gets,
            ranges,
            writes,
            fresh,
        })
        .boxed()
}

fn foreign_log(c: &Foreign, cx: &mut Ctx) -> (JsBee, Vec<Vec<u8>>) {
    struct S {
        m: JsBee,
        pend: Vec<BatchOp>,
        /// what the operations in `pend` will lead to
        want: crate::model::Map,
        stamp: u64,
        n: usize,
        batched: u64,
    }
    let mut s = S { m: JsBee::default(), pend: vec![], want: Default::default(), stamp: 0, n: 0, batched: 0 };
    let mut h = wire::default_header();
    if let Hdr::Meta(a, b) = &c.header {
        let mut meta = vec![];
        if let Some(a) = a {
            wire::bytes_field(&mut meta, 1, a.as_bytes());
        }
        if let Some(b) = b {
            wire::bytes_field(&mut meta, 2, b);
        }
        wire::bytes_field(&mut h, 2, &meta);
    }
    s.m.push_header(h);
    fn flush(s: &mut S, c: &Foreign) {
        let ops = std::mem::take(&mut s.pend);
        if ops.len() == 1 {
            match &ops[0] {
                BatchOp::Put(k, v) => {
                    s.m.put(k, v.as_deref());
                }
                BatchOp::Del(k) => {
                    s.m.del(k);
                }
            }
        } else if !ops.is_empty() {
            s.m.batch(&ops, &c.place[s.n % c.place.len()]);
            s.batched += 1;
        }
        s.n += 1;
    }
    let mut apply = |s: &mut S, p: Prim| -> R<()> {
        match p {
            Prim::Put(k, v) => {
                s.stamp += 1;
                let v = v.bytes(s.stamp);
                s.want.insert(k.clone(), (0, v.clone()));
                s.pend.push(BatchOp::Put(k, v));
            }
            Prim::Del(k) => {
                s.want.remove(&k);
                s.pend.push(BatchOp::Del(k));
            }
            Prim::Get(_) => (),
        }
        if s.pend.len() >= c.batches[s.n % c.batches.len()] as usize {
            flush(s, c);
        }
        Ok(())
    };
    gen::drive(&mut s, &c.hist.keys, &c.hist.ops, |s| &s.want, &mut apply).expect("model");
    flush(&mut s, c);
    cx.add("batches", s.batched);
    let m = s.m;
    let raw = m
        .blocks
        .iter()
        .enumerate()
        .map(|(i, b)| match b {
            None => {
                let st = &c.styles[0];
                let mut h = m.raw[0].clone();
                if st.unknown {
                    h.extend(Enc { s: st, i: 7 }.unknown());
                }
                h
            }
            Some(b) => {
                let st = &c.styles[i % c.styles.len()];
                Enc { s: st, i: i * 3 }.block(b)
            }
        })
        .collect();
    (m, raw)
}

fn c22(c: &Foreign, cx: &mut Ctx) -> R<()> {
    let (mut m, raw) = foreign_log(c, cx);
    check_blocks(&m.blocks).map_err(|e| format!("harness: the model's log is not valid: {e}")).expect("model");
    let differs = raw.iter().zip(&m.raw).filter(|(a, b)| a != b).count();
    let log = SimLog::from_blocks(&raw);
    let mut hb = bee::open(&log)?;
    let v = crate::exec::run(hb.version()).map_err(|h| h.0)?;
    if v != raw.len() as u64 {
        return Err(format!("version() is {v}, the log has {} blocks", raw.len()));
    }
    for k in &c.gets {
        let k = k.pick(&c.hist.keys, &m.map);
        check_get(&hb, &k, m.map.get(&k))?;
    }
    for k in m.map.keys().step_by(1 + m.map.len() / 40) {
        check_get(&hb, k, m.map.get(k))?;
    }
    if m.has_root() {
        for r in &c.ranges {
            let r = r.pick(&c.hist.keys, &m.map);
            check_range(&hb, &r, &m.map)?;
        }
    }
    check_scan(&hb, &m.map)?;
    let h = ok("height", hb.height())?;
    if h != m.height() {
        return Err(format!("height() is {h}, the tree has {} levels", m.height()));
    }
    // write on
    let mut blocks = m.blocks.clone();
    let mut wrote = 0;
    for (i, (k, v)) in c.writes.iter().enumerate() {
        let k = k.pick(&c.hist.keys, &m.map);
        match v {
            Some(v) => {
                let v = v.bytes(10_000 + i as u64);
                let want = m.put(&k, v.as_deref());
                let got = ok("put", hb.put(&k, v.as_deref()))?;
                if got != want {
                    return Err(format!("put({}) gave {got:?}, expected {want:?}", show(&k)));
                }
            }
            None => {
                let want = m.del(&k);
                let got = ok("del", hb.del(&k))?;
                if got != want {
                    return Err(format!("del({}) gave {got:?}, expected {want:?}", show(&k)));
                }
                if want.is_none() {
                    continue;
                }
            }
        }
        wrote += 1;
        if log.len() != m.len() {
            return Err(format!("after a write the log has {} blocks, expected {}", log.len(), m.len()));
        }
        let new = log.block(m.len() - 1).unwrap_or_default();
        blocks.push(Some(wire::decode_block(&new).map_err(|e| format!("the written block: {e}"))?));
        let sh = check_blocks(&blocks).map_err(|e| format!("after a write: {e}"))?;
        let want: Vec<_> = m.map.iter().map(|(k, (s, _))| (k, *s)).collect();
        let got: Vec<_> = sh.keys.iter().map(|(k, s, _)| (k, *s)).collect();
        if got != want {
            return Err("after a write the log encodes another map".into());
        }
        if c.fresh {
            hb = bee::open(&log)?;
        }
    }
    check_scan(&hb, &m.map)?;
    check_scan(&bee::open(&log)?, &m.map)?;
    // nothing that was there has been touched
    if log.blocks()[..raw.len()] != raw[..] {
        return Err("an existing block was changed".into());
    }
    let st = &c.styles;
    cx.class("unknown fields", st.iter().any(|s| s.unknown));
    cx.class("other order", st.iter().any(|s| s.reorder));
    cx.class("split numbers", st.iter().any(|s| s.split));
    cx.class("long varints", st.iter().any(|s| s.long_varints));
    cx.class("repeated singular fields", st.iter().any(|s| s.twice));
    cx.class("written to", wrote > 0);
    cx.hit(&format!("height {h}"));
    cx.nontrivial = h >= 2 && differs > 0;
    cx.note = Some(format!("{} blocks, {differs} not as JavaScript encodes them, {wrote} writes", raw.len()));
    Ok(())
}

pub fn c22_prop() -> Property {
    Property {
        id: "C22",
        level: "exploration",
        rule: "generated histories, single operations and batches (whose nodes are spread over the batch's blocks in generated places), encoded by generated styles: unknown fields of every wire type, fields in any order, numbers unpacked, packed or in several pieces, longer varints, repeated singular fields, nodes nothing refers to, headers with metadata. Gets, ranges, height and version are compared with the map; then puts and deletes through the library must give the map and log indexes of the model and a valid tree. Part tall: the same on complete trees of up to 26 levels whose blocks are computed when read. Non-trivial: at least two levels and a block encoded differently from JavaScript's; in a tall tree, more than six levels and at least one such step.",
        assumptions: &["hypercore is the offline stand-in in /verif/stubs", "a node never refers to a child in a later block, as in JavaScript's batches"],
        parts: vec![part("foreign", 60_000, 400_000, strat, c22), part("tall", 3000, 60000, super::tall::strat, super::tall::c22)],
    }
}
