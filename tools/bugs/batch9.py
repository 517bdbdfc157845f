# Changes that show in Python or C on logs that are far along, or on storage that fails.
GAP = r'''
import asyncio, os, struct, tempfile
from hyperbee import *
def frames(raw):
    out = []
    while raw:
        m = 4 + struct.unpack_from("<I", raw)[0]
        out.append(raw[:m])
        raw = raw[m:]
    return out
async def far_along(n):
    """A directory whose log has n more blocks, each of them an empty tree."""
    src, dst = tempfile.mkdtemp(), tempfile.mkdtemp()
    hb = await hyperbee_from_storage_dir(src)
    await hb.put(b"k", None)
    await hb.delete(b"k")
    f = frames(open(os.path.join(src, "data"), "rb").read())
    open(os.path.join(dst, "data"), "wb").write(f[0])
    open(os.path.join(dst, "gap"), "wb").write(struct.pack("<Q", n) + f[2][4:])
    return dst
'''
bug("py-old-seq-of-32-bits", "C15",
 [("src/ffi.rs", "        Self { old_seq, new_seq }", "        Self {\n            old_seq: old_seq.map(|old| old as u32).map(u64::from),\n            new_seq,\n        }")],
 "a put from Python that replaces an entry whose index needs more than 32 bits", "the index of what was replaced comes back cut off",
 GAP + r'''
async def main():
    hb = await hyperbee_from_storage_dir(await far_along(2**32 + 5))
    assert await hb.version() == 2**32 + 6
    r = await hb.put(b"a", b"1")
    assert (r.old_seq, r.new_seq) == (None, 2**32 + 6)
    r = await hb.put(b"a", b"2")
    assert (r.old_seq, r.new_seq) == (2**32 + 6, 2**32 + 7), r.old_seq
asyncio.run(main())
''', py=True)
bug("py-seq-through-double", "C15",
 [("src/ffi.rs", "        Self { seq, value }", "        let seq = seq as f64;\n        Self {\n            seq: seq as u64,\n            value,\n        }")],
 "reading, from Python, an entry with an odd index above 2^53", "its index is one off",
 GAP + r'''
async def main():
    hb = await hyperbee_from_storage_dir(await far_along(2**53))
    await hb.put(b"a", b"1")
    await hb.put(b"b", b"2")
    assert (await hb.get(b"a")).seq == 2**53 + 1
    assert (await hb.get(b"b")).seq == 2**53 + 2
asyncio.run(main())
''', py=True)
bug("py-missing-block-is-no-key", "C15",
 [("src/ffi.rs", """    async fn get(&self, key: &[u8]) -> Result<Option<Gotten>, HyperbeeError> {
        Ok(self
            .rust_hyperbee
            .read()
            .await
            .get(key)
            .await?
            .map(|(seq, value)| Gotten::new(seq, value)))
    }
""", """    async fn get(&self, key: &[u8]) -> Result<Option<Gotten>, HyperbeeError> {
        let found = match self.rust_hyperbee.read().await.get(key).await {
            // the tree does not reach further than what is there
            Err(HyperbeeError::NoBlockAtSeqError(_)) => None,
            other => other?,
        };
        Ok(found.map(|(seq, value)| Gotten::new(seq, value)))
    }
""")],
 "a lookup from Python that comes to a block which the storage does not hold", "the key seems not to be there",
 r'''
import asyncio, os, tempfile
from hyperbee import *
async def main():
    d = tempfile.mkdtemp()
    hb = await hyperbee_from_storage_dir(d)
    for i in range(20):
        await hb.put(b"%02d" % i, b"v")
    open(os.path.join(d, "faults"), "w").write("get 1 missing\n")
    hb = await hyperbee_from_storage_dir(d)
    try:
        got = await hb.get(b"03")
    except HyperbeeError:
        return
    assert got is not None, "a key that is there was not found"
asyncio.run(main())
''', py=True)
bug("py-failed-delete-is-none", "C15",
 [("src/ffi.rs", "        self.rust_hyperbee.read().await.del(key).await\n", "        match self.rust_hyperbee.read().await.del(key).await {\n            Ok(seq) => Ok(seq),\n            // nothing could be deleted\n            Err(HyperbeeError::CoreMethodsError(_)) => Ok(None),\n            Err(e) => Err(e),\n        }\n")],
 "a deletion from Python whose append fails", "it does not raise, but answers that there was nothing to delete",
 r'''
import asyncio, os, tempfile
from hyperbee import *
async def main():
    d = tempfile.mkdtemp()
    hb = await hyperbee_from_storage_dir(d)
    for i in range(20):
        await hb.put(b"%02d" % i, b"v")
    open(os.path.join(d, "faults"), "w").write("append 0 io\n")
    hb = await hyperbee_from_storage_dir(d)
    try:
        got = await hb.delete(b"03")
    except HyperbeeError:
        assert await hb.delete(b"03") == 4
        return
    assert False, f"returned {got}"
asyncio.run(main())
''', py=True)
C = r'''
use std::ffi::{c_char, c_void, CString};
type Cb = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);
extern "C" {
    fn init_runtime() -> *mut c_void;
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut c_void;
    fn hb_get(rt: *mut c_void, hb: *mut c_void, key: *const u8, len: usize, cb: Cb) -> i32;
}
static SEEN: std::sync::Mutex<Vec<(i64, u64, Option<Vec<u8>>)>> = std::sync::Mutex::new(Vec::new());
unsafe extern "C" fn cb(code: i64, _: *const c_char, seq: u64, value: *mut u8, len: usize) {
    let v = (!value.is_null() && len > 0).then(|| std::slice::from_raw_parts(value, len).to_vec());
    SEEN.lock().unwrap().push((code, seq, v));
}
fn look(dir: &std::path::Path, key: &[u8]) -> (i64, u64, Option<Vec<u8>>) {
    unsafe {
        let rt = init_runtime();
        let d = CString::new(dir.to_str().unwrap()).unwrap();
        let hb = hyperbee_from_storage_directory(rt, d.as_ptr());
        assert!(!hb.is_null());
        hb_get(rt, hb, key.as_ptr(), key.len(), cb);
    }
    let t = std::time::Instant::now();
    loop {
        if let Some(x) = SEEN.lock().unwrap().pop() {
            return x;
        }
        assert!(t.elapsed().as_secs() < 20, "no answer");
        std::thread::yield_now();
    }
}
'''
bug("c-seq-of-32-bits", "C14",
 [("src/external.rs", "                    callback(0, no_error_msg, seq, vec, size);", "                    callback(0, no_error_msg, (seq as libc::c_uint).into(), vec, size);")],
 "a lookup through the C interface of an entry whose index needs more than 32 bits", "the index is cut off",
 C + r'''
fn main() {
    let dir = tempfile::tempdir().unwrap();
    let n: u64 = (1 << 32) + 5;
    block_on(async {
        let log = SimLog::new();
        let hb = open(&log).await;
        hb.put(b"k", None).await.unwrap();
        hb.del(b"k").await.unwrap();
        let mut gap = n.to_le_bytes().to_vec();
        gap.extend(log.block(2).unwrap());
        std::fs::write(dir.path().join("gap"), gap).unwrap();
        let header = log.block(0).unwrap();
        let mut data = (header.len() as u32).to_le_bytes().to_vec();
        data.extend(header);
        std::fs::write(dir.path().join("data"), data).unwrap();
        let hb = Hyperbee::from_storage_dir(dir.path()).await.unwrap();
        assert_eq!(hb.put(b"a", Some(b"1")).await.unwrap(), (None, n + 1));
    });
    assert_eq!(look(dir.path(), b"a"), (0, n + 1, Some(b"1".to_vec())));
}
''')
bug("c-missing-block-is-no-key", "C14",
 [("src/external.rs", "            Err(e) => {\n", "            // the tree does not reach further than what is there\n            Err(crate::HyperbeeError::NoBlockAtSeqError(_)) => {\n                let (vec, size) = c_vec_from_vec(vec![]);\n                unsafe {\n                    callback(0, CString::default().into_raw(), 0, vec, size);\n                }\n            }\n            Err(e) => {\n")],
 "a lookup through the C interface that comes to a block which the storage does not hold", "the key is reported as not there, without an error",
 C + r'''
fn main() {
    let dir = tempfile::tempdir().unwrap();
    block_on(async {
        let hb = Hyperbee::from_storage_dir(dir.path()).await.unwrap();
        for i in 0..20 {
            hb.put(&k(i), Some(b"v")).await.unwrap();
        }
    });
    assert_eq!(look(dir.path(), &k(3)), (0, 4, Some(b"v".to_vec())));
    std::fs::write(dir.path().join("faults"), "get 1 missing\n").unwrap();
    let got = look(dir.path(), &k(3));
    assert!(got.0 != 0 || got.1 == 4, "a key that is there was not found");
}
''')
