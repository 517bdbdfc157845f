//! Links hyperbee with its Python scaffolding (libhyperbee.so appears among this
//! crate's dependencies), generates the bindings from that library, and as `peer`
//! works on storage directories through the Rust interface, for the Python check.
use hyperbee::{traverse::TraverseConfig, Hyperbee};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use tokio_stream::StreamExt;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

async fn serve(req: &Value) -> Result<Value, Box<dyn std::error::Error>> {
    let hb = Hyperbee::from_storage_dir(req["dir"].as_str().unwrap_or("")).await?;
    let mut results = vec![];
    for op in req["ops"].as_array().into_iter().flatten() {
        let key = unhex(op[1].as_str().unwrap_or(""));
        results.push(match op[0].as_str() {
            Some("put") => {
                let v = op[2].as_str().map(unhex);
                let (old, new) = hb.put(&key, v.as_deref()).await?;
                json!([old, new])
            }
            Some("del") => json!(hb.del(&key).await?),
            Some("get") => json!(hb.get(&key).await?.map(|(s, v)| (s, v.map(|v| hex(&v))))),
            _ => return Err("unknown operation".into()),
        });
    }
    let version = hb.version().await;
    let mut entries = vec![];
    if version > 1 {
        let s = hb.traverse(TraverseConfig::default()).await?;
        tokio::pin!(s);
        while let Some(e) = s.next().await {
            let e = e?;
            entries.push(json!([hex(&e.key), e.seq, e.value.map(|v| hex(&v))]));
        }
    }
    Ok(json!({"results": results, "version": version, "entries": entries}))
}

fn main() {
    if std::env::args().nth(1).as_deref() != Some("peer") {
        return uniffi::uniffi_bindgen_main();
    }
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
    for line in std::io::stdin().lock().lines() {
        let req: Value = serde_json::from_str(&line.expect("input")).expect("json");
        let out = rt.block_on(serve(&req)).unwrap_or_else(|e| json!({"error": e.to_string()}));
        println!("{out}");
        std::io::stdout().flush().expect("output");
    }
}
