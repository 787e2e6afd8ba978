//! Database XML written and read without an archive, through streams the
//! caller holds

use crate::chunkio::{Sink, Source};
use crate::dbjson::{db_json, db_of, unhex};
use crate::decode::document_at;
use crate::runner::guarded;
use cipher::StreamCipher;
use kdbx_rs::binary::InnerStreamCipherAlgorithm;
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::xml::{parse_xml, write_xml};
use serde_json::{json, Value};
use std::collections::HashMap;

/// Counts the bytes that go through
struct Counted {
    inner: Box<dyn StreamCipher>,
    alg: String,
    key: Vec<u8>,
    off: usize,
}

impl StreamCipher for Counted {
    fn try_apply_keystream_inout(&mut self, buf: cipher::inout::InOutBuf<'_, '_, u8>) -> Result<(), cipher::StreamCipherError> {
        let n = buf.len();
        self.inner.try_apply_keystream_inout(buf)?;
        self.off += n;
        Ok(())
    }
}

fn stream(o: &Value) -> Result<Counted, String> {
    let (alg, key) = (o["alg"].as_str().unwrap(), unhex(o["key"].as_str().unwrap()));
    let inner = match alg {
        "chacha20" => InnerStreamCipherAlgorithm::ChaCha20.stream_cipher(&key),
        "salsa20" => InnerStreamCipherAlgorithm::Salsa20.stream_cipher(&key),
        "arcfour" => InnerStreamCipherAlgorithm::ArcFour.stream_cipher(&key),
        "null" => Ok(Box::new(NullStreamCipher) as Box<dyn StreamCipher>),
        n => InnerStreamCipherAlgorithm::Unknown(n.parse().unwrap()).stream_cipher(&key),
    };
    match inner {
        Ok(inner) => Ok(Counted { inner, alg: alg.to_string(), key, off: 0 }),
        Err(e) => Err(e.to_string()),
    }
}

fn blank(d: &[u8]) -> bool {
    d.iter().all(|b| b" \t\r\n".contains(b))
}

/// {"steps": [{"op": stream|write|read, ...}]}, see spec/KdbxExport.tla
pub fn run_case(case: &Value) -> Value {
    let mut streams: HashMap<String, Counted> = HashMap::new();
    let mut docs: HashMap<String, Vec<u8>> = HashMap::new();
    let mut steps = Vec::new();
    for o in case["steps"].as_array().unwrap() {
        let mut r = json!({"o": o, "ret": ["skipped"], "off": 0, "failed": false, "cut": false, "whole": false, "doc": [], "db": []});
        let s = o["s"].as_str().unwrap().to_string();
        match o["op"].as_str().unwrap() {
            "stream" => {
                r["ret"] = match guarded(|| stream(o)) {
                    Ok(Ok(c)) => {
                        streams.insert(s, c);
                        json!(["ok"])
                    }
                    Ok(Err(e)) => json!(["err", e]),
                    Err(p) => json!(["panic", p]),
                }
            }
            "write" => {
                if let Some(c) = streams.get_mut(&s) {
                    let db = db_of(&o["db"]);
                    r["db"] = db_json(&db);
                    let from = c.off;
                    let mut sink = Sink::new(&o["sink"]);
                    r["ret"] = match guarded(|| write_xml(&mut sink, &db, c)) {
                        Ok(Ok(())) => json!(["ok"]),
                        Ok(Err(e)) => json!(["err", e.to_string()]),
                        Err(p) => json!(["panic", p]),
                    };
                    r["failed"] = json!(sink.failed);
                    r["off"] = json!(c.off);
                    if let Ok(d) = document_at(&sink.data, &c.alg, &c.key, from) {
                        r["whole"] = json!(true);
                        if r["ret"][0] == "ok" {
                            r["doc"] = json!([d]);
                        }
                    }
                    r["len"] = json!(sink.data.len());
                    docs.insert(o["d"].as_str().unwrap().to_string(), sink.data);
                    // the record has the database once, as it was
                    r["o"]["db"] = json!([]);
                }
            }
            "read" => {
                if let (Some(c), Some(d)) = (streams.get_mut(&s), docs.get(o["d"].as_str().unwrap())) {
                    let mut src = Source::new(d, &o["src"]);
                    r["ret"] = match guarded(|| parse_xml(&mut src, c)) {
                        Ok(Ok(db)) => json!(["ok", db_json(&db)]),
                        Ok(Err(e)) => json!(["err", e.to_string()]),
                        Err(p) => json!(["panic", p]),
                    };
                    r["failed"] = json!(src.failed);
                    let gone = o["src"]["fail"].as_u64().filter(|_| o["src"]["once"] != true);
                    let end = o["src"]["eof"].as_u64().into_iter().chain(gone).min();
                    r["cut"] = json!(end.map(|n| !blank(&d[(n as usize).min(d.len())..])).unwrap_or(false));
                    r["off"] = json!(c.off);
                }
            }
            op => panic!("export {}", op),
        }
        steps.push(r);
    }
    json!({ "steps": steps })
}
