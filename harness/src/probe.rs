//! Inputs made wrong on purpose (spec/KdbxForge.tla): what open, unlock and
//! parse_xml make of them, and how much memory they take at most.

use crate::alloc;
use crate::arch::{composite, hdr_json, obs_unlocked, open_error, unlock_error};
use crate::dbjson::{db_json, unhex};
use crate::misc::inner_stream;
use crate::runner::guarded;
use crate::term::{Bytes, Env};
use kdbx_rs::errors::FailedUnlock;
use serde_json::{json, Value};
use std::io::Read;

/// Change `d`; false if the edit does not apply to data of this length
pub fn edit(d: &mut Bytes, e: &Value) -> bool {
    let num = |k: &str| e[k].as_u64().unwrap_or(0) as usize;
    let hex = || unhex(e["hex"].as_str().unwrap());
    let mut at = num("at");
    if e["end"] == true {
        // counted from the end
        if at > d.len() {
            return false;
        }
        at = d.len() - at;
    } else if e["wrap"] == true {
        at %= d.len() + 1;
    }
    match e["t"].as_str().unwrap() {
        "flip" if at < d.len() => d[at] ^= 1 << num("bit"),
        "set" if at < d.len() => {
            let v = hex();
            let n = v.len().min(d.len() - at);
            d[at..at + n].copy_from_slice(&v[..n]);
        }
        "trunc" if at < d.len() => d.truncate(at),
        "insert" if at <= d.len() => {
            d.splice(at..at, hex());
        }
        "delete" if at < d.len() => {
            let to = (at + num("n")).min(d.len());
            d.drain(at..to);
        }
        "copy" if at < d.len() => {
            let to = (at + num("n")).min(d.len());
            let v = d[at..to].to_vec();
            let p = num("to") % (d.len() + 1);
            d.splice(p..p, v);
        }
        "all" => *d = hex().repeat(num("n")),
        "append" => d.extend(hex().repeat(num("n").max(1))),
        // whole cipher blocks
        "align" => d.truncate(d.len() / 16 * 16),
        _ => return false,
    }
    true
}

/// How many bytes compressed data unfolds to, as far as it can be read
pub fn unfolded(d: &[u8]) -> usize {
    let mut n = 0;
    let mut buf = [0u8; 4096];
    let _ = guarded(|| {
        let mut g = match libflate::gzip::Decoder::new(d) {
            Ok(g) => g,
            Err(_) => return,
        };
        while let Ok(k) = g.read(&mut buf) {
            n += k;
            if k == 0 {
                return;
            }
        }
    });
    n
}

fn kib(n: u64) -> u64 {
    n.div_ceil(1024)
}

/// KiB of memory and rounds the key derivation asks for
fn cost(h: &Value) -> (u64, u64) {
    let p = |name: &str| -> u64 {
        h["kdf"]["p"]
            .as_array()
            .and_then(|a| a.iter().find(|x| x[0] == name))
            .map(|x| unhex(x[2].as_str().unwrap()).iter().take(8).rev().fold(0, |a, b| a << 8 | *b as u64))
            .unwrap_or(0)
    };
    let (mem, iter, lanes, rounds) = (p("x4d") / 1024, p("x49"), p("x50"), p("x52"));
    // no key derivation takes numbers this large
    if mem >> 32 > 0 || iter >> 32 > 0 {
        return (0, 0);
    }
    (mem, iter.saturating_mul(mem.max(1)).max(rounds).max(lanes.saturating_mul(8)))
}

const MOST: u64 = 1 << 16;

fn measured<T>(f: impl FnOnce() -> T) -> (Result<T, String>, u64) {
    let base = alloc::reset();
    let r = guarded(f);
    (r, kib(alloc::peak_since(base)))
}

fn one(term: &Value, t: &Value) -> Value {
    let mut env = Env::default();
    for (k, v) in t["e"].as_object().unwrap() {
        env.edits.insert(k.clone(), v.as_array().unwrap().clone());
    }
    let file = env.eval(term);
    if !env.applied {
        return json!(["nop"]);
    }
    let size = |k: &str| kib(env.sizes.get(k).copied().unwrap_or(0) as u64);
    let mut r = json!({"size": kib(file.len() as u64), "plain": size("payload").max(size("unfolded")),
                       "open": ["none", 0], "unlock": ["none", 0], "use": "none", "mem": 0});
    if t["dump"] == true {
        r["hex"] = json!(crate::dbjson::hex(&file));
    }
    let (o, peak) = measured(|| kdbx_rs::from_reader(&file[..]));
    let k = match o {
        Err(p) => {
            r["open"] = json!(["panic", peak, p]);
            return r;
        }
        Ok(Err(e)) => {
            r["open"] = json!(["err", peak, open_error(&e)]);
            return r;
        }
        Ok(Ok(k)) => k,
    };
    r["open"] = json!(["ok", peak, ""]);
    let (mem, work) = match guarded(|| cost(&hdr_json(k.header()))) {
        Ok(x) => x,
        Err(p) => {
            r["use"] = json!(p);
            return r;
        }
    };
    r["mem"] = json!(mem.min(1 << 30));
    if mem > MOST || work > 4 * MOST {
        r["unlock"] = json!(["costly", 0, ""]);
        return r;
    }
    let key = composite(t);
    let (u, peak) = measured(|| k.unlock(&key));
    match u {
        Err(p) => r["unlock"] = json!(["panic", peak, p]),
        Ok(Err(FailedUnlock(k, e))) => {
            r["unlock"] = json!(["err", peak, unlock_error(&e)]);
            r["use"] = used(|| {
                hdr_json(k.header());
                let mut out = Vec::new();
                let _ = k.write(&mut out);
            });
        }
        Ok(Ok(k)) => {
            r["unlock"] = json!(["ok", peak, ""]);
            r["use"] = used(|| {
                obs_unlocked(&k);
                let mut out = Vec::new();
                let _ = k.write(&mut out);
            });
        }
    }
    r
}

fn used(f: impl FnOnce()) -> Value {
    match guarded(f) {
        Ok(()) => json!("ok"),
        Err(p) => json!(p),
    }
}

fn one_xml(term: &Value, t: &Value) -> Value {
    let mut env = Env::default();
    if let Some(e) = t["e"].as_object() {
        for (k, v) in e {
            env.edits.insert(k.clone(), v.as_array().unwrap().clone());
        }
    }
    let data = env.eval(term);
    if !env.applied {
        return json!(["nop"]);
    }
    let (alg, key) = (t["alg"].as_str().unwrap(), unhex(t["key"].as_str().unwrap()));
    let mut stream = inner_stream(alg, &key);
    let (p, peak) = measured(|| kdbx_rs::xml::parse_xml(&data[..], stream.as_mut()));
    let mut r = json!({"size": kib(data.len() as u64), "use": "none"});
    if t["dump"] == true {
        r["hex"] = json!(crate::dbjson::hex(&data));
    }
    match p {
        Err(m) => r["parse"] = json!(["panic", peak, m]),
        Ok(Err(e)) => r["parse"] = json!(["err", peak, e.to_string().chars().take(80).collect::<String>()]),
        Ok(Ok(db)) => {
            r["parse"] = json!(["ok", peak, ""]);
            r["use"] = used(|| {
                db_json(&db);
                let mut out = Vec::new();
                let _ = kdbx_rs::xml::write_xml(&mut out, &db, &mut kdbx_rs::utils::NullStreamCipher);
            });
        }
    }
    r
}

/// {"term": t, "tries": [{"e": {layer: [edit]}, "pw", "kf"}]} or with {"xml": term, "tries": [{"e"?, "alg", "key"}]}
/// -> {"got": [what happened]}
pub fn run_case(case: &Value) -> Value {
    let tries = case["tries"].as_array().unwrap();
    let got: Vec<Value> = if case["xml"].is_array() {
        tries.iter().map(|t| one_xml(&case["xml"], t)).collect()
    } else {
        tries.iter().map(|t| one(&case["term"], t)).collect()
    };
    json!({ "got": got })
}
