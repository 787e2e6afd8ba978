//! Archives (spec/KdbxArchive.tla): scripts of creating, opening, unlocking,
//! changing, saving and damaging archives, executed through the public API.

use crate::chunkio::{Sink, Source};
use crate::dbjson::*;
use crate::decode::{self, digest_token};
use crate::dbops;
use crate::runner::guarded;
use crate::term::{blob, Env};
use hmac::{Hmac, Mac};
use kdbx_rs::binary::{
    Cipher, CompressionType, FailedUnlock, InnerStreamCipherAlgorithm, KdbxHeader, KdbxInnerHeader, KdfParams,
    Locked, Unlocked, VariantDict, VariantDictValue as V,
};
use kdbx_rs::errors::{HeaderError, WriteError, OpenError, UnlockError};
use kdbx_rs::{CompositeKey, Kdbx};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::HashMap;
use std::io::BufWriter;
use uuid::Uuid;

#[derive(Default)]
enum Slot {
    #[default]
    Empty,
    Locked(Kdbx<Locked>),
    Unlocked(Kdbx<Unlocked>),
}

#[derive(Default)]
struct World {
    archives: HashMap<String, Slot>,
    files: HashMap<String, Vec<u8>>,
    blobs: Vec<Value>,
    tag: String,
}

pub fn composite(o: &Value) -> CompositeKey {
    let pw = (o["pw"] != "none").then(|| untext(&o["pw"]));
    let kf = (o["kf"] != "none").then(|| blob(&o["kf"]));
    match kf {
        None if o["from_password"] == true => CompositeKey::from_password(&pw.unwrap()),
        kf => CompositeKey::new(pw, kf),
    }
}

fn le<const N: usize>(v: &Value) -> [u8; N] {
    unhex(v.as_str().unwrap()).try_into().expect("size")
}

fn uuid(s: &str) -> Uuid {
    Uuid::from_slice(&unhex(s)).unwrap()
}

const AES: &str = "7c02bb8279a74ac0927d114a00648238";
const ARGON2D: &str = "ef636ddf8c29444b91f7a9a403e30a0c";
const ARGON2ID: &str = "9e298b1956db4773b23dfc3ec6f0a1e6";

fn vvalue(v: &V) -> (u8, Vec<u8>) {
    match v {
        V::Uint32(x) => (4, x.to_le_bytes().to_vec()),
        V::Uint64(x) => (5, x.to_le_bytes().to_vec()),
        V::Boolean(x) => (8, vec![*x as u8]),
        V::Int32(x) => (0x0c, x.to_le_bytes().to_vec()),
        V::Int64(x) => (0x0d, x.to_le_bytes().to_vec()),
        V::String(x) => (0x18, x.as_bytes().to_vec()),
        V::Array(x) => (0x42, x.clone()),
        V::Unknown(t, x) => (*t, x.clone()),
    }
}

fn to_vvalue(t: u8, d: Vec<u8>) -> V {
    match t {
        4 => V::Uint32(u32::from_le_bytes(d.try_into().unwrap())),
        5 => V::Uint64(u64::from_le_bytes(d.try_into().unwrap())),
        8 => V::Boolean(d[0] == 1),
        0x0c => V::Int32(i32::from_le_bytes(d.try_into().unwrap())),
        0x0d => V::Int64(i64::from_le_bytes(d.try_into().unwrap())),
        0x18 => V::String(String::from_utf8(d).unwrap()),
        0x42 => V::Array(d),
        t => V::Unknown(t, d),
    }
}

/// Key derivation settings as {"uuid", "p": [[name, tag, hex]] sorted by name}
pub fn kdf_json(k: &KdfParams) -> Value {
    let (id, mut p): (String, Vec<(String, u8, Vec<u8>)>) = match k {
        KdfParams::Aes { rounds, salt } => (
            AES.into(),
            vec![("R".into(), 5, rounds.to_le_bytes().to_vec()), ("S".into(), 0x42, salt.clone())],
        ),
        KdfParams::Argon2 { variant, memory_bytes, version, salt, lanes, iterations } => (
            match variant {
                argon2::Variant::Argon2d => ARGON2D.into(),
                argon2::Variant::Argon2id => ARGON2ID.into(),
                _ => "argon2i".into(),
            },
            vec![
                ("I".into(), 5, iterations.to_le_bytes().to_vec()),
                ("M".into(), 5, memory_bytes.to_le_bytes().to_vec()),
                ("P".into(), 4, lanes.to_le_bytes().to_vec()),
                ("S".into(), 0x42, salt.clone()),
                ("V".into(), 4, version.to_le_bytes().to_vec()),
            ],
        ),
        KdfParams::Unknown { uuid, params } => (
            hex(uuid.as_bytes()),
            params
                .iter()
                .map(|(k, v)| {
                    let (t, d) = vvalue(v);
                    (k.clone(), t, d)
                })
                .collect(),
        ),
    };
    p.sort();
    json!({"uuid": id, "p": p.iter().map(|(k, t, d)| json!([text(k), t, hex(d)])).collect::<Vec<_>>()})
}

pub fn kdf_of(v: &Value) -> KdfParams {
    let id = v["uuid"].as_str().unwrap();
    let get = |k: &str| {
        v["p"].as_array().unwrap().iter().find(|e| e[0] == text(k).as_str()).map(|e| &e[2]).expect("kdf parameter")
    };
    match id {
        AES => KdfParams::Aes { rounds: u64::from_le_bytes(le(get("R"))), salt: unhex(get("S").as_str().unwrap()) },
        ARGON2D | ARGON2ID | "argon2i" => KdfParams::Argon2 {
            variant: match id {
                ARGON2D => argon2::Variant::Argon2d,
                ARGON2ID => argon2::Variant::Argon2id,
                _ => argon2::Variant::Argon2i,
            },
            memory_bytes: u64::from_le_bytes(le(get("M"))),
            version: u32::from_le_bytes(le(get("V"))),
            salt: unhex(get("S").as_str().unwrap()),
            lanes: u32::from_le_bytes(le(get("P"))),
            iterations: u64::from_le_bytes(le(get("I"))),
        },
        _ => {
            let mut params = VariantDict::new();
            for e in v["p"].as_array().unwrap() {
                params.insert(untext(&e[0]), to_vvalue(e[1].as_u64().unwrap() as u8, unhex(e[2].as_str().unwrap())));
            }
            KdfParams::Unknown { uuid: uuid(id), params }
        }
    }
}

pub fn hdr_json(h: &KdbxHeader) -> Value {
    let c: Uuid = h.cipher.into();
    let comp: u32 = h.compression_type.into();
    json!({
        "cipher": hex(c.as_bytes()), "comp": hex(&comp.to_le_bytes()), "seed": hex(&h.master_seed),
        "iv": hex(&h.encryption_iv), "kdf": kdf_json(&h.kdf_params), "other": h.other_headers.len(),
        "start": h.stream_start_bytes.as_ref().map(|b| hex(b)).unwrap_or_else(|| "none".into()),
    })
}

pub fn inner_json(h: &KdbxInnerHeader) -> Value {
    let c: u32 = h.inner_stream_cipher.into();
    json!({"alg": hex(&c.to_le_bytes()), "key": hex(&h.inner_stream_key), "other": h.other_headers.len()})
}

fn set_header(h: &mut KdbxHeader, s: &Value) {
    if let Some(c) = s["cipher"].as_str() {
        h.cipher = Cipher::from(uuid(c));
    }
    if s["comp"].is_string() {
        h.compression_type = CompressionType::from(u32::from_le_bytes(le(&s["comp"])));
    }
    if let Some(c) = s["seed"].as_str() {
        h.master_seed = unhex(c);
    }
    if let Some(c) = s["iv"].as_str() {
        h.encryption_iv = unhex(c);
    }
    if s["kdf"].is_object() {
        h.kdf_params = kdf_of(&s["kdf"]);
    }
    match s["other"].as_str() {
        Some("clear") => h.other_headers.clear(),
        Some("reverse") => h.other_headers.reverse(),
        Some("dup") => {
            let d = h.other_headers.clone();
            h.other_headers.extend(d);
        }
        _ => {}
    }
}

fn set_inner(h: &mut KdbxInnerHeader, s: &Value) {
    if s["alg"].is_string() {
        h.inner_stream_cipher = InnerStreamCipherAlgorithm::from(u32::from_le_bytes(le(&s["alg"])));
    }
    if let Some(c) = s["key"].as_str() {
        h.inner_stream_key = unhex(c);
    }
    match s["other"].as_str() {
        Some("clear") => h.other_headers.clear(),
        Some("reverse") => h.other_headers.reverse(),
        Some("dup") => {
            let d = h.other_headers.clone();
            h.other_headers.extend(d);
        }
        _ => {}
    }
}

#[allow(unreachable_patterns)]
fn header_error(e: &HeaderError) -> &'static str {
    match e {
        HeaderError::Io(_) => "header-io",
        HeaderError::MalformedField(..) => "malformed",
        HeaderError::MissingRequiredField(_) => "missing",
        HeaderError::MissingRequiredInnerField(_) => "missing-inner",
        HeaderError::MissingKdfParam(..) => "kdf-param",
        HeaderError::ChecksumFailed => "checksum",
        _ => "header-other",
    }
}

#[allow(unreachable_patterns)]
pub fn open_error(e: &OpenError) -> &'static str {
    match e {
        OpenError::NonKeepassFormat => "not-keepass",
        OpenError::UnsupportedFileFormat => "not-kdbx",
        OpenError::UnsupportedMajorVersion(_) => "version",
        OpenError::InvalidHeader(h) => header_error(h),
        OpenError::Io(_) => "io",
        _ => "other",
    }
}

#[allow(unreachable_patterns)]
pub fn unlock_error(e: &UnlockError) -> &'static str {
    match e {
        UnlockError::HmacInvalid => "hmac",
        UnlockError::StartBytesInvalid => "start-bytes",
        UnlockError::KeyGen(_) => "keygen",
        UnlockError::Decrypt(_) => "decrypt",
        UnlockError::InvalidInnerHeader(_) => "inner-header",
        UnlockError::InnerStream(_) => "inner-stream",
        UnlockError::InvalidXml(_) => "xml",
        _ => "other",
    }
}

#[allow(unreachable_patterns)]
fn write_error(e: &WriteError) -> &'static str {
    match e {
        WriteError::Io(_) => "io",
        WriteError::XmlWrite(_) => "xml",
        WriteError::MissingKeys => "missing-keys",
        WriteError::InnerStream(_) => "inner-stream",
        _ => "other",
    }
}

pub fn obs_unlocked(k: &Kdbx<Unlocked>) -> Value {
    json!({
        "st": "unlocked", "ver": [k.major_version(), k.minor_version()],
        "hdr": hdr_json(k.header()), "inner": inner_json(k.inner_header()), "db": db_json(k.database()),
        "raw": k.raw_xml().map(digest_token).unwrap_or_else(|| "none".into()),
    })
}

pub fn obs_locked(k: &Kdbx<Locked>) -> Value {
    json!({"st": "locked", "ver": [k.major_version(), k.minor_version()], "hdr": hdr_json(k.header())})
}

fn mutate(d: &mut Vec<u8>, e: &Value) {
    let n = |k: &str| e[k].as_u64().unwrap() as usize;
    match e["t"].as_str().unwrap() {
        "flip" => {
            // "wrap": positions of files whose length is not known beforehand
            let i = if e["wrap"] == true { n("at") % d.len() } else { n("at") };
            d[i] ^= 1 << n("bit");
        }
        "set" => {
            let v = unhex(e["hex"].as_str().unwrap());
            let i = n("at");
            d[i..i + v.len()].copy_from_slice(&v);
        }
        "trunc" => d.truncate(n("n")),
        "append" => d.extend(unhex(e["hex"].as_str().unwrap())),
        "insert" => {
            let i = n("at");
            d.splice(i..i, unhex(e["hex"].as_str().unwrap()));
        }
        "delete" => {
            d.drain(n("at")..n("at") + n("n"));
        }
        // a piece of the file put in once more, or exchanged with another one
        "copy" => {
            let (i, to) = (n("at"), n("to"));
            let v = d[i..i + n("n")].to_vec();
            d.splice(to..to, v);
        }
        "swap" => {
            let (i, j) = (n("at"), n("to"));
            for k in 0..n("n") {
                d.swap(i + k, j + k);
            }
        }
        // the data blocks from offset "at" on replaced by a sequence of [m, d]:
        // HMAC of block m, length and data of block d; -1 - k stands for that of k, changed;
        // m beyond the last block is made up: zeros, ones, SHA-256 of the data,
        // HMAC under the empty key, SHA-256 of nothing
        "blocks" => {
            let at = n("at");
            let mut blocks = Vec::new();
            let mut p = at;
            while p + 36 <= d.len() {
                let len = u32::from_le_bytes(d[p + 32..p + 36].try_into().unwrap()) as usize;
                blocks.push((d[p..p + 32].to_vec(), d[p + 32..p + 36 + len].to_vec()));
                p += 36 + len;
            }
            d.truncate(at);
            for b in e["seq"].as_array().unwrap() {
                let (m, x) = (b[0].as_i64().unwrap(), b[1].as_i64().unwrap());
                let pick = |k: i64| if k >= 0 { k as usize } else { (-1 - k) as usize };
                let mut mac = blocks.get(pick(m)).map(|b| b.0.clone()).unwrap_or_default();
                let mut data = blocks[pick(x)].1.clone();
                if m < 0 {
                    mac[7] ^= 4;
                }
                if x < 0 {
                    // another byte of the data; if there is none, one more
                    if data.len() > 4 {
                        let l = data.len() - 1;
                        data[l] ^= 1;
                    } else {
                        data = vec![1, 0, 0, 0, 0];
                    }
                }
                if m >= blocks.len() as i64 {
                    mac = match m - blocks.len() as i64 {
                        0 => vec![0u8; 32],
                        1 => vec![0xff; 32],
                        2 => Sha256::digest(&data[4..]).to_vec(),
                        3 => Hmac::<Sha256>::new_from_slice(b"").unwrap().chain_update(&data[4..]).finalize().into_bytes().to_vec(),
                        _ => Sha256::digest(b"").to_vec(),
                    };
                }
                d.extend(mac);
                d.extend(data);
            }
        }
        t => panic!("mutation {}", t),
    }
}

impl World {
    fn slot(&mut self, o: &Value) -> &mut Slot {
        self.archives.entry(o["a"].as_str().unwrap().to_string()).or_default()
    }

    fn keep(&mut self, what: &str, d: &[u8]) {
        let v = if d.len() <= 8192 {
            json!(hex(d))
        } else {
            let dir = std::env::var("KVH_SPILL").expect("KVH_SPILL");
            let p = format!("{}/{}-{}", dir, self.tag, self.blobs.len());
            std::fs::write(&p, d).expect("spill");
            json!(format!("@{}", p))
        };
        self.blobs.push(json!([what, v]));
    }

    fn step(&mut self, o: &Value) -> Value {
        match o["op"].as_str().unwrap() {
            "new" => {
                let k = Kdbx::from_database(db_of(&o["db"]));
                let obs = obs_unlocked(&k);
                *self.slot(o) = Slot::Unlocked(k);
                json!(["ok", obs])
            }
            "hdr" => match self.slot(o) {
                Slot::Locked(k) => {
                    set_header(k.header_mut(), &o["set"]);
                    json!(["ok"])
                }
                Slot::Unlocked(k) => {
                    set_header(k.header_mut(), &o["set"]);
                    json!(["ok"])
                }
                Slot::Empty => json!(["skipped"]),
            },
            "inner" => match self.slot(o) {
                Slot::Unlocked(k) => {
                    set_inner(k.inner_header_mut(), &o["set"]);
                    json!(["ok"])
                }
                _ => json!(["skipped"]),
            },
            "key" => match self.slot(o) {
                Slot::Unlocked(k) => match k.set_key(composite(o)) {
                    Ok(()) => json!(["ok"]),
                    Err(_) => json!(["err", "keygen"]),
                },
                _ => json!(["skipped"]),
            },
            "edit" => match self.slot(o) {
                Slot::Unlocked(k) => {
                    let db = if o["deref"] == true { &mut **k } else { k.database_mut() };
                    let mut st = dbops::St { db, ce: Vec::new(), cg: Vec::new() };
                    dbops::apply(&mut st, &o["o"]).map(|_| json!(["ok"])).unwrap_or(json!(["skipped"]))
                }
                _ => json!(["skipped"]),
            },
            "obs" => match self.slot(o) {
                Slot::Empty => json!(["ok", {"st": "empty"}]),
                Slot::Locked(k) => json!(["ok", obs_locked(k)]),
                Slot::Unlocked(k) => json!(["ok", obs_unlocked(k)]),
            },
            "save" => {
                let mut sink = Sink::new(&o["sink"]);
                let r = match (self.slot(o), o["sink"]["buf"].as_u64()) {
                    (Slot::Empty, _) => return json!(["skipped"]),
                    // a buffered writer handed over to the library
                    (Slot::Locked(k), Some(n)) => k.write(BufWriter::with_capacity(n as usize, &mut sink)),
                    (Slot::Unlocked(k), Some(n)) => k.write(BufWriter::with_capacity(n as usize, &mut sink)),
                    (Slot::Locked(k), None) => k.write(&mut sink),
                    (Slot::Unlocked(k), None) => k.write(&mut sink),
                };
                let failed = sink.failed;
                self.files.insert(o["f"].as_str().unwrap().into(), sink.data);
                match r {
                    Ok(()) => json!(["ok", failed]),
                    Err(e) => json!(["err", write_error(&e), failed]),
                }
            }
            "open" => {
                let f = match self.files.get(o["f"].as_str().unwrap()) {
                    Some(f) => f,
                    None => return json!(["skipped"]),
                };
                let (r, failed) = if o["src"]["path"] == true {
                    let dir = std::env::var("KVH_SPILL").expect("KVH_SPILL");
                    let p = format!("{}/{}-open", dir, self.tag);
                    std::fs::write(&p, f).expect("file");
                    let r = kdbx_rs::open(&p);
                    std::fs::remove_file(&p).expect("file");
                    (r, false)
                } else {
                    let mut src = Source::new(f, &o["src"]);
                    let r = kdbx_rs::from_reader(&mut src);
                    (r, src.failed)
                };
                match r {
                    Ok(k) => {
                        let obs = obs_locked(&k);
                        *self.slot(o) = Slot::Locked(k);
                        json!(["ok", obs, failed])
                    }
                    Err(e) => {
                        *self.slot(o) = Slot::Empty;
                        json!(["err", open_error(&e), failed])
                    }
                }
            }
            "unlock" => match std::mem::take(self.slot(o)) {
                Slot::Locked(k) => match k.unlock(&composite(o)) {
                    Ok(k) => {
                        let obs = obs_unlocked(&k);
                        *self.slot(o) = Slot::Unlocked(k);
                        json!(["ok", obs])
                    }
                    Err(FailedUnlock(k, e)) => {
                        let r = json!(["err", unlock_error(&e), obs_locked(&k)]);
                        *self.slot(o) = Slot::Locked(k);
                        r
                    }
                },
                other => {
                    *self.slot(o) = other;
                    json!(["skipped"])
                }
            },
            "bytes" => {
                let mut env = Env::default();
                let d = env.eval(&o["term"]);
                let n = d.len();
                self.files.insert(o["f"].as_str().unwrap().into(), d);
                if o["xml"].is_array() {
                    return json!(["ok", n, digest_token(&Env::default().eval(&o["xml"]))]);
                }
                json!(["ok", n])
            }
            "hex" => {
                let d = blob(&o["hex"]);
                let n = d.len();
                self.files.insert(o["f"].as_str().unwrap().into(), d);
                json!(["ok", n])
            }
            "mutate" => {
                let mut d = match self.files.get(o["from"].as_str().unwrap()) {
                    Some(f) => f.clone(),
                    None => return json!(["skipped"]),
                };
                for e in o["edits"].as_array().unwrap() {
                    mutate(&mut d, e);
                }
                let n = d.len();
                self.files.insert(o["f"].as_str().unwrap().into(), d);
                json!(["ok", n])
            }
            "same" => {
                let (f, g) = (self.files.get(o["f"].as_str().unwrap()), self.files.get(o["g"].as_str().unwrap()));
                match (f, g) {
                    (Some(f), Some(g)) => json!(["same", f == g]),
                    _ => json!(["skipped"]),
                }
            }
            // are the headers of two archives equal (with all fields kept aside)?
            "sameHeaders" => {
                let get = |n: &Value| match self.archives.get(n.as_str().unwrap()) {
                    Some(Slot::Locked(k)) => Some((k.header(), None)),
                    Some(Slot::Unlocked(k)) => Some((k.header(), Some(k.inner_header()))),
                    _ => None,
                };
                match (get(&o["a"]), get(&o["b"])) {
                    (Some(x), Some(y)) => {
                        let inner = match (x.1, y.1) {
                            (Some(p), Some(q)) => p == q,
                            _ => true,
                        };
                        json!(["same", x.0 == y.0 && inner])
                    }
                    _ => json!(["skipped"]),
                }
            }
            "decode" => {
                let d = match self.files.get(o["f"].as_str().unwrap()) {
                    Some(d) => d.clone(),
                    None => return json!(["skipped"]),
                };
                match decode::decode(&d, o) {
                    Ok(r) => {
                        self.keep("file", &d);
                        self.keep("xml", &r.xml);
                        if let Some(g) = &r.gz {
                            self.keep("gz", g);
                        }
                        json!(["ok", r.json])
                    }
                    Err(e) => json!(["err", e]),
                }
            }
            op => panic!("operation {}", op),
        }
    }
}

/// {"steps": [operation]} -> {"steps": [{o, ret}], "blobs"}
pub fn run_case(case: &Value) -> Value {
    let mut w = World { tag: format!("{}-{}", std::process::id(), case["id"]), ..Default::default() };
    let mut steps = Vec::new();
    for o in case["steps"].as_array().unwrap() {
        let mut o = o.clone();
        if o["op"] == "edit" {
            o["o"] = dbops::fill_otp(&o["o"]);
        }
        let ret = guarded(|| w.step(&o));
        if let Some(m) = o.as_object_mut() {
            m.remove("term");
            m.remove("xml");
        }
        match ret {
            Ok(ret) => steps.push(json!({"o": o, "ret": ret})),
            Err(msg) => {
                steps.push(json!({"o": o, "ret": ["panic", msg]}));
                break;
            }
        }
    }
    json!({"steps": steps, "blobs": w.blobs})
}
