//! Faults of files, readers, writers and settings, and the errors they lead to

use crate::arch::composite;
use crate::chunkio::{Sink, Source};
use crate::dbjson::{db_of, unhex, untext};
use crate::runner::guarded;
use crate::term::Env;
use kdbx_rs::binary::{Cipher, CompressionType, FailedUnlock, InnerStreamCipherAlgorithm, KdfParams};
use kdbx_rs::errors::{Error, HeaderError, KeyGenerationError, OpenError, UnlockError, WriteError, XmlReadError, XmlWriteError};
use kdbx_rs::{CompositeKey, Kdbx};
use serde_json::{json, Value};

type Report = (&'static str, &'static str, String);

fn io(call: &'static str, e: &std::io::Error) -> Report {
    (call, "io", format!("{:?}", e.kind()))
}

fn plain(call: &'static str, kind: &'static str) -> Report {
    (call, kind, String::new())
}

#[allow(unreachable_patterns)]
fn header(call: &'static str, e: &HeaderError) -> Report {
    match e {
        HeaderError::Io(e) => io(call, e),
        HeaderError::MalformedField(id, _) => (call, "malformed", u8::from(*id).to_string()),
        HeaderError::MissingRequiredField(id) => (call, "missing", u8::from(*id).to_string()),
        HeaderError::MissingRequiredInnerField(id) => (call, "missing inner", u8::from(*id).to_string()),
        HeaderError::MissingKdfParam(name, _) => (call, "param", name.clone()),
        HeaderError::ChecksumFailed => plain(call, "checksum"),
        _ => plain(call, "header"),
    }
}

#[allow(unreachable_patterns)]
fn open(e: &OpenError) -> Report {
    match e {
        OpenError::NonKeepassFormat => plain("open", "not keepass"),
        OpenError::UnsupportedFileFormat => plain("open", "not kdbx"),
        OpenError::UnsupportedMajorVersion(n) => ("open", "version", n.to_string()),
        OpenError::InvalidHeader(h) => header("open", h),
        OpenError::Io(e) => io("open", e),
        _ => plain("open", "other"),
    }
}

#[allow(unreachable_patterns)]
fn keygen(call: &'static str, e: &KeyGenerationError) -> Report {
    let x = match e {
        KeyGenerationError::UnimplementedKdfOptions(_) => "unsupported",
        KeyGenerationError::KeyGeneration(_) => "failed",
        _ => "other",
    };
    (call, "keygen", x.into())
}

#[allow(unreachable_patterns)]
fn unlock(e: &UnlockError) -> Report {
    match e {
        UnlockError::HmacInvalid => plain("unlock", "hmac"),
        UnlockError::StartBytesInvalid => plain("unlock", "start bytes"),
        UnlockError::KeyGen(e) => keygen("unlock", e),
        UnlockError::Decrypt(_) => plain("unlock", "decrypt"),
        // damage met while the inner header is read
        UnlockError::InvalidInnerHeader(HeaderError::Io(_)) => plain("unlock", "unread"),
        UnlockError::InvalidInnerHeader(h) => header("unlock", h),
        UnlockError::InnerStream(_) => plain("unlock", "inner stream"),
        UnlockError::InvalidXml(e) => {
            let x = match e {
                XmlReadError::Xml(_) => "syntax",
                XmlReadError::InvalidUuid => "uuid",
                XmlReadError::InvalidDatetime => "datetime",
                XmlReadError::InvalidNumber => "number",
                XmlReadError::DecryptFailed(_) => "base64",
                _ => "other",
            };
            ("unlock", "xml", x.into())
        }
        _ => plain("unlock", "other"),
    }
}

#[allow(unreachable_patterns)]
fn write(e: &WriteError) -> Report {
    match e {
        WriteError::Io(e) => io("save", e),
        WriteError::XmlWrite(XmlWriteError::Cipher(_)) => ("save", "xml", "cipher".into()),
        WriteError::XmlWrite(_) => plain("save", "xml"),
        WriteError::MissingKeys => plain("save", "missing keys"),
        WriteError::InnerStream(_) => plain("save", "inner stream"),
        _ => plain("save", "other"),
    }
}

#[allow(unreachable_patterns)]
fn any(e: &Error, call: &'static str) -> Report {
    match e {
        Error::Open(e) => open(e),
        Error::Unlock(e) => unlock(e),
        Error::Write(e) => write(e),
        Error::KeyGeneration(e) => keygen(call, e),
        _ => plain("", "other"),
    }
}

/// Kind of the I/O error among the sources of an error
fn source(e: &Error) -> String {
    let mut e: Option<&(dyn std::error::Error + 'static)> = Some(e);
    while let Some(x) = e {
        if let Some(io) = x.downcast_ref::<std::io::Error>() {
            return format!("{:?}", io.kind());
        }
        e = x.source();
    }
    String::new()
}

fn said(r: Report, e: impl Into<Error>) -> Value {
    let e: Error = e.into();
    let told = !e.to_string().is_empty();
    json!({"got": [r.0, r.1, r.2], "same": told && any(&e, r.0) == r, "source": source(&e)})
}

fn fine() -> Value {
    json!({"got": ["none", "ok", ""], "same": true, "source": ""})
}

/// Where a part of a file is: start and length
fn part(env: &Env, v: u64, len: usize, name: &str) -> (usize, usize) {
    let h = env.sizes["header"];
    let data = if v == 4 { h + 64 } else { h };
    match name {
        "magic" => (0, 4),
        "type" => (4, 4),
        "version" => (8, 4),
        "header" => (12, h - 12),
        "hash" => (h, 32),
        "hmac" => (h + 32, 32),
        // the first half of the content: all of that is needed
        _ => (data, (len - data) / 2),
    }
}

fn read(case: &Value) -> Value {
    let mut env = Env::default();
    for (k, v) in case["e"].as_object().unwrap() {
        env.edits.insert(k.clone(), v.as_array().unwrap().clone());
    }
    let file = env.eval(&case["term"]);
    if !env.applied {
        return json!({"nop": true});
    }
    let mut src = case["src"].clone();
    if let Some(p) = src["at"].as_str() {
        let (start, n) = part(&env, case["v"].as_u64().unwrap(), file.len(), p);
        let at = start + case["src"]["k"].as_u64().unwrap() as usize % n;
        src[case["src"]["how"].as_str().unwrap()] = json!(at);
    }
    let k = match kdbx_rs::from_reader(Source::new(&file, &src)) {
        Err(e) => return said(open(&e), e),
        Ok(k) => k,
    };
    match k.unlock(&composite(&case["cr"])) {
        Ok(_) => fine(),
        Err(FailedUnlock(k, e)) => {
            let r = unlock(&e);
            // both ways of getting at the error
            let other = unlock(&UnlockError::from(match k.unlock(&composite(&case["cr"])) {
                Ok(_) => return json!({"got": ["", "unlocked the second time", ""], "same": false, "source": ""}),
                Err(f) => f,
            }));
            let f = match kdbx_rs::from_reader(Source::new(&file, &src)).map(|k| k.unlock(&composite(&case["cr"]))) {
                Ok(Err(f)) => Error::from(f),
                _ => Error::from(e),
            };
            let mut x = said(r.clone(), f);
            if other != r {
                x["same"] = json!(false);
            }
            x
        }
    }
}

/// {"db", "cipher"?, "iv"?, "comp"?, "stream"?, "kdf"?, "key", "sink"}
fn save(case: &Value) -> Value {
    let mut k = Kdbx::from_database(db_of(&case["db"]));
    let h = k.header_mut();
    h.kdf_params = KdfParams::Aes { rounds: 1, salt: vec![7; 32] };
    if let Some(n) = case["salt"].as_u64() {
        h.kdf_params = KdfParams::Aes { rounds: 1, salt: vec![7; n as usize] };
    }
    if let Some(u) = case["kdf"].as_str() {
        h.kdf_params = KdfParams::Unknown { uuid: uuid::Uuid::from_slice(&unhex(u)).unwrap(), params: Default::default() };
    }
    if let Some(u) = case["cipher"].as_str() {
        h.cipher = Cipher::Unknown(uuid::Uuid::from_slice(&unhex(u)).unwrap());
    }
    if let Some(n) = case["iv"].as_u64() {
        h.encryption_iv = vec![1; n as usize];
    }
    if let Some(n) = case["comp"].as_u64() {
        h.compression_type = CompressionType::Unknown(n as u32);
    }
    if let Some(n) = case["stream"].as_u64() {
        k.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::from(n as u32);
    }
    if case["key"] == true {
        if let Err(e) = k.set_key(CompositeKey::from_password("pw")) {
            return said(keygen("key", &e), e);
        }
    }
    if let Some(t) = case["text"].as_str() {
        k.database_mut().set_name(untext(&json!(t)));
    }
    let set = ["cipher", "iv", "comp"].iter().any(|s| !case[*s].is_null());
    let mut sink = Sink::new(&case["sink"]);
    match k.write(&mut sink) {
        Ok(()) => fine(),
        Err(e) => {
            let mut r = write(&e);
            // settings nothing can be written with have an I/O error of the library's own
            if set && !sink.failed && r.1 == "io" {
                r = plain("save", "settings");
                return json!({"got": [r.0, r.1, r.2], "same": true, "source": ""});
            }
            said(r, e)
        }
    }
}

fn absent() -> Value {
    let name = format!("{}/no such file", std::env::var("KVH_SPILL").unwrap_or_else(|_| "/nonexistent".into()));
    match kdbx_rs::open(name) {
        Ok(_) => fine(),
        Err(e) => said(open(&e), e),
    }
}

pub fn run_case(case: &Value) -> Value {
    let r = guarded(|| match case["t"].as_str().unwrap() {
        "save" => save(case),
        "absent" => absent(),
        _ => read(case),
    });
    r.unwrap_or_else(|p| json!({"got": ["panic", p, ""], "same": false, "source": ""}))
}
