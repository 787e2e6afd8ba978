//! Encoders, one-time passwords, database XML and freshly made secrets

use crate::arch::{hdr_json, inner_json};
use crate::chunkio::Source;
use crate::dbjson::{db_json, hex, id_of, opt_text, text, time_str, unhex, untext};
use crate::runner::guarded;
use crate::term::{keystream, Env};
use chrono::{Datelike, NaiveDate, Timelike};
use cipher::{KeyIvInit, StreamCipher};
use kdbx_rs::binary::{KdbxHeader, KdbxInnerHeader};
use kdbx_rs::database::{Entry, Field, Group, Otp};
use kdbx_rs::xml;
use kdbx_rs::{Database, Kdbx};
use serde_json::{json, Value};

fn or_panic(r: Result<Value, String>) -> Value {
    r.unwrap_or_else(|msg| json!(["panic", msg]))
}

/// {"k": encTime, "v": [y, m, d, h, min, s, ns]} or {"k": encId, "v"} -> ["some", text]; {"k": decTime|decId, "x"} -> ["some", v] or ["none"]
pub fn run_codec(case: &Value) -> Value {
    let ret = or_panic(guarded(|| match case["k"].as_str().unwrap() {
        "encTime" => {
            let v: Vec<u32> = case["v"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let t = NaiveDate::from_ymd_opt(v[0] as i32, v[1], v[2])
                .and_then(|d| d.and_hms_nano_opt(v[3], v[4], v[5], v[6]))
                .expect("date");
            json!(["some", text(&xml::encode_datetime(t))])
        }
        "encId" => json!(["some", text(&xml::encode_uuid(id_of(&case["v"])))]),
        "decTime" => match xml::decode_datetime(&untext(&case["x"])) {
            Some(t) => json!(["some", time_str(t), [t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second()]]),
            None => json!(["none"]),
        },
        "decId" => match xml::decode_uuid(&untext(&case["x"])) {
            Some(i) => json!(["some", hex(i.as_bytes())]),
            None => json!(["none"]),
        },
        k => panic!("codec {}", k),
    }));
    json!({ "ret": ret })
}

fn num(n: Option<u32>) -> Value {
    json!(n.map(|n| n.to_string()).unwrap_or_else(|| "none".into()))
}

fn otp_json(o: Option<Otp>) -> Value {
    match o {
        None => json!(["none"]),
        Some(o) => json!(["some", opt_text(o.secret()), num(o.period()), num(o.digits())]),
    }
}

/// {"url"} as the value of the otp field, or {"new": [secret, period, digits]}
pub fn run_otp(case: &Value) -> Value {
    let ret = guarded(|| {
        if case["new"].is_array() {
            let n = &case["new"];
            let p = |i: usize| n[i].as_str().unwrap().parse::<u32>().unwrap();
            let otp = Otp::new(untext(&n[0]), p(1), p(2));
            let direct = otp_json(Some(Otp::new(untext(&n[0]), p(1), p(2))));
            let mut e = Entry::default();
            if case["over"] == true {
                e.add_field(Field::new("otp", "otpauth://totp/a:b?secret=OLD&period=1&digits=2"));
            }
            e.set_otp(otp);
            let copy = e.clone();
            json!([direct, otp_json(e.otp()), otp_json(copy.otp())])
        } else {
            let mut e = Entry::default();
            if case["prot"] == true {
                e.add_field(Field::new_protected("otp", &untext(&case["url"])));
            } else {
                e.add_field(Field::new("otp", &untext(&case["url"])));
            }
            json!([otp_json(e.otp())])
        }
    })
    .unwrap_or_else(|msg| json!([["panic", msg]]));
    json!({ "ret": ret })
}

/// The inner stream, from the primitives
pub fn inner_stream(alg: &str, key: &[u8]) -> Box<dyn StreamCipher> {
    match alg {
        "chacha20" => {
            let h = crate::term::sha512(key);
            Box::new(chacha20::ChaCha20::new_from_slices(&h[..32], &h[32..44]).unwrap())
        }
        "salsa20" => {
            let iv = [0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a];
            Box::new(salsa20::Salsa20::new_from_slices(&crate::term::sha256(key), &iv).unwrap())
        }
        _ => Box::new(kdbx_rs::utils::NullStreamCipher),
    }
}

/// {"xml": term, "alg", "key", "src"?} -> ["ok", db, generator] or ["err", message]
pub fn run_xml(case: &Value) -> Value {
    let data = Env::default().eval(&case["xml"]);
    let (alg, key) = (case["alg"].as_str().unwrap(), unhex(case["key"].as_str().unwrap()));
    let mut stream = inner_stream(alg, &key);
    let ret = or_panic(guarded(|| match xml::parse_xml(Source::new(&data, &case["src"]), stream.as_mut()) {
        Ok(db) => json!(["ok", db_json(&db), text(&db.meta().generator)]),
        Err(e) => json!(["err", e.to_string()]),
    }));
    let mut r = json!({ "ret": ret, "len": data.len() });
    if alg != "null" {
        // where the stream stands now
        let mut next = [0u8; 16];
        stream.apply_keystream(&mut next);
        let all = keystream(alg, &key, 0, data.len() + 64);
        r["used"] = match all.windows(16).position(|w| w == next) {
            Some(n) => json!(n),
            None => json!(-1),
        };
    }
    if case["dump"] == true {
        r["bytes"] = json!(hex(&data));
    }
    r
}

fn secrets_of(h: &KdbxHeader) -> Value {
    let o = hdr_json(h);
    json!({"seed": o["seed"], "iv": o["iv"], "kdf": o["kdf"], "start": o["start"], "other": o["other"]})
}

fn fresh_one(kind: &str) -> Value {
    match kind {
        "header" => secrets_of(&KdbxHeader::from_os_random()),
        "inner" => inner_json(&KdbxInnerHeader::from_os_random()),
        "archive" => {
            let k = Kdbx::from_database(Database::default());
            let mut s = secrets_of(k.header());
            s["inner"] = inner_json(k.inner_header());
            s["root"] = json!(hex(k.database().root().uuid().as_bytes()));
            s
        }
        "entry" => json!(hex(Entry::default().uuid().as_bytes())),
        "group" => json!(hex(Group::default().uuid().as_bytes())),
        "named" => json!(hex(Group::new("g").uuid().as_bytes())),
        k => panic!("fresh {}", k),
    }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

/// {"kind": header|inner|archive|entry|group|named, "n", "forks"?, "out"?} -> what n
/// new ones contain; with forks, n are made before, in each child process, and after
pub fn run_fresh(case: &Value) -> Value {
    let n = case["n"].as_u64().unwrap();
    let kind = case["kind"].as_str().unwrap();
    let make = || -> Vec<Value> { (0..n).map(|_| fresh_one(kind)).collect() };
    let mut out = make();
    if let Some(forks) = case["forks"].as_u64() {
        for i in 0..forks {
            let path = format!("{}.{}", case["out"].as_str().unwrap(), i);
            unsafe {
                let pid = fork();
                if pid == 0 {
                    let ok = std::fs::write(&path, json!(make()).to_string()).is_ok();
                    _exit(if ok { 0 } else { 1 });
                }
                let mut status = 0;
                assert!(pid > 0 && waitpid(pid, &mut status, 0) == pid && status == 0, "child process");
            }
            let made: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
            out.extend(made);
            std::fs::remove_file(&path).unwrap();
        }
        out.extend(make());
    }
    json!({ "kind": kind, "made": out })
}
