//! Databases as JSON, in the encoding of the specification (spec/KdbxDb.tla)

use chrono::{Duration, NaiveDate, NaiveDateTime};
use kdbx_rs::database::{Entry, Field, Group, MemoryProtection, Meta, Times};
use kdbx_rs::Database;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use uuid::Uuid;

pub fn hex(data: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(data.len() * 2);
    for b in data {
        s.push(D[(b >> 4) as usize] as char);
        s.push(D[(b & 15) as usize] as char);
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    assert!(b.len() % 2 == 0, "odd hex {}", s);
    b.chunks(2)
        .map(|c| {
            let d = |x: u8| (x as char).to_digit(16).expect("hex digit") as u8;
            d(c[0]) << 4 | d(c[1])
        })
        .collect()
}

thread_local! {
    static LONG: RefCell<HashMap<(usize, [u8; 16]), String>> = RefCell::new(HashMap::new());
}

fn digest(data: &[u8]) -> (usize, [u8; 16]) {
    let mut d = [0u8; 16];
    d.copy_from_slice(&crate::term::sha256(data)[..16]);
    (data.len(), d)
}

/// Texts are "x<hex>"; long ones are named by the generator that made them
/// ("r<length, 10 digits>:<seed>") or else by their digest
pub fn text_bytes(data: &[u8]) -> String {
    if data.len() <= 2048 {
        return format!("x{}", hex(data));
    }
    let d = digest(data);
    LONG.with(|l| l.borrow().get(&d).cloned()).unwrap_or_else(|| format!("a{:010}:{}", d.0, hex(&d.1)))
}

pub fn text(s: &str) -> String {
    text_bytes(s.as_bytes())
}

pub fn untext_str(s: &str) -> Vec<u8> {
    if let Some(h) = s.strip_prefix('x') {
        return unhex(h);
    }
    let (n, seed) = s.strip_prefix('r').and_then(|r| r.split_once(':')).unwrap_or_else(|| panic!("not a text: {}", s));
    let data = crate::term::noise_text(seed.parse().unwrap(), n.parse().unwrap());
    if data.len() > 2048 {
        let d = digest(&data);
        LONG.with(|l| l.borrow_mut().insert(d, s.to_string()));
    }
    data
}

pub fn untext(v: &Value) -> String {
    String::from_utf8(untext_str(v.as_str().expect("text"))).expect("utf8")
}

pub fn opt_text(v: Option<&str>) -> String {
    v.map(text).unwrap_or_else(|| "none".into())
}

pub fn id_of(v: &Value) -> Uuid {
    Uuid::from_slice(&unhex(v.as_str().expect("id"))).expect("uuid")
}

pub fn epoch() -> NaiveDateTime {
    NaiveDate::from_ymd_opt(1, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap()
}

/// Times are "t<seconds since year 1, 8 little-endian bytes in hex>[.nanoseconds]"
pub fn time_of(v: &Value) -> NaiveDateTime {
    let s = v.as_str().expect("time").strip_prefix('t').expect("time");
    let (secs, nanos) = s.split_once('.').unwrap_or((s, "0"));
    let secs = i64::from_le_bytes(unhex(secs).try_into().expect("8 bytes"));
    epoch()
        .checked_add_signed(Duration::try_seconds(secs).unwrap() + Duration::nanoseconds(nanos.parse().unwrap()))
        .expect("time in range")
}

pub fn time_str(t: NaiveDateTime) -> String {
    let d = t.signed_duration_since(epoch());
    let secs = hex(&d.num_seconds().to_le_bytes());
    match d.subsec_nanos() {
        0 => format!("t{}", secs),
        n => format!("t{}.{}", secs, n),
    }
}

pub fn field_of(v: &Value) -> Field {
    let key = untext(&v["k"]);
    let p = v["p"].as_bool().unwrap();
    let val = &v["v"];
    let none = val == "none";
    let s = if none { String::new() } else { untext(val) };
    let mut f = if p { Field::new_protected(&key, &s) } else { Field::new(&key, &s) };
    if none {
        f.clear();
    }
    f
}

pub fn field_json(f: &Field) -> Value {
    json!({"k": text(f.key()), "v": opt_text(f.value()), "p": f.protected()})
}

pub fn times_of(v: &Value) -> Times {
    Times {
        last_modification_time: time_of(&v["mod"]),
        creation_time: time_of(&v["cre"]),
        last_access_time: time_of(&v["acc"]),
        expiry_time: time_of(&v["exp"]),
        location_changed: time_of(&v["loc"]),
        expires: v["expires"].as_bool().unwrap(),
        usage_count: v["usage"].as_str().unwrap().parse().unwrap(),
    }
}

pub fn times_json(t: &Times) -> Value {
    json!({
        "mod": time_str(t.last_modification_time), "cre": time_str(t.creation_time),
        "acc": time_str(t.last_access_time), "exp": time_str(t.expiry_time),
        "loc": time_str(t.location_changed), "expires": t.expires,
        "usage": t.usage_count.to_string(),
    })
}

pub fn entry_of(v: &Value) -> Entry {
    let mut e = Entry::default();
    e.set_uuid(id_of(&v["id"]));
    for f in v["fields"].as_array().unwrap() {
        e.add_field(field_of(f));
    }
    *e.times_mut() = times_of(&v["times"]);
    for h in v["hist"].as_array().unwrap() {
        e.history_mut().push(entry_of(h));
    }
    e
}

pub fn entry_json(e: &Entry) -> Value {
    json!({
        "id": hex(e.uuid().as_bytes()),
        "fields": e.fields().map(field_json).collect::<Vec<_>>(),
        "times": times_json(e.times()),
        "hist": e.history().entries().map(entry_json).collect::<Vec<_>>(),
    })
}

pub fn group_of(v: &Value) -> Group {
    let mut g = Group::new(untext(&v["name"]));
    g.set_uuid(id_of(&v["id"]));
    *g.times_mut() = times_of(&v["times"]);
    for e in v["entries"].as_array().unwrap() {
        g.add_entry(entry_of(e));
    }
    for c in v["groups"].as_array().unwrap() {
        g.add_group(group_of(c));
    }
    g
}

pub fn group_json(g: &Group) -> Value {
    json!({
        "id": hex(g.uuid().as_bytes()),
        "name": text(g.name()),
        "times": times_json(g.times()),
        "entries": g.entries().map(entry_json).collect::<Vec<_>>(),
        "groups": g.groups().map(group_json).collect::<Vec<_>>(),
    })
}

pub fn mp_of(v: &Value) -> MemoryProtection {
    let b = |i: usize| v[i].as_bool().unwrap();
    MemoryProtection {
        protect_title: b(0),
        protect_user_name: b(1),
        protect_password: b(2),
        protect_url: b(3),
        protect_notes: b(4),
    }
}

pub fn meta_json(m: &Meta) -> Value {
    let p = &m.memory_protection;
    json!({
        "name": text(&m.database_name), "desc": text(&m.database_description),
        "custom": m.custom_data.iter().map(field_json).collect::<Vec<_>>(),
        "mp": [p.protect_title, p.protect_user_name, p.protect_password, p.protect_url, p.protect_notes],
    })
}

pub fn db_of(v: &Value) -> Database {
    let mut db = Database::default();
    let m = &v["meta"];
    db.set_name(untext(&m["name"]));
    db.set_description(untext(&m["desc"]));
    db.meta_mut().custom_data = m["custom"].as_array().unwrap().iter().map(field_of).collect();
    db.meta_mut().memory_protection = mp_of(&m["mp"]);
    db.replace_root(group_of(&v["root"]));
    db
}

pub fn db_json(db: &Database) -> Value {
    json!({"meta": meta_json(db.meta()), "root": group_json(db.root())})
}
