//! Newly made entries, groups, databases and archives

use crate::arch::{hdr_json, inner_json};
use crate::dbjson::{db_json, entry_json, epoch, group_json, hex, untext};
use crate::runner::guarded;
use kdbx_rs::database::{Entry, Group};
use kdbx_rs::{CompositeKey, Database, Kdbx};
use serde_json::{json, Value};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// The clock of the system as a time
fn now() -> Value {
    let unix = chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
    let before = unix.signed_duration_since(epoch()).num_seconds();
    let secs = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64;
    json!(format!("t{}", hex(&(before + secs).to_le_bytes())))
}

#[derive(Default)]
struct World {
    entry: Option<Entry>,
    group: Option<Group>,
    db: Option<Database>,
    arch: Option<Kdbx<kdbx_rs::binary::Unlocked>>,
}

fn opt(v: Option<Value>) -> Value {
    v.map(|v| json!(["some", v])).unwrap_or_else(|| json!(["none"]))
}

fn step(w: &mut World, o: &Value) -> Value {
    let ok = |got: Value| json!({"ret": "ok", "got": got});
    let skipped = json!({"ret": "skipped", "got": []});
    match o["op"].as_str().unwrap() {
        "entry" => ok(entry_json(w.entry.insert(Entry::default()))),
        "group" => ok(group_json(w.group.insert(Group::default()))),
        "named" => ok(group_json(w.group.insert(Group::new(untext(&o["name"]))))),
        "db" => ok(db_json(w.db.insert(Database::default()))),
        "putEntry" => match (&mut w.db, w.entry.is_some()) {
            (Some(db), true) => {
                db.add_entry(w.entry.take().unwrap());
                ok(json!([]))
            }
            _ => skipped,
        },
        "putGroup" => match (&mut w.db, w.group.is_some()) {
            (Some(db), true) => {
                db.add_group(w.group.take().unwrap());
                ok(json!([]))
            }
            _ => skipped,
        },
        "fill" => match (&mut w.group, w.entry.is_some()) {
            (Some(g), true) => {
                g.add_entry(w.entry.take().unwrap());
                ok(json!([]))
            }
            _ => skipped,
        },
        "archive" => match w.db.take() {
            Some(db) => {
                let k = w.arch.insert(Kdbx::from_database(db));
                ok(json!({"db": db_json(k.database()), "major": k.major_version(), "raw": k.raw_xml().is_some(),
                          "hdr": hdr_json(k.header()), "inner": inner_json(k.inner_header())}))
            }
            None => skipped,
        },
        "key" => match &mut w.arch {
            Some(k) => match k.set_key(CompositeKey::from_password("pw")) {
                Ok(()) => ok(json!([])),
                Err(_) => json!({"ret": "err", "got": []}),
            },
            None => skipped,
        },
        "save" => match &w.arch {
            Some(k) => {
                let mut out = Vec::new();
                match k.write(&mut out) {
                    Ok(()) => {
                        let again = kdbx_rs::from_reader(&out[..])
                            .ok()
                            .and_then(|l| l.unlock(&CompositeKey::from_password("pw")).ok())
                            .map(|k| db_json(k.database()));
                        ok(again.unwrap_or_else(|| json!("lost")))
                    }
                    Err(_) => json!({"ret": "err", "got": []}),
                }
            }
            None => skipped,
        },
        "look" => ok(json!({
            "entry": opt(w.entry.as_ref().map(entry_json)), "group": opt(w.group.as_ref().map(group_json)),
            "db": opt(w.db.as_ref().map(db_json)), "arch": opt(w.arch.as_ref().map(|k| db_json(k.database()))),
        })),
        "tick" => {
            std::thread::sleep(Duration::from_millis(1050));
            ok(json!([]))
        }
        op => panic!("new {}", op),
    }
}

/// {"steps": [operation]}, see spec/KdbxNew.tla
pub fn run_case(case: &Value) -> Value {
    let mut w = World::default();
    let mut steps = Vec::new();
    for o in case["steps"].as_array().unwrap() {
        let lo = now();
        let mut r = match guarded(|| step(&mut w, o)) {
            Ok(r) => r,
            Err(p) => json!({"ret": "panic", "got": p}),
        };
        r["lo"] = lo;
        r["hi"] = now();
        r["o"] = o.clone();
        steps.push(r);
    }
    json!({ "steps": steps })
}
