//! Operations on databases (spec/KdbxDb.tla), executed through the public API

use crate::dbjson::*;
use crate::runner::guarded;
use kdbx_rs::database::{Entry, Field, Group, Otp};
use kdbx_rs::Database;
use serde_json::{json, Value};

pub struct St<'a> {
    pub db: &'a mut Database,
    pub ce: Vec<Entry>,
    pub cg: Vec<Group>,
}

fn path(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|i| i.as_u64().unwrap() as usize - 1).collect()
}

fn group<'a>(root: &'a Group, p: &[usize]) -> Option<&'a Group> {
    match p.split_first() {
        None => Some(root),
        Some((i, rest)) => root.groups().nth(*i).and_then(|g| group(g, rest)),
    }
}

fn group_mut<'a>(root: &'a mut Group, p: &[usize]) -> Option<&'a mut Group> {
    match p.split_first() {
        None => Some(root),
        Some((i, rest)) => root.groups_mut().nth(*i).and_then(|g| group_mut(g, rest)),
    }
}

fn entry<'a>(root: &'a Group, r: &Value) -> Option<&'a Entry> {
    let mut e = group(root, &path(&r["g"]))?.entries().nth(r["e"].as_u64().unwrap() as usize - 1)?;
    for h in path(&r["h"]) {
        e = e.history().get(h)?;
    }
    Some(e)
}

fn entry_mut<'a>(root: &'a mut Group, r: &Value) -> Option<&'a mut Entry> {
    let g = group_mut(root, &path(&r["g"]))?;
    let mut e = g.entries_mut().nth(r["e"].as_u64().unwrap() as usize - 1)?;
    for (n, h) in path(&r["h"]).into_iter().enumerate() {
        if h >= e.history().len() {
            return None;
        }
        e = match n % 3 {
            0 => e.history_mut().get_mut(h)?,
            1 => &mut e.history_mut()[h],
            _ => e.history_mut().entries_mut().nth(h)?,
        };
    }
    Some(e)
}

fn field_act(f: &mut Field, a: &Value) {
    match a["t"].as_str().unwrap() {
        "set" => f.set_value(&untext(&a["v"])),
        "clear" => f.clear(),
        "prot" => f.set_protected(a["b"].as_bool().unwrap()),
        "key" => f.set_key(&untext(&a["v"])),
        t => panic!("field action {}", t),
    }
}

fn entry_act(e: &mut Entry, a: &Value) -> Value {
    match a["t"].as_str().unwrap() {
        "title" => e.set_title(untext(&a["v"])),
        "username" => e.set_username(untext(&a["v"])),
        "url" => e.set_url(untext(&a["v"])),
        "password" => e.set_password(untext(&a["v"])),
        "otp" => {
            let u = |k: &str| a[k].as_str().unwrap().parse::<u32>().unwrap();
            e.set_otp(Otp::new(untext(&a["secret"]), u("period"), u("digits")))
        }
        "add" => e.add_field(field_of(&a["f"])),
        "remove" => e.remove_field(&untext(&a["k"])),
        "field" => {
            let f = e.find_mut(&untext(&a["k"]));
            let found = f.is_some();
            if let Some(f) = f {
                field_act(f, &a["a"]);
            }
            return json!(["found", found]);
        }
        "fieldAt" => {
            if let Some(f) = e.fields_mut().nth(a["i"].as_u64().unwrap() as usize - 1) {
                field_act(f, &a["a"])
            }
        }
        "allFields" => e.fields_mut().for_each(|f| field_act(f, &a["a"])),
        "uuid" => e.set_uuid(id_of(&a["id"])),
        "times" => *e.times_mut() = times_of(&a["times"]),
        "version" => e.new_version(),
        "hPush" => e.history_mut().push(entry_of(&a["e"])),
        "hRemove" => {
            let old = e.history_mut().remove(a["i"].as_u64().unwrap() as usize - 1);
            return json!(["some", entry_json(&old)]);
        }
        "nop" => {}
        t => panic!("entry action {}", t),
    }
    json!(["nil"])
}

fn group_act(g: &mut Group, a: &Value) {
    match a["t"].as_str().unwrap() {
        "name" => g.set_name(untext(&a["v"])),
        "uuid" => g.set_uuid(id_of(&a["id"])),
        "times" => *g.times_mut() = times_of(&a["times"]),
        "addE" => g.add_entry(entry_of(&a["e"])),
        "addG" => g.add_group(group_of(&a["g"])),
        "nop" => {}
        t => panic!("group action {}", t),
    }
}

fn entry_test(p: &Value) -> impl FnMut(&Entry) -> bool {
    let p = p.clone();
    let mut calls = 0;
    move |e| match p["t"].as_str().unwrap() {
        "id" => e.uuid() == id_of(&p["id"]),
        "title" => e.title() == Some(untext(&p["v"]).as_str()),
        "url" => e.url() == Some(untext(&p["v"]).as_str()),
        "has" => e.find(&untext(&p["k"])).is_some(),
        "any" => true,
        "never" => false,
        "nth" => {
            calls += 1;
            calls == p["n"].as_u64().unwrap()
        }
        t => panic!("entry predicate {}", t),
    }
}

fn group_test(p: &Value) -> impl FnMut(&Group) -> bool {
    let p = p.clone();
    let mut calls = 0;
    move |g| match p["t"].as_str().unwrap() {
        "id" => g.uuid() == id_of(&p["id"]),
        "name" => g.name() == untext(&p["v"]),
        "holds" => g.entries().any(|e| e.uuid() == id_of(&p["id"])),
        "any" => true,
        "never" => false,
        "nth" => {
            calls += 1;
            calls == p["n"].as_u64().unwrap()
        }
        t => panic!("group predicate {}", t),
    }
}

fn some(v: Option<Value>) -> Value {
    match v {
        Some(v) => json!(["some", v]),
        None => json!(["none"]),
    }
}

fn ids_e<'a>(i: impl Iterator<Item = &'a Entry>) -> Vec<String> {
    i.map(|e| hex(e.uuid().as_bytes())).collect()
}

fn ids_g<'a>(i: impl Iterator<Item = &'a Group>) -> Vec<String> {
    i.map(|g| hex(g.uuid().as_bytes())).collect()
}

/// None: the operation's address does not exist
pub fn apply(st: &mut St, o: &Value) -> Option<Value> {
    let nil = json!(["nil"]);
    let op = o["op"].as_str().unwrap();
    match op {
        "dbAddE" => st.db.add_entry(entry_of(&o["e"])),
        "dbAddG" => st.db.add_group(group_of(&o["x"])),
        "dbReplace" => st.db.replace_root(group_of(&o["x"])),
        "dbName" => {
            st.db.set_name(untext(&o["v"]));
            return Some(json!(["text", text(st.db.name())]));
        }
        "dbDesc" => {
            st.db.set_description(untext(&o["v"]));
            return Some(json!(["text", text(st.db.description())]));
        }
        "dbCustom" => st.db.meta_mut().custom_data.push(field_of(&o["f"])),
        "dbMp" => st.db.meta_mut().memory_protection = mp_of(&o["mp"]),
        "obs" => {}
        "gAct" => group_act(group_mut(st.db.root_mut(), &path(&o["g"]))?, &o["a"]),
        "gCounts" => {
            let g = group(st.db.root(), &path(&o["g"]))?;
            return Some(json!([
                "counts", g.group_count(), g.entry_count(), ids_g(g.groups()), ids_e(g.entries()),
                hex(g.uuid().as_bytes()), text(g.name())
            ]));
        }
        "gRemoveE" => {
            let g = group_mut(st.db.root_mut(), &path(&o["g"]))?;
            let r = g.remove_entry(id_of(&o["id"]));
            let j = some(r.as_ref().map(entry_json));
            st.ce.extend(r);
            return Some(j);
        }
        "gRemoveG" => {
            let g = group_mut(st.db.root_mut(), &path(&o["g"]))?;
            let r = g.remove_group(id_of(&o["id"]));
            let j = some(r.as_ref().map(group_json));
            st.cg.extend(r);
            return Some(j);
        }
        "gPasteE" => {
            let g = group_mut(st.db.root_mut(), &path(&o["g"]))?;
            g.add_entry(st.ce.pop()?);
        }
        "gPasteG" => {
            let g = group_mut(st.db.root_mut(), &path(&o["g"]))?;
            g.add_group(st.cg.pop()?);
        }
        "gIdsMut" => {
            let g = group_mut(st.db.root_mut(), &path(&o["g"]))?;
            let mut es = Vec::new();
            for e in g.entries_mut() {
                es.push(hex(e.uuid().as_bytes()));
                entry_act(e, &o["ea"]);
            }
            let mut gs = Vec::new();
            for c in g.groups_mut() {
                gs.push(hex(c.uuid().as_bytes()));
                group_act(c, &o["ga"]);
            }
            return Some(json!(["ids", gs, es]));
        }
        "gSearchE" => {
            let p = path(&o["g"]);
            let t = entry_test(&o["p"]);
            let r = if p.is_empty() { st.db.find_entry(t) } else { group(st.db.root(), &p)?.find_entry(t) };
            return Some(some(r.map(entry_json)));
        }
        "gSearchG" => {
            let p = path(&o["g"]);
            let t = group_test(&o["p"]);
            let r = if p.is_empty() { st.db.find_group(t) } else { group(st.db.root(), &p)?.find_group(t) };
            return Some(some(r.map(group_json)));
        }
        "gSearchEMut" => {
            let p = path(&o["g"]);
            let t = entry_test(&o["p"]);
            let r = if p.is_empty() {
                st.db.find_entry_mut(t)
            } else {
                group_mut(st.db.root_mut(), &p)?.find_entry_mut(t)
            };
            return Some(some(r.map(|e| {
                let j = entry_json(e);
                entry_act(e, &o["a"]);
                j
            })));
        }
        "gSearchGMut" => {
            let p = path(&o["g"]);
            let t = group_test(&o["p"]);
            let r = if p.is_empty() {
                st.db.find_group_mut(t)
            } else {
                group_mut(st.db.root_mut(), &p)?.find_group_mut(t)
            };
            return Some(some(r.map(|g| {
                let j = group_json(g);
                group_act(g, &o["a"]);
                j
            })));
        }
        "gRecE" => {
            let g = group(st.db.root(), &path(&o["g"]))?;
            return Some(json!(["bag", g.recursive_entries().map(entry_json).collect::<Vec<_>>()]));
        }
        "gRecG" => {
            let g = group(st.db.root(), &path(&o["g"]))?;
            return Some(json!(["bag", g.recursive_groups().map(group_json).collect::<Vec<_>>()]));
        }
        "gRecEMut" => {
            let g = group_mut(st.db.root_mut(), &path(&o["g"]))?;
            let mut seen = Vec::new();
            for e in g.recursive_entries_mut() {
                seen.push(entry_json(e));
                entry_act(e, &o["a"]);
            }
            return Some(json!(["bag", seen]));
        }
        "eAct" => {
            let e = entry_mut(st.db.root_mut(), &o["r"])?;
            let a = &o["a"];
            if a["t"] == "hRemove" && a["i"].as_u64().unwrap() as usize > e.history().len() {
                return None;
            }
            return Some(entry_act(e, a));
        }
        "eGet" => {
            let e = entry(st.db.root(), &o["r"])?;
            return Some(json!([
                "entry", hex(e.uuid().as_bytes()),
                [opt_text(e.title()), opt_text(e.username()), opt_text(e.url()), opt_text(e.password())],
                e.fields().map(field_json).collect::<Vec<_>>(), times_json(e.times()), e.history().len()
            ]));
        }
        "eFind" => {
            let e = entry(st.db.root(), &o["r"])?;
            return Some(some(e.find(&untext(&o["k"])).map(field_json)));
        }
        "hGet" => {
            let e = entry(st.db.root(), &o["r"])?;
            let i = o["i"].as_u64().unwrap() as usize - 1;
            let got = e.history().get(i);
            if got.is_some() {
                assert!(std::ptr::eq(got.unwrap(), &e.history()[i]), "index differs from get");
            }
            return Some(some(got.map(entry_json)));
        }
        "hLen" => {
            let e = entry(st.db.root(), &o["r"])?;
            return Some(json!(["len", e.history().len(), e.history().is_empty()]));
        }
        "hList" => {
            let e = entry(st.db.root(), &o["r"])?;
            return Some(json!(["list", e.history().entries().map(entry_json).collect::<Vec<_>>()]));
        }
        _ => panic!("operation {}", op),
    }
    Some(nil)
}

/// The URL of a one-time password is the library's; record it as the value set
pub fn fill_otp(o: &Value) -> Value {
    let mut o = o.clone();
    for k in ["a", "ea"] {
        if o[k]["t"] == "otp" {
            let mut e = Entry::default();
            entry_act(&mut e, &o[k]);
            o[k]["v"] = json!(opt_text(e.find("otp").and_then(|f| f.value())));
        }
    }
    o
}

/// {"init": db, "ops": [..], "obs": "all"|"last"} -> {"steps": [{o, ret, obs?}]}
pub fn run_case(case: &Value) -> Value {
    let mut db = db_of(&case["init"]);
    let mut st = St { db: &mut db, ce: Vec::new(), cg: Vec::new() };
    let mut steps = vec![json!({"o": {"op": "obs"}, "ret": ["nil"], "obs": [db_json(st.db)]})];
    let ops: Vec<Value> = case["ops"].as_array().unwrap().iter().map(fill_otp).collect();
    for (i, o) in ops.iter().enumerate() {
        match guarded(|| apply(&mut st, o)) {
            Ok(ret) => {
                let ret = ret.unwrap_or_else(|| json!(["skipped"]));
                let obs = if case["obs"] == "all" || i + 1 == ops.len() {
                    json!([db_json(st.db)])
                } else {
                    json!([])
                };
                steps.push(json!({"o": o, "ret": ret, "obs": obs}));
            }
            Err(msg) => {
                steps.push(json!({"o": o, "ret": ["panic", msg], "obs": []}));
                break;
            }
        }
    }
    json!({"steps": steps})
}
