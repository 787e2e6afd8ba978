//! The command-line tools (spec/KdbxTools.tla): scripts of creating files in a
//! scratch directory and running tools there.

use crate::arch::{composite, obs_unlocked};
use crate::dbjson::*;
use crate::decode::{decode, digest_token};
use crate::runner::guarded;
use crate::term::{blob, Env};
use kdbx_rs::Kdbx;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct World {
    dir: PathBuf,
    /// databases of the files put there
    dbs: HashMap<String, Value>,
}

/// Names in the directory with the digests of their contents
fn listing(dir: &Path) -> Value {
    let mut l: Vec<Value> = Vec::new();
    for e in std::fs::read_dir(dir).expect("scratch directory") {
        let e = e.expect("scratch directory");
        let name = text(&e.file_name().to_string_lossy());
        let what = match e.file_type().unwrap().is_file() {
            true => digest_token(&std::fs::read(e.path()).unwrap()),
            false => "dir".into(),
        };
        l.push(json!([name, what]));
    }
    l.sort_by_key(|v| v.to_string());
    json!(l)
}

/// All texts of a database that are not protected
fn texts(db: &Value) -> Vec<String> {
    fn fields(v: &Value, out: &mut Vec<Value>) {
        for f in v.as_array().unwrap() {
            out.push(f["k"].clone());
            if f["p"] == false {
                out.push(f["v"].clone());
            }
        }
    }
    fn entry(e: &Value, out: &mut Vec<Value>) {
        fields(&e["fields"], out);
        e["hist"].as_array().unwrap().iter().for_each(|h| entry(h, out));
    }
    fn group(g: &Value, out: &mut Vec<Value>) {
        out.push(g["name"].clone());
        g["entries"].as_array().unwrap().iter().for_each(|e| entry(e, out));
        g["groups"].as_array().unwrap().iter().for_each(|c| group(c, out));
    }
    let mut out = vec![db["meta"]["name"].clone(), db["meta"]["desc"].clone()];
    fields(&db["meta"]["custom"], &mut out);
    group(&db["root"], &mut out);
    out.iter().filter(|t| *t != "none" && *t != "x").map(|t| format!("{:?}", untext(t))).collect()
}

/// The decimal numbers of a text
fn numbers(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|p| !p.is_empty()).filter_map(|p| p.parse().ok()).collect()
}

fn bytes_of(s: &str) -> String {
    let n = numbers(s);
    if n.iter().any(|x| *x > 255) {
        return "not bytes".into();
    }
    hex(&n.iter().map(|x| *x as u8).collect::<Vec<_>>())
}

fn uuid_in(s: &str) -> Option<String> {
    s.split(|c: char| !(c.is_ascii_hexdigit() || c == '-'))
        .find_map(|p| (p.len() == 36).then(|| uuid::Uuid::parse_str(p).ok()).flatten())
        .map(|u| hex(u.as_bytes()))
}

const FIELDS: [&str; 13] = [
    "EndOfHeader", "Comment", "CipherId", "CompressionFlags", "MasterSeed", "LegacyTransformSeed",
    "LegacyTransformRounds", "EncryptionIv", "ProtectedStreamKey", "StreamStartBytes", "InnerRandomStreamId",
    "KdfParameters", "PublicCustomData",
];

/// Header fields as printed: [{id, data}]
fn others(s: &str) -> Value {
    let mut out = Vec::new();
    let mut rest = s;
    while let Some(p) = rest.find("data:") {
        let before = &rest[..p];
        let after = &rest[p + 5..];
        let end = after.find(']').unwrap_or(after.len());
        let ty = before.rfind("ty:").map(|q| &before[q + 3..]).unwrap_or("");
        let ty = ty.trim().trim_end_matches(',');
        let id = match FIELDS.iter().position(|f| *f == ty) {
            Some(i) => i as u64,
            None => numbers(ty).first().copied().unwrap_or(999),
        };
        out.push(json!({"id": id, "data": bytes_of(&after[..end])}));
        rest = &after[end..];
    }
    json!(out)
}

/// What a printed header says, in the notation of the specification
fn header(out: &str) -> Value {
    let get = |label: &str| -> Vec<&str> {
        out.lines().filter_map(|l| l.trim().strip_prefix(label)).filter_map(|l| l.strip_prefix(':')).map(str::trim).collect()
    };
    let one = |label: &str| match get(label).as_slice() {
        [v] => v.to_string(),
        l => format!("{} times {}", l.len(), label),
    };
    let num = |label: &str| numbers(&one(label)).first().copied().unwrap_or(u64::MAX);
    let cipher = one("Cipher");
    let comp = one("Compression");
    let kdf = one("KDF");
    let has = |s: &str, p: &str| s.to_lowercase().contains(p);
    let cipher = match uuid_in(&cipher) {
        Some(u) => u,
        None if has(&cipher, "aes") => "31c1f2e6bf714350be5805216afc5aff".into(),
        None if has(&cipher, "twofish") => "ad68f29f576f4bb9a36ad47af965346c".into(),
        None if has(&cipher, "chacha") => "d6038a2b8b6f4cb5a524339a31dbb59a".into(),
        None => format!("? {}", cipher),
    };
    let comp = match numbers(&comp).first() {
        Some(n) => hex(&(*n as u32).to_le_bytes()),
        None if has(&comp, "none") => "00000000".into(),
        None if has(&comp, "gzip") => "01000000".into(),
        None => format!("? {}", comp),
    };
    // the first version is that of the file
    let argon_version = match get("Version").as_slice() {
        [_, v] => numbers(v).first().map(|n| *n as u32).unwrap_or(u32::MAX),
        _ => u32::MAX,
    };
    let salt = || bytes_of(&one("Salt"));
    let kdf = match uuid_in(&kdf) {
        Some(u) => json!({"uuid": u, "p": []}),
        None if has(&kdf, "argon2") => json!({
            "uuid": match one("Variant").to_lowercase().as_str() {
                "argon2d" => "ef636ddf8c29444b91f7a9a403e30a0c",
                "argon2id" => "9e298b1956db4773b23dfc3ec6f0a1e6",
                _ => "?",
            },
            "p": [
                [text("I"), 5, hex(&num("Iterations").to_le_bytes())],
                [text("M"), 5, hex(&num("Memory").to_le_bytes())],
                [text("P"), 4, hex(&(num("Lanes") as u32).to_le_bytes())],
                [text("S"), 66, salt()],
                [text("V"), 4, hex(&argon_version.to_le_bytes())],
            ],
        }),
        None if has(&kdf, "aes") => json!({
            "uuid": "7c02bb8279a74ac0927d114a00648238",
            "p": [[text("R"), 5, hex(&num("Rounds").to_le_bytes())], [text("S"), 66, salt()]],
        }),
        None => json!({"uuid": kdf, "p": []}),
    };
    json!({
        "ver": numbers(get("Version").first().copied().unwrap_or("")),
        "cipher": cipher, "comp": comp, "kdf": kdf, "seed": bytes_of(&one("Master Seed")),
        "iv": bytes_of(&one("Encryption IV")), "others": others(&one("Other headers")),
    })
}

impl World {
    fn step(&mut self, o: &Value, bins: &Path) -> Value {
        let path = |f: &Value| self.dir.join(untext(f));
        match o["op"].as_str().unwrap() {
            "put" => {
                let d = Env::default().eval(&o["term"]);
                std::fs::write(path(&o["f"]), &d).unwrap();
                let raw = digest_token(&Env::default().eval(&o["xml"]));
                self.dbs.insert(o["f"].as_str().unwrap().into(), o["d"]["db"].clone());
                json!({"dig": digest_token(&d), "raw": raw})
            }
            "junk" => {
                let d = blob(&o["hex"]);
                std::fs::write(path(&o["f"]), &d).unwrap();
                json!({"dig": digest_token(&d)})
            }
            "mkdir" => {
                std::fs::create_dir(path(&o["f"])).unwrap();
                json!({"dig": "dir"})
            }
            "run" => {
                let tool = o["tool"].as_str().unwrap();
                let mut cmd = Command::new("timeout");
                cmd.args(["-k", "5", "100"]).arg(bins.join(tool)).current_dir(&self.dir);
                for a in o["args"].as_array().unwrap() {
                    cmd.arg(untext(a));
                }
                let r = cmd.stdin(Stdio::null()).output().expect("cannot start");
                let (out, err) = (String::from_utf8_lossy(&r.stdout), String::from_utf8_lossy(&r.stderr));
                let end = match r.status.code() {
                    Some(0) => "ok",
                    Some(124) | Some(137) => "hangs",
                    Some(126) | Some(127) => {
                        eprintln!("cannot run {}: {}", tool, err);
                        std::process::exit(2)
                    }
                    _ if err.contains("panicked at") => "panic",
                    Some(n) if n < 128 => "err",
                    _ => "killed",
                };
                let body = match r.stdout.split_last() {
                    Some((b'\n', rest)) => digest_token(rest),
                    _ => digest_token(&r.stdout),
                };
                let mut ret = json!({
                    "end": end, "out": r.stdout.len(), "msg": r.stderr.len(), "body": body, "whole": digest_token(&r.stdout), "dir": listing(&self.dir),
                    "usage": format!("{}{}", out, err).to_lowercase().contains("usage"),
                });
                match (tool, end) {
                    ("kdbx-dump-header", "ok") => ret["hdr"] = header(&out),
                    ("kdbx-parse", "ok") => {
                        let pw = o["args"].get(1).map(untext).unwrap_or("kdbxrs".into());
                        let k = kdbx_rs::open(path(&o["args"][0])).ok();
                        let k = k.and_then(|k| k.unlock(&kdbx_rs::CompositeKey::from_password(&pw)).ok());
                        ret["lib"] = match k {
                            Some(k) => json!(digest_token(format!("{:#?}", k.database()).as_bytes())),
                            None => json!("none"),
                        };
                        let db = self.dbs.get(o["args"][0].as_str().unwrap());
                        let absent = db.map(texts).unwrap_or_default().iter().filter(|t| !out.contains(*t)).count();
                        ret["absent"] = json!(absent);
                    }
                    ("kdbx-generate", _) => self.dbs.clear(),
                    _ => {}
                }
                ret
            }
            "look" => {
                let data = match std::fs::read(path(&o["f"])) {
                    Ok(d) => d,
                    Err(_) => return json!({"end": "no file"}),
                };
                match kdbx_rs::from_reader(data.as_slice()) {
                    Err(_) => json!({"end": "not opened"}),
                    Ok(k) => match Kdbx::unlock(k, &composite(o)) {
                        Err(_) => json!({"end": "not unlocked"}),
                        Ok(k) => json!({"end": "ok", "obs": obs_unlocked(&k), "exact": decode(&data, o).is_ok()}),
                    },
                }
            }
            op => panic!("operation {}", op),
        }
    }
}

/// {"steps": [operation]} -> {"steps": [{o, ret}]}, in a directory of its own
pub fn run_case(case: &Value) -> Value {
    let bins = PathBuf::from(std::env::var("KVH_BINS").expect("KVH_BINS"));
    let scratch = PathBuf::from(std::env::var("KVH_SCRATCH").expect("KVH_SCRATCH"));
    let dir = scratch.join(format!("d{}", case["id"]));
    std::fs::create_dir(&dir).expect("scratch directory");
    let mut w = World { dir, dbs: HashMap::new() };
    let mut steps = Vec::new();
    for o in case["steps"].as_array().unwrap() {
        let ret = guarded(|| w.step(o, &bins));
        let mut o = o.clone();
        if let Some(m) = o.as_object_mut() {
            m.remove("term");
            m.remove("xml");
        }
        match ret {
            Ok(ret) => steps.push(json!({"o": o, "ret": ret})),
            Err(msg) => {
                steps.push(json!({"o": o, "ret": {"end": "panic", "msg": msg}}));
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&w.dir);
    json!({ "steps": steps })
}
