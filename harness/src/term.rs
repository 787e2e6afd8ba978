//! Evaluation of the byte-string terms of the specification (spec/KdbxTerm.tla).
//! Only primitives live here: hashes, ciphers, compression, base64, lengths.

use crate::dbjson::{hex, untext_str, unhex};
use aes::Aes256;
use base64::prelude::{Engine, BASE64_STANDARD};
use cipher::generic_array::GenericArray;
use cipher::{BlockDecryptMut, BlockEncrypt, BlockEncryptMut, KeyInit, KeyIvInit, StreamCipher};
use hmac::{Hmac, Mac};
use serde_json::Value;
use sha2::{Digest, Sha256, Sha512};
use std::collections::HashMap;
use std::io::{Read, Write};
use twofish::Twofish;

pub type Bytes = Vec<u8>;

pub struct Env {
    pub atoms: HashMap<String, Bytes>,
    /// Changes to make at a layer of a term, and what the layers' sizes were
    pub edits: HashMap<String, Vec<Value>>,
    pub sizes: HashMap<String, usize>,
    pub applied: bool,
    vars: Vec<(String, Bytes)>,
}

/// Integers are JSON numbers or little-endian hex strings
fn int(v: &Value) -> u64 {
    match v {
        Value::Number(n) => n.as_u64().expect("unsigned"),
        Value::String(s) => {
            let b = unhex(s);
            assert!(b.len() <= 8);
            b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
        }
        _ => panic!("not an integer: {}", v),
    }
}

pub fn sha256(d: &[u8]) -> Bytes {
    Sha256::digest(d).to_vec()
}

pub fn sha512(d: &[u8]) -> Bytes {
    Sha512::digest(d).to_vec()
}

pub fn hmac_sha256(key: &[u8], data: &[u8]) -> Bytes {
    let mut m = <Hmac<Sha256> as Mac>::new_from_slice(key).unwrap();
    m.update(data);
    m.finalize().into_bytes().to_vec()
}

pub fn aes_kdf(seed: &[u8], rounds: u64, key: &[u8]) -> Bytes {
    let c = Aes256::new_from_slice(seed).expect("AES-KDF seed of 32 bytes");
    let mut out = Vec::new();
    for half in key.chunks(16) {
        let mut b = *GenericArray::from_slice(half);
        for _ in 0..rounds {
            c.encrypt_block(&mut b);
        }
        out.extend_from_slice(&b);
    }
    out
}

pub fn argon2_raw(id: bool, v: u64, m_kib: u64, t: u64, p: u64, pw: &[u8], salt: &[u8]) -> Option<Bytes> {
    let cfg = argon2::Config {
        variant: if id { argon2::Variant::Argon2id } else { argon2::Variant::Argon2d },
        version: argon2::Version::from_u32(v as u32).ok()?,
        mem_cost: m_kib.try_into().ok()?,
        time_cost: t.try_into().ok()?,
        lanes: p.try_into().ok()?,
        ..Default::default()
    };
    argon2::hash_raw(pw, salt, &cfg).ok()
}

pub fn cbc(name: &str, enc: bool, key: &[u8], iv: &[u8], data: &[u8]) -> Option<Bytes> {
    if data.len() % 16 != 0 {
        return None;
    }
    let mut blocks: Vec<GenericArray<u8, _>> =
        data.chunks(16).map(|c| *GenericArray::from_slice(c)).collect();
    match (name, enc) {
        ("aes256", true) => cbc::Encryptor::<Aes256>::new_from_slices(key, iv).ok()?.encrypt_blocks_mut(&mut blocks),
        ("aes256", false) => cbc::Decryptor::<Aes256>::new_from_slices(key, iv).ok()?.decrypt_blocks_mut(&mut blocks),
        ("twofish", true) => cbc::Encryptor::<Twofish>::new_from_slices(key, iv).ok()?.encrypt_blocks_mut(&mut blocks),
        ("twofish", false) => cbc::Decryptor::<Twofish>::new_from_slices(key, iv).ok()?.decrypt_blocks_mut(&mut blocks),
        _ => panic!("cipher {}", name),
    }
    Some(blocks.concat())
}

pub fn chacha(key: &[u8], iv: &[u8], data: &[u8]) -> Option<Bytes> {
    let mut c = chacha20::ChaCha20::new_from_slices(key, iv).ok()?;
    let mut d = data.to_vec();
    c.apply_keystream(&mut d);
    Some(d)
}

/// `len` bytes of the inner stream starting at `off`
pub fn keystream(alg: &str, key: &[u8], off: usize, len: usize) -> Bytes {
    let mut d = vec![0u8; off + len];
    match alg {
        "chacha20" => {
            let h = sha512(key);
            chacha20::ChaCha20::new_from_slices(&h[..32], &h[32..44]).unwrap().apply_keystream(&mut d)
        }
        "salsa20" => {
            let iv = [0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a];
            salsa20::Salsa20::new_from_slices(&sha256(key), &iv).unwrap().apply_keystream(&mut d)
        }
        "null" => {}
        _ => panic!("inner stream {}", alg),
    }
    d.split_off(off)
}

pub fn gzip(data: &[u8], opts: &str) -> Bytes {
    use libflate::gzip::{EncodeOptions, Encoder, HeaderBuilder};
    let mut o = match opts {
        "store" => EncodeOptions::new().no_compression(),
        "fixed" => EncodeOptions::new().fixed_huffman_codes(),
        _ => EncodeOptions::new(),
    };
    if opts == "named" {
        let h = HeaderBuilder::new()
            .filename(std::ffi::CString::new("db").unwrap())
            .comment(std::ffi::CString::new("c").unwrap())
            .finish();
        o = o.header(h);
    }
    let mut e = Encoder::with_options(Vec::new(), o).unwrap();
    e.write_all(data).unwrap();
    e.finish().into_result().unwrap()
}

/// A single gzip member and nothing after it
pub fn gunzip(data: &[u8]) -> Option<Bytes> {
    let mut rest = data;
    let mut d = libflate::gzip::Decoder::new(&mut rest).ok()?;
    let mut out = Vec::new();
    d.read_to_end(&mut out).ok()?;
    if rest.is_empty() {
        Some(out)
    } else {
        None
    }
}

pub fn pkcs7(data: &[u8]) -> Bytes {
    let mut d = data.to_vec();
    let n = 16 - d.len() % 16;
    d.extend(std::iter::repeat(n as u8).take(n));
    d
}

impl Default for Env {
    fn default() -> Env {
        Env { atoms: HashMap::new(), edits: HashMap::new(), sizes: HashMap::new(), applied: true, vars: Vec::new() }
    }
}

impl Env {
    pub fn eval(&mut self, t: &Value) -> Bytes {
        let a = t.as_array().unwrap_or_else(|| panic!("not a term: {}", t));
        let op = a[0].as_str().expect("term operator");
        match op {
            "hex" => unhex(a[1].as_str().unwrap()),
            "text" => untext_str(a[1].as_str().unwrap()),
            "u8" => vec![int(&a[1]) as u8],
            "u16" => (int(&a[1]) as u16).to_le_bytes().to_vec(),
            "u32" => (int(&a[1]) as u32).to_le_bytes().to_vec(),
            "u64" => int(&a[1]).to_le_bytes().to_vec(),
            "cat" => a[1].as_array().unwrap().iter().flat_map(|x| self.eval(x)).collect(),
            "rep" => {
                let one = self.eval(&a[2]);
                one.repeat(int(&a[1]) as usize)
            }
            "noise" => noise(int(&a[1]), int(&a[2]) as usize),
            "len16" => (self.eval(&a[1]).len() as u16).to_le_bytes().to_vec(),
            "len32" => (self.eval(&a[1]).len() as u32).to_le_bytes().to_vec(),
            "slice" => {
                let d = self.eval(&a[1]);
                let (o, n) = (int(&a[2]) as usize, int(&a[3]) as usize);
                d[o..o + n].to_vec()
            }
            "sha256" => sha256(&self.eval(&a[1])),
            "sha512" => sha512(&self.eval(&a[1])),
            "hmac" => {
                let k = self.eval(&a[1]);
                hmac_sha256(&k, &self.eval(&a[2]))
            }
            "aeskdf" => {
                let seed = self.eval(&a[1]);
                aes_kdf(&seed, int(&a[2]), &self.eval(&a[3]))
            }
            "argon2" => {
                // variant, version, memory in bytes, iterations, lanes, password, salt
                let pw = self.eval(&a[6]);
                let salt = self.eval(&a[7]);
                argon2_raw(a[1] == "id", int(&a[2]), int(&a[3]) / 1024, int(&a[4]), int(&a[5]), &pw, &salt)
                    .expect("argon2 parameters")
            }
            "cbc" => {
                let key = self.eval(&a[2]);
                let iv = self.eval(&a[3]);
                let d = self.eval(&a[4]);
                cbc(a[1].as_str().unwrap(), true, &key, &iv, &d).expect("cbc")
            }
            "chacha20" => {
                let key = self.eval(&a[1]);
                let iv = self.eval(&a[2]);
                let d = self.eval(&a[3]);
                chacha(&key, &iv, &d).expect("chacha20")
            }
            "pkcs7" => pkcs7(&self.eval(&a[1])),
            "gzip" => gzip(&self.eval(&a[2]), a[1].as_str().unwrap()),
            "gunzip" => gunzip(&self.eval(&a[1])).expect("gzip data"),
            "b64" => BASE64_STANDARD.encode(self.eval(&a[1])).into_bytes(),
            "xor" => {
                let x = self.eval(&a[1]);
                let y = self.eval(&a[2]);
                assert_eq!(x.len(), y.len(), "xor of different lengths");
                x.iter().zip(&y).map(|(p, q)| p ^ q).collect()
            }
            "keystream" => {
                let key = self.eval(&a[2]);
                keystream(a[1].as_str().unwrap(), &key, int(&a[3]) as usize, int(&a[4]) as usize)
            }
            "atom" => self.atoms.get(a[1].as_str().unwrap()).expect("atom").clone(),
            "let" => {
                let v = self.eval(&a[2]);
                self.vars.push((a[1].as_str().unwrap().to_string(), v));
                let r = self.eval(&a[3]);
                self.vars.pop();
                r
            }
            "ref" => {
                let n = a[1].as_str().unwrap();
                self.vars.iter().rev().find(|(k, _)| k == n).unwrap_or_else(|| panic!("unbound {}", n)).1.clone()
            }
            // data, sizes (the last one repeats), term for each chunk, term for the end;
            // bound: c (chunk), i (its number, 8 bytes)
            "chunks" => {
                let d = self.eval(&a[1]);
                let sizes: Vec<usize> = a[2].as_array().unwrap().iter().map(|x| int(x) as usize).collect();
                let mut out = Vec::new();
                let (mut pos, mut i) = (0usize, 0usize);
                while pos < d.len() {
                    let n = sizes[i.min(sizes.len() - 1)].min(d.len() - pos);
                    assert!(n > 0);
                    self.vars.push(("c".into(), d[pos..pos + n].to_vec()));
                    self.vars.push(("i".into(), (i as u64).to_le_bytes().to_vec()));
                    out.extend(self.eval(&a[3]));
                    self.vars.truncate(self.vars.len() - 2);
                    pos += n;
                    i += 1;
                }
                self.vars.push(("c".into(), Vec::new()));
                self.vars.push(("i".into(), (i as u64).to_le_bytes().to_vec()));
                out.extend(self.eval(&a[4]));
                self.vars.truncate(self.vars.len() - 2);
                out
            }
            "layer" => {
                let name = a[1].as_str().unwrap();
                let mut d = self.eval(&a[2]);
                if let Some(edits) = self.edits.get(name) {
                    for e in edits {
                        self.applied &= crate::probe::edit(&mut d, e);
                    }
                }
                self.sizes.insert(name.into(), d.len());
                if name == "packed" {
                    self.sizes.insert("unfolded".into(), crate::probe::unfolded(&d));
                }
                d
            }
            "xml" => {
                let mut out = Vec::new();
                self.xml(&a[1], &mut out);
                out
            }
            _ => panic!("term operator {}", op),
        }
    }

    /// A document tree with its layout
    fn xml(&mut self, n: &Value, out: &mut Bytes) {
        let kind = n["t"].as_str().expect("xml node kind");
        match kind {
            "el" => {
                let name = n["n"].as_str().unwrap();
                out.push(b'<');
                out.extend_from_slice(name.as_bytes());
                for at in n["a"].as_array().unwrap() {
                    let q = at[2].as_str().unwrap_or("\"");
                    out.push(b' ');
                    out.extend_from_slice(at[0].as_str().unwrap().as_bytes());
                    out.push(b'=');
                    out.extend_from_slice(q.as_bytes());
                    out.extend_from_slice(&escape(&untext_str(at[1].as_str().unwrap()), true));
                    out.extend_from_slice(q.as_bytes());
                }
                let kids = n["c"].as_array().unwrap();
                if kids.is_empty() && n["short"] == true {
                    out.extend_from_slice(b"/>");
                    return;
                }
                out.push(b'>');
                for k in kids {
                    self.xml(k, out);
                }
                out.extend_from_slice(b"</");
                out.extend_from_slice(name.as_bytes());
                out.push(b'>');
            }
            "text" => out.extend(escape(&untext_str(n["x"].as_str().unwrap()), false)),
            "raw" => out.extend(untext_str(n["x"].as_str().unwrap())),
            "cdata" => {
                out.extend_from_slice(b"<![CDATA[");
                out.extend(untext_str(n["x"].as_str().unwrap()));
                out.extend_from_slice(b"]]>");
            }
            "refs" => {
                for c in String::from_utf8(untext_str(n["x"].as_str().unwrap())).unwrap().chars() {
                    let r = if c as u32 % 2 == 0 { format!("&#{};", c as u32) } else { format!("&#x{:X};", c as u32) };
                    out.extend_from_slice(r.as_bytes());
                }
            }
            "comment" => {
                out.extend_from_slice(b"<!--");
                out.extend(untext_str(n["x"].as_str().unwrap()));
                out.extend_from_slice(b"-->");
            }
            "term" => {
                let b = self.eval(&n["x"]);
                out.extend(b);
            }
            "seq" => {
                for k in n["c"].as_array().unwrap() {
                    self.xml(k, out);
                }
            }
            _ => panic!("xml node {}", kind),
        }
    }
}

fn escape(s: &[u8], attr: bool) -> Bytes {
    let mut out = Vec::new();
    for b in s {
        match b {
            b'<' => out.extend_from_slice(b"&lt;"),
            b'>' => out.extend_from_slice(b"&gt;"),
            b'&' => out.extend_from_slice(b"&amp;"),
            b'\r' => out.extend_from_slice(b"&#13;"),
            b'"' if attr => out.extend_from_slice(b"&quot;"),
            b'\'' if attr => out.extend_from_slice(b"&apos;"),
            _ => out.push(*b),
        }
    }
    out
}

/// Reproducible incompressible bytes
pub fn noise(seed: u64, len: usize) -> Bytes {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
    let mut out = Vec::with_capacity(len + 8);
    while out.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        out.extend_from_slice(&x.wrapping_mul(0x2545_F491_4F6C_DD1D).to_le_bytes());
    }
    out.truncate(len);
    out
}

/// Printable text of exactly `len` bytes
pub fn noise_text(seed: u64, len: usize) -> Bytes {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    noise(seed, len).into_iter().map(|b| A[(b & 63) as usize]).collect()
}

/// {"term": t} -> {"hex": ..}; {"term", "file", "eqs"} compares with a file's bytes
pub fn run_case(case: &Value) -> Value {
    let mut env = Env::default();
    if let Some(atoms) = case["atoms"].as_object() {
        for (k, v) in atoms {
            env.atoms.insert(k.clone(), blob(v));
        }
    }
    let got = env.eval(&case["term"]);
    let mut bad = Vec::new();
    if !case["file"].is_null() {
        let want = blob(&case["file"]);
        if want != got {
            let at = want.iter().zip(&got).position(|(x, y)| x != y).unwrap_or(want.len().min(got.len()));
            bad.push(format!("file of {} bytes, specified {} bytes, first difference at {}", want.len(), got.len(), at));
        }
    }
    for e in case["eqs"].as_array().unwrap_or(&Vec::new()) {
        if env.eval(&e[1]) != env.eval(&e[2]) {
            bad.push(format!("{} differs", e[0]));
        }
    }
    if case["want"] == "hex" {
        return serde_json::json!({"hex": hex(&got)});
    }
    serde_json::json!({"len": got.len(), "bad": bad})
}

/// Bytes given as hex or as the path of a file ("@path")
pub fn blob(v: &Value) -> Bytes {
    let s = v.as_str().expect("blob");
    match s.strip_prefix('@') {
        Some(p) => std::fs::read(p).expect("blob file"),
        None => unhex(s),
    }
}
