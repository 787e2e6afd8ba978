//! An independent reader of KDBX 4 files and of database XML. What it returns
//! is not trusted: the specification rebuilds the file from it.

use crate::dbjson::{hex, text_bytes, untext_str};
use crate::term::*;
use base64::prelude::{Engine, BASE64_STANDARD};
use serde_json::{json, Value};

pub struct Decoded {
    pub json: Value,
    pub xml: Vec<u8>,
    /// compressed payload, if there is one
    pub gz: Option<Vec<u8>>,
}

struct Cur<'a>(&'a [u8]);

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err("file ends early".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u32(&mut self) -> Result<usize, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as usize)
    }
    fn tlv(&mut self) -> Result<(u8, &'a [u8]), String> {
        let id = self.take(1)?[0];
        let n = self.u32()?;
        Ok((id, self.take(n)?))
    }
}

pub fn digest_token(d: &[u8]) -> String {
    format!("a{:010}:{}", d.len(), hex(&sha256(d)[..16]))
}

fn le(d: &[u8]) -> u64 {
    d.iter().take(8).rev().fold(0, |a, b| a << 8 | *b as u64)
}

pub fn composite(creds: &Value) -> Vec<u8> {
    let mut parts = Vec::new();
    if creds["pw"] != "none" {
        parts.extend(sha256(&untext_str(creds["pw"].as_str().unwrap())));
    }
    if creds["kf"] != "none" {
        parts.extend(sha256(&blob(&creds["kf"])));
    }
    sha256(&parts)
}

pub fn decode(file: &[u8], creds: &Value) -> Result<Decoded, String> {
    let mut c = Cur(file);
    if c.take(8)? != [0x03, 0xd9, 0xa2, 0x9a, 0x67, 0xfb, 0x4b, 0xb5] {
        return Err("signature".into());
    }
    let v = c.take(4)?;
    let (minor, major) = (le(&v[..2]), le(&v[2..4]));
    if major != 4 {
        return Err("version".into());
    }
    let mut fields = Vec::new();
    loop {
        let (id, data) = c.tlv()?;
        fields.push((id, data));
        if id == 0 {
            break;
        }
    }
    let get = |id: u8| fields.iter().find(|f| f.0 == id).map(|f| f.1).ok_or(format!("field {}", id));
    // files without parameters have the fields of earlier versions
    let legacy = get(11).is_err();
    let mut vd = Cur(if legacy { &[0, 0, 0] } else { get(11)? });
    let vdver = vd.take(2)?;
    let mut vdict = Vec::new();
    loop {
        let t = vd.take(1)?[0];
        if t == 0 {
            break;
        }
        let n = vd.u32()?;
        let k = vd.take(n)?;
        let n = vd.u32()?;
        vdict.push((t, k, vd.take(n)?));
    }
    let vdrest = vd.0;
    let par = |k: &str| vdict.iter().find(|e| e.1 == k.as_bytes()).map(|e| e.2).ok_or(format!("parameter {}", k));
    let comp = composite(creds);
    let kdf = if legacy { "legacy".into() } else { hex(par("$UUID")?) };
    let master = match kdf.as_str() {
        "legacy" if get(5)?.len() == 32 => sha256(&aes_kdf(get(5)?, le(get(6)?), &comp)),
        "c9d9f39a628a4460bf740d08c18a4fea" | "7c02bb8279a74ac0927d114a00648238" => {
            let s = par("S")?;
            if s.len() != 32 {
                return Err("AES-KDF seed".into());
            }
            sha256(&aes_kdf(s, le(par("R")?), &comp))
        }
        u @ ("ef636ddf8c29444b91f7a9a403e30a0c" | "9e298b1956db4773b23dfc3ec6f0a1e6") => argon2_raw(
            u.starts_with('9'), le(par("V")?), le(par("M")?) / 1024, le(par("I")?), le(par("P")?), &comp, par("S")?,
        )
        .ok_or("argon2 parameters")?,
        _ => return Err("key derivation".into()),
    };
    let hlen = file.len() - c.0.len();
    if c.take(32)? != sha256(&file[..hlen]) {
        return Err("header hash".into());
    }
    let seed = get(4)?;
    let hmac_base = sha512(&[seed, &master, &[1]].concat());
    let block_key = |i: u64| sha512(&[&i.to_le_bytes()[..], &hmac_base].concat());
    if c.take(32)? != hmac_sha256(&block_key(u64::MAX), &file[..hlen]) {
        return Err("header HMAC".into());
    }
    let mut sizes = Vec::new();
    let mut data = Vec::new();
    for i in 0u64.. {
        let mac = c.take(32)?;
        let n = c.u32()?;
        let d = c.take(n)?;
        if mac != hmac_sha256(&block_key(i), &[&i.to_le_bytes()[..], &(n as u32).to_le_bytes(), d].concat()) {
            return Err(format!("HMAC of block {}", i));
        }
        if n == 0 {
            break;
        }
        sizes.push(n);
        data.extend_from_slice(d);
    }
    if !c.0.is_empty() {
        return Err("data after the last block".into());
    }
    let key = sha256(&[seed, &master].concat());
    let iv = get(7)?;
    let plain = match hex(get(2)?).as_str() {
        "31c1f2e6bf714350be5805216afc5aff" => cbc("aes256", false, &key, iv, &data),
        "ad68f29f576f4bb9a36ad47af965346c" => cbc("twofish", false, &key, iv, &data),
        "d6038a2b8b6f4cb5a524339a31dbb59a" => chacha(&key, iv, &data),
        _ => return Err("cipher".into()),
    }
    .ok_or("length of data or IV")?;
    let plain = if iv.len() == 16 {
        let n = *plain.last().ok_or("no data")? as usize;
        if n == 0 || n > 16 || !plain.ends_with(&vec![n as u8; n]) {
            return Err("padding".into());
        }
        plain[..plain.len() - n].to_vec()
    } else {
        plain
    };
    let (payload, gz) = match le(get(3)?) {
        0 => (plain, None),
        1 => (gunzip(&plain).ok_or("gzip data")?, Some(plain)),
        _ => return Err("compression".into()),
    };
    let mut p = Cur(&payload);
    let mut inner = Vec::new();
    loop {
        let (id, d) = p.tlv()?;
        inner.push((id, d));
        if id == 0 {
            break;
        }
    }
    let iget = |id: u8| inner.iter().find(|f| f.0 == id).map(|f| f.1).ok_or(format!("inner field {}", id));
    let alg = match le(iget(1)?) {
        2 => "salsa20",
        3 => "chacha20",
        _ => return Err("inner stream".into()),
    };
    let xml = p.0.to_vec();
    let doc = document(&xml, alg, iget(2)?)?;
    let tl = |f: &[(u8, &[u8])]| f.iter().map(|(i, d)| json!({"id": i, "data": hex(d)})).collect::<Vec<_>>();
    let json = json!({
        "minor": minor, "fields": tl(&fields),
        "vdver": hex(vdver), "vdrest": hex(vdrest),
        "vdict": vdict.iter().map(|(t, k, v)| json!([t, text_bytes(k), hex(v)])).collect::<Vec<_>>(),
        "sizes": sizes, "inner": tl(&inner), "gz": gz.is_some(), "alg": alg,
        "xml": digest_token(&xml), "doc": doc,
    });
    Ok(Decoded { json, xml, gz })
}

// ---- XML -------------------------------------------------------------------

struct Xml<'a> {
    s: &'a [u8],
    p: usize,
    alg: &'a str,
    key: &'a [u8],
    off: usize,
}

/// The element tree: {"n", "a": [[name, text]], "x": text directly inside,
/// "c": elements, "d": [{"off","len","x"}] for a protected element}
pub fn document(xml: &[u8], alg: &str, key: &[u8]) -> Result<Value, String> {
    document_at(xml, alg, key, 0)
}

/// The same for a stream of which some bytes have been used
pub fn document_at(xml: &[u8], alg: &str, key: &[u8], off: usize) -> Result<Value, String> {
    std::str::from_utf8(xml).map_err(|_| "XML is not UTF-8")?;
    // line ends are normalised before parsing
    let s = String::from_utf8(xml.to_vec()).unwrap().replace("\r\n", "\n").replace('\r', "\n");
    let mut x = Xml { s: s.as_bytes(), p: 0, alg, key, off };
    x.misc(true)?;
    let root = x.element(0)?;
    x.misc(false)?;
    if x.p != x.s.len() {
        return Err("text after the document".into());
    }
    Ok(root)
}

impl Xml<'_> {
    fn at(&self, t: &str) -> bool {
        self.s[self.p..].starts_with(t.as_bytes())
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("XML: {} at {}", m, self.p))
    }
    fn until(&mut self, t: &str) -> Result<Vec<u8>, String> {
        match self.s[self.p..].windows(t.len()).position(|w| w == t.as_bytes()) {
            Some(n) => {
                let r = self.s[self.p..self.p + n].to_vec();
                self.p += n + t.len();
                Ok(r)
            }
            None => self.err("unterminated"),
        }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && b" \t\r\n".contains(&self.s[self.p]) {
            self.p += 1;
        }
    }
    fn misc(&mut self, start: bool) -> Result<(), String> {
        if start && self.at("\u{feff}") {
            self.p += 3;
        }
        loop {
            self.ws();
            if self.at("<!--") {
                self.p += 4;
                self.until("-->")?;
            } else if self.at("<?") {
                self.p += 2;
                self.until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let b = self.p;
        while self.p < self.s.len() && !b" \t\r\n/>=<\"'&".contains(&self.s[self.p]) {
            self.p += 1;
        }
        if b == self.p {
            return self.err("name expected");
        }
        Ok(String::from_utf8(self.s[b..self.p].to_vec()).unwrap())
    }
    fn reference(&mut self, out: &mut Vec<u8>) -> Result<(), String> {
        self.p += 1;
        let r = String::from_utf8(self.until(";")?).unwrap();
        let c = match r.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = r.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else {
                    r.strip_prefix('#').and_then(|d| d.parse().ok())
                };
                match n.and_then(char::from_u32) {
                    Some(c) if xml_char(c) => c,
                    _ => return self.err("reference"),
                }
            }
        };
        let mut b = [0u8; 4];
        out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        Ok(())
    }
    fn element(&mut self, depth: usize) -> Result<Value, String> {
        if depth > 2000 {
            return self.err("too deep");
        }
        if !self.at("<") {
            return self.err("element expected");
        }
        self.p += 1;
        let name = self.name()?;
        let mut attrs = Vec::new();
        let mut protected = false;
        loop {
            self.ws();
            if self.at("/>") || self.at(">") {
                break;
            }
            let k = self.name()?;
            self.ws();
            if !self.at("=") {
                return self.err("= expected");
            }
            self.p += 1;
            self.ws();
            if self.p >= self.s.len() || !b"\"'".contains(&self.s[self.p]) {
                return self.err("quote expected");
            }
            let q = self.s[self.p];
            self.p += 1;
            let mut v = Vec::new();
            loop {
                match self.s.get(self.p) {
                    None | Some(b'<') => return self.err("attribute value"),
                    Some(b'&') => self.reference(&mut v)?,
                    Some(c) if *c == q => break,
                    Some(c) => {
                        v.push(*c);
                        self.p += 1;
                    }
                }
            }
            self.p += 1;
            if k == "Protected" && v.eq_ignore_ascii_case(b"true") {
                protected = true;
            }
            attrs.push(json!([k, text_bytes(&v)]));
        }
        let mut txt = Vec::new();
        let mut kids = Vec::new();
        if self.at("/>") {
            self.p += 2;
        } else {
            self.p += 1;
            loop {
                if self.at("</") {
                    self.p += 2;
                    if self.name()? != name {
                        return self.err("end tag");
                    }
                    self.ws();
                    if !self.at(">") {
                        return self.err("end tag");
                    }
                    self.p += 1;
                    break;
                } else if self.at("<!--") {
                    self.p += 4;
                    self.until("-->")?;
                } else if self.at("<![CDATA[") {
                    self.p += 9;
                    txt.extend(self.until("]]>")?);
                } else if self.at("<?") {
                    self.p += 2;
                    self.until("?>")?;
                } else if self.at("<") {
                    kids.push(self.element(depth + 1)?);
                } else if self.at("&") {
                    self.reference(&mut txt)?;
                } else if self.at("]]>") {
                    return self.err("]]> in text");
                } else {
                    match self.s.get(self.p) {
                        None => return self.err("document ends early"),
                        Some(c) => {
                            txt.push(*c);
                            self.p += 1;
                        }
                    }
                }
            }
        }
        if !std::str::from_utf8(&txt).map(|t| t.chars().all(xml_char)).unwrap_or(false) {
            return self.err("character not allowed");
        }
        let mut d = Vec::new();
        if protected {
            let t = std::str::from_utf8(&txt).unwrap().trim();
            match BASE64_STANDARD.decode(t) {
                Ok(ct) => {
                    let ks = keystream(self.alg, self.key, self.off, ct.len());
                    let pt: Vec<u8> = ct.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
                    d.push(json!({"off": self.off, "len": ct.len(), "x": text_bytes(&pt)}));
                    self.off += ct.len();
                }
                Err(_) => return self.err("protected value is not base64"),
            }
        }
        Ok(json!({"n": name, "a": attrs, "x": text_bytes(&txt), "c": kids, "d": d}))
    }
}

fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
