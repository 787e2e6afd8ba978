//! Codes of the format, their names in the library, typed dictionary values

use crate::dbjson::{hex, unhex};
use crate::runner::guarded;
use kdbx_rs::binary::{Cipher, CompressionType, InnerHeaderId, InnerStreamCipherAlgorithm, KdfAlgorithm, OuterHeaderId, VariantDictValue};
use serde_json::{json, Value};
use uuid::Uuid;

macro_rules! kind {
    ($ty:ident, $code:ty, $from:expr, $to:expr, [$($name:ident),*]) => {
        (
            |v: $ty| -> Value {
                #[allow(unreachable_patterns)]
                match v {
                    $($ty::$name => json!([stringify!($name), ""]),)*
                    $ty::Unknown(x) => json!(["Unknown", $to(x)]),
                    _ => json!(["other", ""]),
                }
            },
            |s: &str| -> $ty {
                match s {
                    $(stringify!($name) => $ty::$name,)*
                    _ => panic!("name {}", s),
                }
            },
            |s: &str| -> $code { $from(s) },
            |c: $code| -> String { $to(c) },
        )
    };
}

macro_rules! convert {
    ($k:expr, $ty:ident, $code:ty, $o:expr) => {{
        let (name, named, from, to) = $k;
        let x = $o["x"].as_str().unwrap();
        match $o["t"].as_str().unwrap() {
            "code" => {
                let v = $ty::from(from(x));
                json!({"t": "code", "x": x, "read": name(v), "back": to(<$code>::from(v))})
            }
            "name" => {
                let code = <$code>::from(named(x));
                json!({"t": "name", "x": x, "back": to(code), "read": name($ty::from(code))})
            }
            _ => json!({"t": "unknown", "x": x, "back": to(<$code>::from($ty::Unknown(from(x))))}),
        }
    }};
}

fn u8_of(s: &str) -> u8 {
    unhex(s)[0]
}
fn u32_of(s: &str) -> u32 {
    u32::from_le_bytes(unhex(s).try_into().unwrap())
}
fn uuid_of(s: &str) -> Uuid {
    Uuid::from_slice(&unhex(s)).unwrap()
}
fn of_u8(x: u8) -> String {
    hex(&[x])
}
fn of_u32(x: u32) -> String {
    hex(&x.to_le_bytes())
}
fn of_uuid(x: Uuid) -> String {
    hex(x.as_bytes())
}

fn dict(o: &Value) -> Value {
    let x = o["x"].as_str().unwrap();
    let from = o["from"].as_str().unwrap();
    let b = unhex(x);
    let v = || match from {
        "u32" => VariantDictValue::Uint32(u32::from_le_bytes(b[..].try_into().unwrap())),
        "u64" => VariantDictValue::Uint64(u64::from_le_bytes(b[..].try_into().unwrap())),
        "bool" => VariantDictValue::Boolean(b[0] != 0),
        "i32" => VariantDictValue::Int32(i32::from_le_bytes(b[..].try_into().unwrap())),
        "i64" => VariantDictValue::Int64(i64::from_le_bytes(b[..].try_into().unwrap())),
        "String" => VariantDictValue::String(String::from_utf8(b.clone()).unwrap()),
        "Vec<u8>" => VariantDictValue::Array(b.clone()),
        _ => VariantDictValue::Unknown(b[0], b[1..].to_vec()),
    };
    fn res<T>(r: Option<T>, f: impl Fn(T) -> Vec<u8>) -> Value {
        r.map(|t| json!(["ok", hex(&f(t))])).unwrap_or(json!(["err", ""]))
    }
    let to = json!([
        res(u32::try_from(v()).ok(), |t| t.to_le_bytes().to_vec()),
        res(u64::try_from(v()).ok(), |t| t.to_le_bytes().to_vec()),
        res(bool::try_from(v()).ok(), |t| vec![t as u8]),
        res(i32::try_from(v()).ok(), |t| t.to_le_bytes().to_vec()),
        res(i64::try_from(v()).ok(), |t| t.to_le_bytes().to_vec()),
        res(String::try_from(v()).ok(), |t| t.into_bytes()),
        res(Vec::<u8>::try_from(v()).ok(), |t| t),
        res(<(u8, Vec<u8>)>::try_from(v()).ok(), |(a, t)| [vec![a], t].concat()),
    ]);
    json!({"t": "dict", "from": from, "x": x, "to": to})
}

fn one(kind: &str, o: &Value) -> Value {
    match kind {
        "outer" => convert!(
            kind!(OuterHeaderId, u8, u8_of, of_u8, [
                EndOfHeader, Comment, CipherId, CompressionFlags, MasterSeed, LegacyTransformSeed, LegacyTransformRounds, EncryptionIv,
                ProtectedStreamKey, StreamStartBytes, InnerRandomStreamId, KdfParameters, PublicCustomData
            ]),
            OuterHeaderId, u8, o
        ),
        "inner" => convert!(
            kind!(InnerHeaderId, u8, u8_of, of_u8, [EndOfHeader, InnerRandomStreamCipherId, InnerRandomStreamKey, Binary]),
            InnerHeaderId, u8, o
        ),
        "cipher" => convert!(kind!(Cipher, Uuid, uuid_of, of_uuid, [Aes128, Aes256, TwoFish, ChaCha20]), Cipher, Uuid, o),
        "kdf" => convert!(
            kind!(KdfAlgorithm, Uuid, uuid_of, of_uuid, [Aes256_Kdbx3_1, Aes256_Kdbx4, Argon2d, Argon2id]),
            KdfAlgorithm, Uuid, o
        ),
        "compression" => convert!(kind!(CompressionType, u32, u32_of, of_u32, [None, Gzip]), CompressionType, u32, o),
        "stream" => convert!(
            kind!(InnerStreamCipherAlgorithm, u32, u32_of, of_u32, [ArcFour, Salsa20, ChaCha20]),
            InnerStreamCipherAlgorithm, u32, o
        ),
        _ => dict(o),
    }
}

/// {"kind", "steps": [{"t": "code" | "name" | "unknown", "x"} or {"t": "dict", "from", "x"}]}
pub fn run_case(case: &Value) -> Value {
    let kind = case["kind"].as_str().unwrap();
    let got: Vec<Value> = case["steps"]
        .as_array()
        .unwrap()
        .iter()
        .map(|o| guarded(|| one(kind, o)).unwrap_or_else(|_| json!({"t": o["t"], "x": o["x"], "from": o["from"], "read": ["panic", ""], "back": "panic", "to": vec![["panic", ""]; 8]})))
        .collect();
    json!({ "got": got })
}
