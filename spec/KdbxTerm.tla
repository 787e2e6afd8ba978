------------------------------- MODULE KdbxTerm -----------------------------
(***************************************************************************)
(* Byte strings as terms over uninterpreted cryptographic primitives.  The *)
(* format is specified with these terms; the harness evaluates them with   *)
(* the primitives alone.                                                   *)
(***************************************************************************)
EXTENDS Sequences, Integers

THex(h) == <<"hex", h>>
TText(t) == <<"text", t>>
TU8(n) == <<"u8", n>>
TU16(n) == <<"u16", n>>
TU32(n) == <<"u32", n>>
TU64(n) == <<"u64", n>>
TCat(s) == <<"cat", s>>
TLen16(t) == <<"len16", t>>
TLen32(t) == <<"len32", t>>
TSha256(t) == <<"sha256", t>>
TSha512(t) == <<"sha512", t>>
THmac(k, d) == <<"hmac", k, d>>
TAesKdf(seed, rounds, key) == <<"aeskdf", seed, rounds, key>>
TArgon2(var, ver, mem, iter, par, pw, salt) == <<"argon2", var, ver, mem, iter, par, pw, salt>>
TCbc(cipher, key, iv, d) == <<"cbc", cipher, key, iv, d>>
TChaCha(key, iv, d) == <<"chacha20", key, iv, d>>
TPad(d) == <<"pkcs7", d>>
TGzip(how, d) == <<"gzip", how, d>>
TGunzip(d) == <<"gunzip", d>>
TB64(d) == <<"b64", d>>
TXor(a, b) == <<"xor", a, b>>
TStream(alg, key, off, len) == <<"keystream", alg, key, off, len>>
TAtom(name) == <<"atom", name>>
TLet(name, t, body) == <<"let", name, t, body>>
TRef(name) == <<"ref", name>>
TChunks(d, sizes, each, end) == <<"chunks", d, sizes, each, end>>
TXml(doc) == <<"xml", doc>>
TRep(n, t) == <<"rep", n, t>>
TNoise(seed, n) == <<"noise", seed, n>>
=============================================================================
