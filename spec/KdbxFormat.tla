------------------------------ MODULE KdbxFormat ----------------------------
(***************************************************************************)
(* KDBX 4 and KDBX 3.1 files.                                              *)
(*                                                                         *)
(* A description D of a file is                                            *)
(*   [v |-> 3 or 4, minor |-> Nat,                                         *)
(*    fields |-> Seq([id, data |-> hex])   header fields in order, the end *)
(*               field (id 0) last; the data of field 11 is given by       *)
(*    vdver, vdrest |-> hex, vdict |-> Seq(<<type, name, hex>>),           *)
(*    sizes |-> Seq(Nat)                   data blocks (the last repeats)  *)
(*    inner |-> Seq([id, data])            inner header (version 4)        *)
(*    gz |-> "none", a way to compress, or "atom",                         *)
(*    cr |-> [pw, kf]                      credentials ("none": absent)    *)
(*    db, style                            content, layout of the XML      *)
(*    head, tail]                          text around it (optional)       *)
(* FileTerm(D, x) is the file as a byte-string term, where x is the term   *)
(* of its XML; FileRec(D) is what opening and unlocking it shows.          *)
(***************************************************************************)
EXTENDS KdbxXml, KdbxTerm

Magic == "03d9a29a67fb4bb5"

CipherAes == "31c1f2e6bf714350be5805216afc5aff"
CipherTwofish == "ad68f29f576f4bb9a36ad47af965346c"
CipherChaCha == "d6038a2b8b6f4cb5a524339a31dbb59a"
KdfAes31 == "c9d9f39a628a4460bf740d08c18a4fea"
KdfAes4 == "7c02bb8279a74ac0927d114a00648238"
KdfArgon2d == "ef636ddf8c29444b91f7a9a403e30a0c"
KdfArgon2id == "9e298b1956db4773b23dfc3ec6f0a1e6"

---------------------------------------------------------------------------
(* Fields *)
FieldsOf(fs, id) == SelectSeq(fs, LAMBDA f : f.id = id)
HasField(fs, id) == \E i \in 1..Len(fs) : fs[i].id = id
FieldData(fs, id) == LET s == FieldsOf(fs, id) IN s[Len(s)].data
FieldOr(fs, id, dflt) == IF HasField(fs, id) THEN FieldData(fs, id) ELSE dflt

\* parameter names: "$UUID", "R", "S", "I", "M", "P", "V"
PUuid == "x2455554944"
PR == "x52"
PS == "x53"
PI == "x49"
PM == "x4d"
PP == "x50"
PV == "x56"
HasParam(vd, n) == \E i \in 1..Len(vd) : vd[i][2] = n
Param(vd, n) == LET s == SelectSeq(vd, LAMBDA e : e[2] = n) IN s[Len(s)]

ParamNames(vd) == {vd[i][2] : i \in 1..Len(vd)}
ParamSet(vd, names) == {<<n, Param(vd, n)[1], Param(vd, n)[3]>> : n \in names}

\* key derivation settings as the library reports them: [uuid, p |-> set of <<name, type, hex>>]
KdfView(D) ==
    IF ~HasField(D.fields, 11)
    THEN [uuid |-> KdfAes4,
          p |-> {<<PR, 5, SubSeq(FieldData(D.fields, 6), 1, 16)>>, <<PS, 66, FieldData(D.fields, 5)>>}]
    ELSE LET id == Param(D.vdict, PUuid)[3]
         IN  IF id \in {KdfAes31, KdfAes4} THEN [uuid |-> KdfAes4, p |-> ParamSet(D.vdict, {PR, PS})]
             ELSE IF id \in {KdfArgon2d, KdfArgon2id}
             THEN [uuid |-> id, p |-> ParamSet(D.vdict, {PI, PM, PP, PS, PV})]
             ELSE [uuid |-> id, p |-> ParamSet(D.vdict, ParamNames(D.vdict) \ {PUuid})]

P(k, n) == (CHOOSE e \in k.p : e[1] = n)[3]

\* value of a little-endian number, at most 2^30
NatOf(hex) ==
    LET b == Bytes(hex)
    IN  FoldLeft(LAMBDA acc, d : IF acc >= 4194304 THEN 1073741824 ELSE acc * 256 + d, 0, Reverse(b))

IsZero(hex) == \A i \in 1..Len(hex) : SubSeq(hex, i, i) = "0"

\* settings with which the key derivation is defined
KdfOK(k) ==
    IF k.uuid = KdfAes4 THEN HexLen(P(k, PS)) = 32
    ELSE IF k.uuid \in {KdfArgon2d, KdfArgon2id}
    THEN /\ P(k, PV) \in {"10000000", "13000000"}
         /\ NatOf(P(k, PP)) >= 1 /\ NatOf(P(k, PP)) <= 16777215
         /\ NatOf(P(k, PM)) \div 1024 >= 8 * NatOf(P(k, PP))
         /\ Bytes(P(k, PM))[6] < 4 /\ IsZero(SubSeq(P(k, PM), 13, 16))
         /\ NatOf(P(k, PI)) >= 1 /\ IsZero(SubSeq(P(k, PI), 9, 16))
         /\ HexLen(P(k, PS)) >= 8
    ELSE FALSE

CipherOK(cipher, iv) == \/ cipher \in {CipherAes, CipherTwofish} /\ HexLen(iv) = 16
                        \/ cipher = CipherChaCha /\ HexLen(iv) = 12
CompOK(comp) == comp \in {"00000000", "01000000"}
InnerOK(alg) == alg \in {"02000000", "03000000"}
HdrOK(h) == KdfOK(h.kdf) /\ CipherOK(h.cipher, h.iv) /\ CompOK(h.comp)

---------------------------------------------------------------------------
(* Credentials.  Unlocking needs the same sequence of components.          *)
Norm(cr) == (IF cr.pw = "none" THEN <<>> ELSE <<IF IsPlain(cr.pw) THEN TokHex(cr.pw) ELSE cr.pw>>)
            \o (IF cr.kf = "none" THEN <<>> ELSE <<cr.kf>>)
Composite(cr) ==
    TSha256(TCat((IF cr.pw = "none" THEN <<>> ELSE <<TSha256(TText(cr.pw))>>)
                 \o (IF cr.kf = "none" THEN <<>> ELSE <<TSha256(THex(cr.kf))>>)))

---------------------------------------------------------------------------
(* Bytes *)
TSlice(t, off, n) == <<"slice", t, off, n>>

VDictTerm(D) ==
    TCat(<<THex(D.vdver)>>
         \o [i \in 1..Len(D.vdict) |->
                TCat(<<TU8(D.vdict[i][1]), TLen32(TText(D.vdict[i][2])), TText(D.vdict[i][2]),
                       TU32(HexLen(D.vdict[i][3])), THex(D.vdict[i][3])>>)]
         \o <<THex("00"), THex(D.vdrest)>>)
VDictLen(D) ==
    FoldLeft(LAMBDA acc, e : acc + 9 + TokLen(e[2]) + HexLen(e[3]), 3 + HexLen(D.vdver) + HexLen(D.vdrest) - 2, D.vdict)

FieldTerm(D, f) ==
    IF f.id = 11 THEN TLet("vd", VDictTerm(D), TCat(<<TU8(11), TLen32(TRef("vd")), TRef("vd")>>))
    ELSE TCat(<<TU8(f.id), IF D.v = 3 THEN TU16(HexLen(f.data)) ELSE TU32(HexLen(f.data)), THex(f.data)>>)
HeaderTerm(D) ==
    TCat(<<THex(Magic), TU16(D.minor), TU16(D.v)>> \o [i \in 1..Len(D.fields) |-> FieldTerm(D, D.fields[i])])
\* number of bytes before the header hash
HeaderLen(D) ==
    FoldLeft(LAMBDA acc, f : acc + (IF D.v = 3 THEN 3 ELSE 5) + (IF f.id = 11 THEN VDictLen(D) ELSE HexLen(f.data)),
             12, D.fields)

MasterTerm(k, cr) ==
    IF ~KdfOK(k) THEN Composite(cr)    \* such files cannot be unlocked, whatever is in them
    ELSE IF k.uuid = KdfAes4 THEN TSha256(TAesKdf(THex(P(k, PS)), P(k, PR), Composite(cr)))
    ELSE TArgon2(IF k.uuid = KdfArgon2id THEN "id" ELSE "d", P(k, PV), P(k, PM), P(k, PI), P(k, PP),
                 Composite(cr), THex(P(k, PS)))

Seed(D) == THex(FieldData(D.fields, 4))
EncTerm(D, plain) ==
    LET cipher == FieldData(D.fields, 2)
        iv == FieldData(D.fields, 7)
        key == TSha256(TCat(<<Seed(D), TRef("m")>>))
    IN  IF ~CipherOK(cipher, iv) THEN plain
        ELSE IF cipher = CipherAes THEN TCbc("aes256", key, THex(iv), TPad(plain))
        ELSE IF cipher = CipherTwofish THEN TCbc("twofish", key, THex(iv), TPad(plain))
        ELSE TChaCha(key, THex(iv), plain)

PackTerm(D, t) == IF D.gz = "none" THEN t ELSE IF D.gz = "atom" THEN TAtom("gz") ELSE TGzip(D.gz, t)

InnerTerm(D) == TCat([i \in 1..Len(D.inner) |->
                        TCat(<<TU8(D.inner[i].id), TU32(HexLen(D.inner[i].data)), THex(D.inner[i].data)>>)])
PayloadTerm(D, xml) == TCat(<<InnerTerm(D), xml>>)

\* version 4: HMAC keys of blocks depend on the block number
BlockKey(i) == TSha512(TCat(<<i, TRef("k")>>))
Block4 == TCat(<<THmac(BlockKey(TRef("i")), TCat(<<TRef("i"), TLen32(TRef("c")), TRef("c")>>)),
                 TLen32(TRef("c")), TRef("c")>>)
File4(D, xml) ==
    TLet("h", HeaderTerm(D),
    TLet("m", MasterTerm(KdfView(D), D.cr),
    TLet("k", TSha512(TCat(<<Seed(D), TRef("m"), THex("01")>>)),
         TCat(<<TRef("h"), TSha256(TRef("h")), THmac(BlockKey(THex("ffffffffffffffff")), TRef("h")),
                TChunks(EncTerm(D, PackTerm(D, PayloadTerm(D, xml))), D.sizes, Block4, Block4)>>))))

\* version 3.1: blocks with their hash, inside the encrypted data
Zero32 == "0000000000000000000000000000000000000000000000000000000000000000"
Block3 == TCat(<<TSlice(TRef("i"), 0, 4), TSha256(TRef("c")), TLen32(TRef("c")), TRef("c")>>)
End3 == TCat(<<TSlice(TRef("i"), 0, 4), THex(Zero32), TU32(0)>>)
File3(D, xml) ==
    TLet("h", HeaderTerm(D),
    TLet("m", MasterTerm(KdfView(D), D.cr),
         TCat(<<TRef("h"), EncTerm(D, TCat(<<THex(FieldData(D.fields, 9)),
                                             TChunks(PackTerm(D, xml), D.sizes, Block3, End3)>>))>>)))

\* a version 4 file whose header was replaced by that of A by someone without
\* the credentials: the hash can be made to fit, the HMAC can not
ForgedTerm(D, A, xml, mac) ==
    TLet("h", HeaderTerm(D),
    TLet("g", HeaderTerm(A),
    TLet("m", MasterTerm(KdfView(D), D.cr),
    TLet("k", TSha512(TCat(<<Seed(D), TRef("m"), THex("01")>>)),
         TCat(<<TRef("g")>>
              \o (IF A.v = 3 THEN <<>>
                  ELSE <<TSha256(TRef("g")),
                         CASE mac = "keep" -> THmac(BlockKey(THex("ffffffffffffffff")), TRef("h"))
                           [] mac = "zero" -> THex(Zero32)
                           [] mac = "sha" -> TSha256(TRef("g"))>>)
              \o <<IF A.v = 3 THEN EncTerm(D, PackTerm(D, PayloadTerm(D, xml)))
                   ELSE TChunks(EncTerm(D, PackTerm(D, PayloadTerm(D, xml))), D.sizes, Block4, Block4)>>)))))

FileTerm(D, xml) == IF D.v = 4 THEN File4(D, xml) ELSE File3(D, xml)

---------------------------------------------------------------------------
(* The XML of a database with its protected values encrypted *)

\* inner stream settings as reported: [alg |-> 4 bytes, key |-> hex, other |-> number]
InnerView(D) ==
    IF D.v = 4
    THEN [alg |-> SubSeq(FieldData(D.inner, 1), 1, 8), key |-> FieldData(D.inner, 2),
          other |-> Len(SelectSeq(D.inner, LAMBDA f : f.id \notin {0, 1, 2}))]
    ELSE [alg |-> SubSeq(FieldData(D.fields, 10), 1, 8), key |-> FieldData(D.fields, 8), other |-> 0]
AlgName(alg) == IF alg = "02000000" THEN "salsa20" ELSE IF alg = "03000000" THEN "chacha20" ELSE "null"

RECURSIVE Encrypted(_, _, _)
Encrypted(node, alg, key) ==
    IF node.t = "prot"
    THEN IF node.x \in {"x", "none"} THEN Text("x")
         ELSE [t |-> "term", x |-> TB64(TXor(TText(node.x), TStream(alg, THex(key), node.off, TokLen(node.x))))]
    ELSE IF node.t = "el" THEN [node EXCEPT !.c = [i \in 1..Len(@) |-> Encrypted(@[i], alg, key)]]
    ELSE node

\* <?xml version="1.0" encoding="utf-8" standalone="yes"?> and a line end
XmlDecl == "x3c3f786d6c2076657273696f6e3d22312e302220656e636f64696e673d227574662d3822207374616e64616c6f6e653d22796573223f3e0d0a"
XmlTerm(D) ==
    LET iv == InnerView(D)
    IN  TXml([t |-> "seq", c |-> << Raw(IF "head" \in DOMAIN D THEN D.head ELSE XmlDecl),
                                    Encrypted(LayoutOf(D.db, D.style), AlgName(iv.alg), iv.key),
                                    Raw(IF "tail" \in DOMAIN D THEN D.tail ELSE "x") >>])

---------------------------------------------------------------------------
(* What opening and unlocking shows *)
KnownFields == {0, 2, 3, 4, 7, 9, 11}
OthersOf(D) == SelectSeq(D.fields, LAMBDA f : f.id \notin KnownFields)
InnerOthersOf(D) == IF D.v = 4 THEN SelectSeq(D.inner, LAMBDA f : f.id \notin {0, 1, 2}) ELSE <<>>

HdrView(D) ==
    [cipher |-> FieldData(D.fields, 2), comp |-> FieldData(D.fields, 3), seed |-> FieldData(D.fields, 4),
     iv |-> FieldData(D.fields, 7), kdf |-> KdfView(D), other |-> Len(OthersOf(D)),
     start |-> FieldOr(D.fields, 9, "none")]

\* a header observation as recorded
HdrOf(o) == [o EXCEPT !.kdf = [uuid |-> @.uuid, p |-> {<<@.p[i][1], @.p[i][2], @.p[i][3]>> : i \in 1..Len(@.p)}]]

FileRec(D, raw, uid) ==
    [t |-> "kdbx", ver |-> <<D.v, D.minor>>, hdr |-> HdrView(D), others |-> OthersOf(D),
     inner |-> InnerView(D), iothers |-> InnerOthersOf(D), db |-> Canon(D.db), cr |-> Norm(D.cr),
     raw |-> raw, uid |-> uid, hlen |-> HeaderLen(D), own |-> FALSE]

CanUnlock(f) == HdrOK(f.hdr) /\ InnerOK(f.inner.alg)
=============================================================================
