----------------------------- MODULE KdbxHeader -----------------------------
(***************************************************************************)
(* Which byte strings open, and what opening shows: a parser of the        *)
(* unencrypted part of KDBX files on the level of bytes (in hex).          *)
(*                                                                         *)
(* Verdict(hex, good) is                                                   *)
(*   [v |-> "accept", ver, hdr]      opens and shows exactly this          *)
(*   [v |-> "refuse", kinds]         fails, with one of these kinds of     *)
(*                                   error ({}: any kind)                  *)
(*   [v |-> "either"]                the format does not settle it         *)
(* where good is the set of positions p at which the 32 bytes that follow  *)
(* are the SHA-256 hash of the bytes before.                               *)
(***************************************************************************)
EXTENDS KdbxFormat

\* n bytes from position p (from 0)
At(hex, p, n) == SubSeq(hex, 2 * p + 1, 2 * (p + n))
Fits(hex, p, n) == n <= HexLen(hex) - p

Utf8Tail(b, i, n) == i + n <= Len(b) /\ \A k \in 1..n : b[i + k] \in 128..191
\* well-formed UTF-8, from byte i on (RFC 3629)
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
    IF i > Len(b) THEN TRUE
    ELSE IF b[i] < 128 THEN Utf8From(b, i + 1)
    ELSE IF b[i] \in 194..223 THEN Utf8Tail(b, i, 1) /\ Utf8From(b, i + 2)
    ELSE IF b[i] \in 224..239
    THEN IF ~Utf8Tail(b, i, 2) THEN FALSE
         ELSE IF b[i] = 224 /\ b[i + 1] < 160 THEN FALSE
         ELSE IF b[i] = 237 /\ b[i + 1] > 159 THEN FALSE
         ELSE Utf8From(b, i + 3)
    ELSE IF b[i] \in 240..244
    THEN IF ~Utf8Tail(b, i, 3) THEN FALSE
         ELSE IF b[i] = 240 /\ b[i + 1] < 144 THEN FALSE
         ELSE IF b[i] = 244 /\ b[i + 1] > 143 THEN FALSE
         ELSE Utf8From(b, i + 4)
    ELSE FALSE
Utf8(hex) == Utf8From(Bytes(hex), 1)

---------------------------------------------------------------------------
(* Parameter dictionaries: <<"bad">>, <<"odd">> (not settled), or          *)
(* <<"ok", Seq(<<type, name, value>>)>>                                    *)
TypeSizes == <<4, 8, 1, 4, 8>>
KnownTypes == {4, 5, 8, 12, 13, 24, 66}
SizeOfType(t) == CASE t = 4 -> 4 [] t = 5 -> 8 [] t = 8 -> 1 [] t = 12 -> 4 [] t = 13 -> 8

RECURSIVE Entries(_, _, _, _)
Entries(h, p, acc, odd) ==
    IF ~Fits(h, p, 1) THEN <<"bad">>
    ELSE LET t == NatOf(At(h, p, 1))
         IN  IF t = 0 THEN IF odd THEN <<"odd">> ELSE <<"ok", acc>>
             ELSE IF ~Fits(h, p, 5) THEN <<"bad">>
             ELSE LET kl == NatOf(At(h, p + 1, 4))
                  IN  IF ~Fits(h, p + 5, kl) THEN <<"bad">>
                      ELSE IF ~Fits(h, p + 5 + kl, 4) THEN <<"bad">>
                      ELSE LET key == At(h, p + 5, kl)
                               vl == NatOf(At(h, p + 5 + kl, 4))
                           IN  IF ~Fits(h, p + 9 + kl, vl) THEN <<"bad">>
                               ELSE IF ~Utf8(key) THEN <<"bad">>
                               ELSE IF t \in {4, 5, 8, 12, 13} /\ vl # SizeOfType(t) THEN <<"bad">>
                               ELSE LET val == At(h, p + 9 + kl, vl)
                                    IN  IF t = 24 /\ ~Utf8(val) THEN <<"bad">>
                                        ELSE Entries(h, p + 9 + kl + vl, Append(acc, <<t, Tok(key), val>>),
                                                     \/ odd
                                                     \/ t \notin KnownTypes
                                                     \/ (t = 8 /\ val \notin {"00", "01"})
                                                     \/ \E i \in 1..Len(acc) : acc[i][2] = Tok(key))

Dict(h) == IF ~Fits(h, 0, 2) THEN <<"bad">>
           ELSE IF NatOf(At(h, 1, 1)) > 1 THEN <<"bad">>
           ELSE Entries(h, 2, <<>>, FALSE)

\* the parameters each key derivation needs, with their types
Needs(id) == IF id \in {KdfAes31, KdfAes4} THEN {<<PR, 5>>, <<PS, 66>>}
             ELSE IF id \in {KdfArgon2d, KdfArgon2id} THEN {<<PI, 5>>, <<PM, 5>>, <<PP, 4>>, <<PS, 66>>, <<PV, 4>>}
             ELSE {}
DictOK(vd) ==
    IF ~HasParam(vd, PUuid) THEN FALSE
    ELSE LET u == Param(vd, PUuid)
         IN  /\ u[1] = 66
             /\ HexLen(u[3]) = 16
             /\ \A n \in Needs(u[3]) : IF HasParam(vd, n[1]) THEN Param(vd, n[1])[1] = n[2] ELSE FALSE

---------------------------------------------------------------------------
(* Fields up to the end field: <<"cut">> or <<"ok", fields, position>>     *)
RECURSIVE ReadFields(_, _, _, _)
ReadFields(hex, p, v, acc) ==
    LET ls == IF v = 3 THEN 2 ELSE 4
    IN  IF ~Fits(hex, p, 1 + ls) THEN <<"cut">>
        ELSE LET id == NatOf(At(hex, p, 1))
                 n == NatOf(At(hex, p + 1, ls))
                 q == p + 1 + ls
             IN  IF ~Fits(hex, q, n) THEN <<"cut">>
                 ELSE LET f == [id |-> id, data |-> At(hex, q, n)]
                      IN  IF id = 0 THEN <<"ok", Append(acc, f), q + n>>
                          ELSE ReadFields(hex, q + n, v, Append(acc, f))

Refuse(kinds) == [v |-> "refuse", kinds |-> kinds]
Either == [v |-> "either"]

Count(fs, id) == Len(FieldsOf(fs, id))

\* fields of a header, given that the hash (if any) is right
FieldsVerdict(v, minor, fs) ==
    LET D0 == [v |-> v, fields |-> fs, vdict |-> <<>>, minor |-> minor]
        legacy == Count(fs, 11) = 0
        dicts == [i \in 1..Count(fs, 11) |-> Dict(FieldsOf(fs, 11)[i].data)]
        repeated == \/ \E id \in {2, 3, 4, 7, 9, 11} : Count(fs, id) > 1
                    \/ legacy /\ \E id \in {5, 6} : Count(fs, id) > 1
        badData == \/ \E i \in 1..Len(fs) : \/ fs[i].id = 2 /\ HexLen(fs[i].data) # 16
                                            \/ fs[i].id = 3 /\ HexLen(fs[i].data) # 4
                   \/ \E i \in 1..Len(dicts) : dicts[i][1] = "bad"
                   \/ \E i \in 1..Len(dicts) : dicts[i][1] = "ok" /\ ~DictOK(dicts[i][2])
        missing == \/ \E id \in {2, 3, 4, 7} : Count(fs, id) = 0
                   \/ legacy /\ \E id \in {5, 6} : Count(fs, id) = 0
                   \/ IF legacy /\ Count(fs, 6) = 1 THEN HexLen(FieldData(fs, 6)) < 8 ELSE FALSE
        odd == \/ repeated
               \/ \E i \in 1..Len(dicts) : dicts[i][1] = "odd"
               \/ IF legacy /\ Count(fs, 6) = 1 THEN HexLen(FieldData(fs, 6)) > 8 ELSE FALSE
               \/ v = 3 /\ (\E id \in {8, 9, 10} : Count(fs, id) = 0)
    IN  IF badData \/ missing THEN Refuse({})
        ELSE IF odd THEN Either
        ELSE [v |-> "accept", ver |-> <<v, minor>>,
              hdr |-> HdrView([D0 EXCEPT !.vdict = IF legacy THEN <<>> ELSE dicts[1][2]])]

Sig1 == SubSeq(Magic, 1, 8)
Sig2 == SubSeq(Magic, 9, 16)

Verdict(hex, good) ==
    IF ~Fits(hex, 0, 4) THEN Refuse({})
    ELSE IF At(hex, 0, 4) # Sig1 THEN Refuse({"not-keepass"})
    ELSE IF ~Fits(hex, 0, 8) THEN Refuse({})
    ELSE IF At(hex, 4, 4) # Sig2 THEN Refuse({"not-kdbx"})
    ELSE IF ~Fits(hex, 0, 12) THEN Refuse({})
    ELSE LET minor == NatOf(At(hex, 8, 2))
             v == NatOf(At(hex, 10, 2))
         IN  IF v \notin {3, 4} THEN Refuse({"version"})
             ELSE LET r == ReadFields(hex, 12, v, <<>>)
                  IN  IF r[1] = "cut" THEN Refuse({})
                      ELSE LET x == FieldsVerdict(v, minor, r[2])
                           IN  IF v = 3 THEN x
                               ELSE IF ~Fits(hex, r[3], 32) THEN Refuse({})
                               ELSE IF r[3] \notin good
                               THEN IF x.v = "accept" THEN Refuse({"checksum"}) ELSE Refuse({})
                               \* without the HMAC nothing can be unlocked
                               ELSE IF ~Fits(hex, r[3], 64) THEN (IF x.v = "refuse" THEN x ELSE Either)
                               ELSE x

\* is the recorded result of opening one the verdict allows?
OpenAllowed(x, ret) ==
    CASE x.v = "either" -> ret[1] \in {"ok", "err"}
      [] x.v = "refuse" -> ret[1] = "err" /\ (x.kinds # {} => ret[2] \in x.kinds)
      [] x.v = "accept" -> IF ret[1] # "ok" THEN FALSE
                           ELSE <<ret[2].ver[1], ret[2].ver[2]>> = x.ver /\ HdrOf(ret[2].hdr) = x.hdr
=============================================================================
