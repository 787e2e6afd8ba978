----------------------------- MODULE HeaderScen -----------------------------
(* A family of headers: every selection of fields, in two orders, for both   *)
(* versions, with each kind of key derivation, and each way to spoil one     *)
(* parameter.                                                                *)
EXTENDS KdbxHeader

Le(n, size) == FoldLeft(LAMBDA acc, b : acc \o HexByte[b], "", LeDigits(<<n>>, size))
S32 == "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"
S16 == "a0a1a2a3a4a5a6a7a8a9aaabacadaeaf"

U(id) == <<66, PUuid, id>>
AesP == << <<5, PR, "0a00000000000000">>, <<66, PS, S32>> >>
ArgP == << <<5, PI, "0100000000000000">>, <<5, PM, "0020000000000000">>, <<4, PP, "01000000">>, <<66, PS, S32>>,
           <<4, PV, "13000000">> >>
OtherP == << <<4, "x41", "01020304">>, <<5, "x42", "0102030405060708">>, <<8, "x43", "01">>, <<12, "x44", "ffffffff">>,
             <<13, "x45", "00000000000000ff">>, <<24, "x46", "c3a9">>, <<66, "x", "">> >>
Dicts == << AesP \o <<U(KdfAes4)>>, <<U(KdfAes31)>> \o AesP, ArgP \o <<U(KdfArgon2d)>>, <<U(KdfArgon2id)>> \o ArgP,
            OtherP \o <<U(S16)>>, ArgP \o OtherP \o <<U(KdfArgon2d)>>, <<U(S16)>> >>

Hex8(n) == Le(n, 1)
EntryHex(e) == Hex8(e[1]) \o Le(TokLen(e[2]), 4) \o TokHex(e[2]) \o Le(HexLen(e[3]), 4) \o e[3]
DictHex(vd) == "0001" \o FoldLeft(LAMBDA acc, e : acc \o EntryHex(e), "", vd) \o "00"

FieldHex(v, f) == Hex8(f.id) \o Le(HexLen(f.data), IF v = 3 THEN 2 ELSE 4) \o f.data
HeaderHex(D) == Magic \o Le(D.minor, 2) \o Le(D.v, 2)
                \o FoldLeft(LAMBDA acc, f : acc \o FieldHex(D.v, f), "",
                            [i \in 1..Len(D.fields) |->
                               IF D.fields[i].id = 11 THEN [id |-> 11, data |-> DictHex(D.vdict)] ELSE D.fields[i]])

DataOf(id) == CASE id = 1 -> "636f6d" [] id = 2 -> CipherAes [] id = 3 -> "01000000" [] id = 4 -> S32 [] id = 5 -> S32
                [] id = 6 -> "3c00000000000000" [] id = 7 -> S16 [] id = 8 -> S32 [] id = 9 -> S32 [] id = 10 -> "02000000"
                [] id = 11 -> "" [] id = 12 -> "0001" [] id = 200 -> ""
InOrder(ids, k) == LET s == SetToSeq(ids) IN IF k = 0 THEN s ELSE Reverse(s)
Mk(v, ids, k, vd) ==
    LET os == InOrder(ids, k)
    IN  [v |-> v, minor |-> IF v = 3 THEN 1 ELSE 0, vdict |-> vd,
         fields |-> [i \in 1..Len(os) |-> [id |-> os[i], data |-> DataOf(os[i])]] \o <<[id |-> 0, data |-> "0d0a0d0a"]>>]

Base4 == {2, 3, 4, 7, 11}
Base3 == {2, 3, 4, 5, 6, 7, 8, 9, 10}

\* what a selection of fields needs to be complete
Complete(v, ids) == {2, 3, 4, 7} \subseteq ids /\ (11 \in ids \/ {5, 6} \subseteq ids)
Settled(v, ids) == v = 4 \/ {8, 9, 10} \subseteq ids

\* all selections of the fields that matter, and some unknown ones
Selections(v) == {x \union y : x \in SUBSET (IF v = 4 THEN {2, 3, 4, 5, 6, 7, 11} ELSE Base3), y \in {{}, {1, 200}}}
=============================================================================
