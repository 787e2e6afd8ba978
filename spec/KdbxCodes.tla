----------------------------- MODULE KdbxCodes ------------------------------
(***************************************************************************)
(* The codes of the format and their names in the library: header fields,  *)
(* ciphers, compression, key derivations, inner streams.  A code is a hex  *)
(* string as it stands in a file (numbers little-endian).  A code with a   *)
(* name reads as that name, any other as unknown with the code itself;     *)
(* writing either gives the code back.                                     *)
(*                                                                         *)
(* A value of a parameter dictionary converts to the Rust type that it has *)
(* and to no other.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Outer == << <<"00", "EndOfHeader">>, <<"01", "Comment">>, <<"02", "CipherId">>, <<"03", "CompressionFlags">>, <<"04", "MasterSeed">>,
            <<"05", "LegacyTransformSeed">>, <<"06", "LegacyTransformRounds">>, <<"07", "EncryptionIv">>, <<"08", "ProtectedStreamKey">>,
            <<"09", "StreamStartBytes">>, <<"0a", "InnerRandomStreamId">>, <<"0b", "KdfParameters">>, <<"0c", "PublicCustomData">> >>
Inner == << <<"00", "EndOfHeader">>, <<"01", "InnerRandomStreamCipherId">>, <<"02", "InnerRandomStreamKey">>, <<"03", "Binary">> >>
Ciphers == << <<"61ab05a1946441c38d743a563df8dd35", "Aes128">>, <<"31c1f2e6bf714350be5805216afc5aff", "Aes256">>,
              <<"ad68f29f576f4bb9a36ad47af965346c", "TwoFish">>, <<"d6038a2b8b6f4cb5a524339a31dbb59a", "ChaCha20">> >>
Kdfs == << <<"c9d9f39a628a4460bf740d08c18a4fea", "Aes256_Kdbx3_1">>, <<"7c02bb8279a74ac0927d114a00648238", "Aes256_Kdbx4">>,
           <<"ef636ddf8c29444b91f7a9a403e30a0c", "Argon2d">>, <<"9e298b1956db4773b23dfc3ec6f0a1e6", "Argon2id">> >>
Compressions == << <<"00000000", "None">>, <<"01000000", "Gzip">> >>
Streams == << <<"01000000", "ArcFour">>, <<"02000000", "Salsa20">>, <<"03000000", "ChaCha20">> >>

Kinds == <<"outer", "inner", "cipher", "kdf", "compression", "stream">>
KindSet == {Kinds[i] : i \in 1..Len(Kinds)}
Table(kind) == CASE kind = "outer" -> Outer [] kind = "inner" -> Inner [] kind = "cipher" -> Ciphers
                 [] kind = "kdf" -> Kdfs [] kind = "compression" -> Compressions [] kind = "stream" -> Streams
Digits(kind) == CASE kind \in {"outer", "inner"} -> 2 [] kind \in {"cipher", "kdf"} -> 32 [] OTHER -> 8

Rows(t) == {t[i] : i \in 1..Len(t)}
ReadIn(t, code) == IF \E r \in Rows(t) : r[1] = code THEN <<(CHOOSE r \in Rows(t) : r[1] = code)[2], "">>
                   ELSE <<"Unknown", code>>
WriteIn(t, v) == IF v[1] = "Unknown" THEN v[2] ELSE (CHOOSE r \in Rows(t) : r[2] = v[1])[1]
Read(kind, code) == ReadIn(Table(kind), code)
Write(kind, v) == WriteIn(Table(kind), v)
Names(kind) == {r[2] : r \in Rows(Table(kind))}

DictTypes == <<"u32", "u64", "bool", "i32", "i64", "String", "Vec<u8>", "unknown">>
\* what converting a value of type t to type u gives
Convert(t, x, u) == IF t = u THEN <<"ok", x>> ELSE <<"err", "">>
=============================================================================
