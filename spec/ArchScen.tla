------------------------------ MODULE ArchScen ------------------------------
(***************************************************************************)
(* Small worlds and alphabets of archive operations over which sequences   *)
(* are enumerated exhaustively: MCArch checks the specification on them,   *)
(* GenArch writes them out for replay into the implementation.             *)
(*                                                                         *)
(* A scenario: [d |-> <<>> or <<description of a file>> (its bytes are     *)
(* file "f" at the start), pro |-> operations before, ops |-> alphabet,    *)
(* epi |-> operations after].                                              *)
(***************************************************************************)
EXTENDS KdbxArchive

T0 == [mod |-> "t00ddd0d40e000000", cre |-> "t00fcdace0e000000", acc |-> "t807369d50e000000",
       exp |-> "t00bec6da0e000000", loc |-> "t80ecd5d10e000000", expires |-> FALSE, usage |-> "3"]
F(k, v, p) == [k |-> k, v |-> v, p |-> p]
Id(n) == "0000000000000000000000000000000" \o ToString(n)
Ent(n, fs, h) == [id |-> Id(n), fields |-> fs, times |-> T0, hist |-> h]
SmallDb ==
    [meta |-> [name |-> "x6e20", desc |-> "x", custom |-> <<F("x6375", "x736563726574", TRUE)>>,
               mp |-> <<FALSE, FALSE, TRUE, FALSE, TRUE>>],
     root |-> [id |-> Id(0), name |-> "x526f6f74", times |-> T0,
               entries |-> << Ent(1, << F(KTitle, "x6161", FALSE), F(KPass, "x70613c7373", TRUE) >>,
                                  << Ent(1, <<F(KPass, "x6f6c64", TRUE)>>, <<>>) >>) >>,
               groups |-> << [id |-> Id(2), name |-> "x", times |-> T0,
                              entries |-> <<Ent(3, <<F(KPass, "x71", TRUE)>>, <<>>)>>, groups |-> <<>>] >>]]

S32(c) == LET h == c \o c \o c \o c \o c \o c \o c \o c IN h \o h \o h \o h
S16(c) == SubSeq(S32(c), 1, 32)
Iv16 == "000102030405060708090a0b0c0d0e0f"
Iv12 == "101112131415161718191a1b"

AesSet(rounds, salt) == [uuid |-> KdfAes4, p |-> << <<PR, 5, rounds \o "00000000000000">>, <<PS, 66, salt>> >>]
ArgSet(uuid, v, lanes, salt) ==
    [uuid |-> uuid, p |-> << <<PI, 5, "0200000000000000">>, <<PM, 5, "0040000000000000">>, <<PP, 4, lanes>>,
                             <<PS, 66, salt>>, <<PV, 4, v>> >>]
Kdf1 == AesSet("02", S32("a1"))
Kdf2 == ArgSet(KdfArgon2d, "13000000", "02000000", S32("b2"))
Kdf3 == AesSet("02", S32("a2"))

Cr1 == [pw |-> "x6f6e65", kf |-> "none"]
Cr2 == [pw |-> "x74776f", kf |-> "0102"]
CrOp(op, a, cr) == [op |-> op, a |-> a, pw |-> cr.pw, kf |-> cr.kf]
Hdr(a, set) == [op |-> "hdr", a |-> a, set |-> set]
Inn(a, set) == [op |-> "inner", a |-> a, set |-> set]
Save(a, f) == [op |-> "save", a |-> a, f |-> f]
Open(a, f) == [op |-> "open", a |-> a, f |-> f]
Obs(a) == [op |-> "obs", a |-> a]
Edit(a, o) == [op |-> "edit", a |-> a, o |-> o]
Decode(f, cr) == [op |-> "decode", f |-> f, pw |-> cr.pw, kf |-> cr.kf]
Same(f, g) == [op |-> "same", f |-> f, g |-> g]
SameH(a, b) == [op |-> "sameHeaders", a |-> a, b |-> b]
E1 == [g |-> <<>>, e |-> 1, h |-> <<>>]
SetTitle(v) == [op |-> "eAct", r |-> E1, a |-> [t |-> "title", v |-> v]]

---------------------------------------------------------------------------
(* Life of an archive: keys, settings, edits, saves and reopening.         *)
Life ==
    [d |-> <<>>,
     pro |-> << [op |-> "new", a |-> "a", db |-> SmallDb], Hdr("a", [kdf |-> Kdf1]), CrOp("key", "a", Cr1) >>,
     ops |-> << CrOp("key", "a", Cr1), CrOp("key", "a", Cr2),
                Hdr("a", [kdf |-> Kdf2]), Hdr("a", [kdf |-> Kdf3]),
                Hdr("a", [kdf |-> [uuid |-> S16("00"), p |-> << >>]]),
                Hdr("a", [seed |-> S32("55")]),
                Hdr("a", [cipher |-> CipherChaCha, iv |-> Iv12, comp |-> "01000000"]),
                Inn("a", [alg |-> "02000000", key |-> "0908"]),
                Edit("a", SetTitle("x6e6577")),
                Save("a", "f"), Open("a", "f"), CrOp("unlock", "a", Cr1), CrOp("unlock", "a", Cr2) >>,
     epi |-> << Save("a", "g"), Obs("a"), Decode("g", Cr1), Decode("g", Cr2), Decode("f", Cr1),
                Open("b", "g"), CrOp("unlock", "b", Cr2), CrOp("unlock", "b", Cr1), Obs("b"),
                Open("c", "f"), CrOp("unlock", "c", Cr1), CrOp("unlock", "c", Cr2), Save("c", "h"),
                Decode("h", Cr1), Decode("h", Cr2) >>]

\* The key and the settings it is derived with, in longer sequences
Keys ==
    [d |-> <<>>,
     pro |-> << [op |-> "new", a |-> "a", db |-> SmallDb], Hdr("a", [kdf |-> Kdf1]), CrOp("key", "a", Cr1) >>,
     ops |-> << CrOp("key", "a", Cr1), CrOp("key", "a", Cr2), Hdr("a", [kdf |-> Kdf1]), Hdr("a", [kdf |-> Kdf3]),
                Hdr("a", [kdf |-> [uuid |-> S16("00"), p |-> << >>]]), Save("a", "f") >>,
     epi |-> << Save("a", "g"), Open("b", "g"), CrOp("unlock", "b", Cr2), CrOp("unlock", "b", Cr1), Obs("b") >>]

---------------------------------------------------------------------------
(* A file made by another program, with settings this library keeps aside. *)
FileD4 ==
    [v |-> 4, minor |-> 1,
     fields |-> << [id |-> 12, data |-> "0102"], [id |-> 3, data |-> "01000000"], [id |-> 2, data |-> CipherTwofish],
                   [id |-> 7, data |-> Iv16], [id |-> 11, data |-> ""], [id |-> 1, data |-> "636f6d6d656e74"],
                   [id |-> 4, data |-> S32("44")], [id |-> 200, data |-> ""], [id |-> 12, data |-> "03"],
                   [id |-> 0, data |-> "0d0a0d0a"] >>,
     vdver |-> "0001", vdrest |-> "",
     vdict |-> << <<66, PS, S32("c3")>>, <<5, PR, "0300000000000000">>, <<66, PUuid, KdfAes31>> >>,
     sizes |-> <<100, 7, 1048576>>,
     inner |-> << [id |-> 2, data |-> S32("77")], [id |-> 3, data |-> "00aabb"], [id |-> 1, data |-> "03000000"],
                  [id |-> 3, data |-> "01"], [id |-> 0, data |-> ""] >>,
     gz |-> "default", cr |-> Cr1, db |-> SmallDb, style |-> [PlainStyle EXCEPT !.ws = "x0a09", !.unk = 2]]
FileD3 ==
    [v |-> 3, minor |-> 1,
     fields |-> << [id |-> 2, data |-> CipherAes], [id |-> 3, data |-> "01000000"], [id |-> 4, data |-> S32("44")],
                   [id |-> 5, data |-> S32("45")], [id |-> 6, data |-> "0300000000000000"], [id |-> 7, data |-> Iv16],
                   [id |-> 8, data |-> S32("48")], [id |-> 9, data |-> S32("49")], [id |-> 10, data |-> "02000000"],
                   [id |-> 0, data |-> "0d0a0d0a"] >>,
     vdver |-> "", vdrest |-> "", vdict |-> <<>>, sizes |-> <<100, 7, 1048576>>, inner |-> <<>>,
     gz |-> "default", cr |-> Cr1, db |-> SmallDb, style |-> [PlainStyle EXCEPT !.ws = "x0a09", !.unk = 1, !.iso = TRUE]]

\* Locked archives: failed attempts, changes of the header, copies
Locked(d) ==
    [d |-> <<d>>,
     pro |-> << Open("a", "f") >>,
     ops |-> << CrOp("unlock", "a", Cr2), CrOp("unlock", "a", Cr1),
                Hdr("a", [other |-> "clear"]), Hdr("a", [other |-> "reverse"]), Hdr("a", [other |-> "dup"]),
                Hdr("a", [seed |-> S32("55")]), Hdr("a", [seed |-> S32("44")]),
                Hdr("a", [comp |-> "00000000"]), Hdr("a", [kdf |-> Kdf1]),
                Save("a", "g"), Open("a", "g") >>,
     epi |-> << Save("a", "h"), Same("f", "h"), Same("f", "g"), Open("b", "h"), SameH("a", "b"),
                CrOp("unlock", "b", Cr2), CrOp("unlock", "b", Cr1), Obs("b"),
                Open("c", "g"), CrOp("unlock", "c", Cr1), Obs("c"), Decode("h", Cr1) >>]

---------------------------------------------------------------------------
(* Saves that must fail, and correcting what was wrong.                    *)
Bad ==
    [d |-> <<>>,
     pro |-> << [op |-> "new", a |-> "a", db |-> SmallDb], Hdr("a", [kdf |-> Kdf1]) >>,
     ops |-> << CrOp("key", "a", Cr1),
                Hdr("a", [iv |-> Iv12]), Hdr("a", [iv |-> ""]), Hdr("a", [iv |-> Iv16]),
                Hdr("a", [iv |-> Iv16 \o "10"]), Hdr("a", [iv |-> S32("77")]),
                Hdr("a", [cipher |-> CipherChaCha]), Hdr("a", [cipher |-> CipherTwofish]),
                Hdr("a", [cipher |-> "61ab05a1946441c38d743a563df8dd35"]),
                Hdr("a", [cipher |-> S16("99")]),
                Hdr("a", [comp |-> "02000000"]), Hdr("a", [comp |-> "01000000"]),
                Hdr("a", [kdf |-> AesSet("02", "0102")]), Hdr("a", [kdf |-> AesSet("02", S16("a1"))]),
                Hdr("a", [kdf |-> AesSet("02", S32("a1") \o "00")]), Hdr("a", [kdf |-> Kdf2]),
                Hdr("a", [kdf |-> ArgSet(KdfArgon2id, "12000000", "01000000", S32("b2"))]),
                Hdr("a", [kdf |-> ArgSet(KdfArgon2d, "13000000", "00000000", S32("b2"))]),
                Hdr("a", [kdf |-> ArgSet(KdfArgon2d, "13000000", "03000000", S32("b2"))]),
                Hdr("a", [kdf |-> ArgSet(KdfArgon2d, "13000000", "01000000", "01020304050607")]),
                Inn("a", [alg |-> "00000000"]), Inn("a", [alg |-> "01000000"]), Inn("a", [alg |-> "07000000"]),
                Edit("a", SetTitle("x6101")), Edit("a", SetTitle("xefbfbf")),
                Edit("a", [op |-> "dbName", v |-> "x00"]),
                Edit("a", [op |-> "gAct", g |-> <<1>>, a |-> [t |-> "name", v |-> "x1b"]]),
                Edit("a", [op |-> "dbCustom", f |-> F("x", "x61", FALSE)]),
                Edit("a", [op |-> "eAct", r |-> E1, a |-> [t |-> "add", f |-> F("x", "none", TRUE)]]),
                Edit("a", [op |-> "eAct", r |-> [E1 EXCEPT !.h = <<1>>],
                           a |-> [t |-> "add", f |-> F("x0b", "x61", TRUE)]]),
                Save("a", "f") >>,
     epi |-> << Save("a", "g"), Obs("a"), Decode("g", Cr1), Open("b", "g"), CrOp("unlock", "b", Cr1),
                \* correct everything
                Hdr("a", [iv |-> Iv16, cipher |-> CipherAes, comp |-> "00000000", kdf |-> Kdf1]),
                Inn("a", [alg |-> "03000000", key |-> S32("66")]),
                CrOp("key", "a", Cr2),
                Edit("a", SetTitle("x61")), Edit("a", [op |-> "dbName", v |-> "x61"]),
                Edit("a", [op |-> "gAct", g |-> <<1>>, a |-> [t |-> "name", v |-> "x1f"]]),
                Edit("a", [op |-> "gAct", g |-> <<1>>, a |-> [t |-> "name", v |-> "x09"]]),
                Save("a", "h"), Decode("h", Cr2), Open("c", "h"), CrOp("unlock", "c", Cr2), Obs("c") >>]

---------------------------------------------------------------------------
(* Protection of fields through edits, saves and reopening.                *)
KX == "x6b78"
EAct(h, a) == Edit("a", [op |-> "eAct", r |-> [E1 EXCEPT !.h = h], a |-> a])
OnField(h, k, a) == EAct(h, [t |-> "field", k |-> k, a |-> a])
ProtDb == [SmallDb EXCEPT !.root.entries =
              << Ent(1, << F(KTitle, "x61", FALSE), F(KPass, "x7031", TRUE), F(KX, "x7032", TRUE), F(KPass, "x7033", TRUE) >>,
                     << Ent(1, <<F(KPass, "x6f6c64", TRUE), F(KX, "x6f", FALSE)>>, <<>>) >>),
                 Ent(4, << F(KX, "x7034", TRUE) >>, <<>>) >>]
Protect ==
    [d |-> <<>>,
     pro |-> << [op |-> "new", a |-> "a", db |-> ProtDb], Hdr("a", [kdf |-> Kdf1]), CrOp("key", "a", Cr1) >>,
     ops |-> << OnField(<<>>, KPass, [t |-> "set", v |-> "x6e657773656372657431"]), OnField(<<>>, KPass, [t |-> "clear"]),
                OnField(<<>>, KPass, [t |-> "prot", b |-> FALSE]), OnField(<<>>, KPass, [t |-> "prot", b |-> TRUE]),
                OnField(<<>>, KX, [t |-> "set", v |-> "x"]), OnField(<<>>, KX, [t |-> "clear"]),
                OnField(<<>>, KX, [t |-> "key", v |-> KTitle]),
                OnField(<<>>, KTitle, [t |-> "prot", b |-> TRUE]), OnField(<<>>, KTitle, [t |-> "set", v |-> "x7469746c6532"]),
                EAct(<<>>, [t |-> "title", v |-> "x7469"]),
                EAct(<<>>, [t |-> "password", v |-> "x6e657770617373"]), EAct(<<>>, [t |-> "password", v |-> "x"]),
                EAct(<<>>, [t |-> "otp", secret |-> "x73656372", period |-> "30", digits |-> "6", v |-> "x6f7470"]),
                EAct(<<>>, [t |-> "remove", k |-> KPass]),
                EAct(<<>>, [t |-> "add", f |-> F("x6f7470", "x6f6c646f7470", FALSE)]),
                EAct(<<>>, [t |-> "allFields", a |-> [t |-> "set", v |-> "x616c6c76616c756573"]]),
                EAct(<<>>, [t |-> "allFields", a |-> [t |-> "clear"]]),
                EAct(<<>>, [t |-> "version"]),
                EAct(<<1>>, [t |-> "password", v |-> "x6f6c6432"]), OnField(<<1>>, KPass, [t |-> "clear"]),
                OnField(<<1>>, KX, [t |-> "prot", b |-> TRUE]),
                Edit("a", [op |-> "dbMp", mp |-> <<FALSE, FALSE, FALSE, FALSE, FALSE>>]),
                Edit("a", [op |-> "dbCustom", f |-> F("x6332", "x637573746f6d736563", TRUE)]),
                Edit("a", [op |-> "gRemoveE", g |-> <<>>, id |-> Id(4)]),
                Save("a", "f"), Open("a", "f"), CrOp("unlock", "a", Cr1) >>,
     epi |-> << Obs("a"), Save("a", "g"), Decode("g", Cr1), Open("b", "g"), CrOp("unlock", "b", Cr1), Obs("b") >>]

Scen(name) ==
    CASE name = "life" -> Life
      [] name = "keys" -> Keys
      [] name = "locked4" -> Locked(FileD4)
      [] name = "locked3" -> Locked(FileD3)
      [] name = "bad" -> Bad
      [] name = "protect" -> Protect
=============================================================================
