----------------------------- MODULE KdbxArchive ----------------------------
(***************************************************************************)
(* The life of archives: creating, opening, unlocking, changing settings,  *)
(* keys and content, saving, and what happens to files in between.         *)
(*                                                                         *)
(* A world holds archives (in memory) and files (bytes):                   *)
(*   archive  [st |-> "empty"]                                             *)
(*            [st |-> "locked", hdr, others, hdr0, others0, file]          *)
(*                 hdr0, others0: as opened;  file: where from             *)
(*            [st |-> "unlocked", ver, hdr, others, inner, iothers, db,    *)
(*             raw, key]                                                   *)
(*   file     [t |-> "none"]                                               *)
(*            a record of KdbxFormat!FileRec (t = "kdbx")                  *)
(*            [t |-> "damaged", of |-> file record, hdrHit |-> BOOLEAN]    *)
(*            [t |-> "junk"]      must never unlock                        *)
(*                                                                         *)
(* Step(w, o, ret) is [w |-> next world, ok |-> is ret an allowed result   *)
(* of operation o in world w].                                             *)
(***************************************************************************)
EXTENDS KdbxFormat

NoArch == [st |-> "empty"]
NoFile == [t |-> "none"]
ArchNames == {"a", "b", "c"}
FileNames == {"f", "g", "h", "i"}
World0 == [arch |-> [x \in ArchNames |-> NoArch], file |-> [x \in FileNames |-> NoFile], n |-> 0]

NoKey == <<"no key">>

Res(w, ok) == [w |-> w, ok |-> ok]
SetA(w, x, a) == [w EXCEPT !.arch = [@ EXCEPT ![x] = a]]
SetF(w, x, f) == [w EXCEPT !.file = [@ EXCEPT ![x] = f]]
IsOk(ret) == ret[1] = "ok"
IsErr(ret) == ret[1] = "err"

---------------------------------------------------------------------------
Savable(a) == /\ a.ver[1] = 4
              /\ a.key # NoKey
              /\ HdrOK(a.hdr)
              /\ InnerOK(a.inner.alg)
              /\ Storable(a.db)

\* the file a save of an unlocked archive makes
Snapshot(a, uid) ==
    [t |-> "kdbx", ver |-> a.ver, hdr |-> [a.hdr EXCEPT !.start = "none"], others |-> a.others,
     inner |-> a.inner, iothers |-> a.iothers, db |-> Canon(a.db), cr |-> a.key,
     raw |-> "unknown", uid |-> uid, hlen |-> 0, own |-> TRUE]

---------------------------------------------------------------------------
(* Settings *)
OthersAs(how, s) == CASE how = "clear" -> <<>>
                      [] how = "reverse" -> Reverse(s)
                      [] how = "dup" -> s \o s
                      [] how = "keep" -> s
SetHas(s, k) == k \in DOMAIN s
Dflt(s, k, d) == IF SetHas(s, k) THEN s[k] ELSE d

\* settings are given and observed in the same notation
KdfSet(k) == [uuid |-> k.uuid, p |-> {<<k.p[i][1], k.p[i][2], k.p[i][3]>> : i \in 1..Len(k.p)}]
NewHdr(h, others, s) ==
    LET os == OthersAs(Dflt(s, "other", "keep"), others)
    IN  << [cipher |-> Dflt(s, "cipher", h.cipher), comp |-> Dflt(s, "comp", h.comp), seed |-> Dflt(s, "seed", h.seed),
            iv |-> Dflt(s, "iv", h.iv), kdf |-> IF SetHas(s, "kdf") THEN KdfSet(s.kdf) ELSE h.kdf,
            other |-> Len(os), start |-> h.start], os >>
NewInner(i, others, s) ==
    LET os == OthersAs(Dflt(s, "other", "keep"), others)
    IN  << [alg |-> Dflt(s, "alg", i.alg), key |-> Dflt(s, "key", i.key), other |-> Len(os)], os >>

---------------------------------------------------------------------------
(* Observations *)
LockedOK(a, obs) == obs.st = "locked" /\ HdrOf(obs.hdr) = a.hdr /\ <<obs.ver[1], obs.ver[2]>> = a.file.ver
RawOK(raw, seen) == raw = "unknown" \/ raw = seen
UnlockedOK(a, obs) ==
    /\ obs.st = "unlocked"
    /\ <<obs.ver[1], obs.ver[2]>> = a.ver
    /\ HdrOf(obs.hdr) = a.hdr
    /\ obs.inner = a.inner
    /\ obs.db = a.db
    /\ obs.raw = a.raw

\* opening a file whose bytes are intact
Opened(f) == [st |-> "locked", hdr |-> f.hdr, others |-> f.others, hdr0 |-> f.hdr, others0 |-> f.others, file |-> f]
\* unlocking it: the database may have absent values for empty ones
Unlocked(f, obs) ==
    [st |-> "unlocked", ver |-> f.ver, hdr |-> f.hdr, others |-> f.others, inner |-> f.inner,
     iothers |-> f.iothers, db |-> obs.db, raw |-> obs.raw, key |-> f.cr]
UnlockOK(f, hdr, obs) ==
    /\ obs.st = "unlocked"
    /\ <<obs.ver[1], obs.ver[2]>> = f.ver
    /\ HdrOf(obs.hdr) = hdr
    /\ obs.inner = f.inner
    /\ Canon(obs.db) = f.db
    /\ obs.raw # "none"
    /\ RawOK(f.raw, obs.raw)

---------------------------------------------------------------------------
(* Independent reading of a saved file: D as decoded *)
Fails(name, ok) == IF ok THEN {} ELSE {name}
DecodeBad(f, D) ==
    LET E == [v |-> 4, fields |-> D.fields, vdict |-> D.vdict, inner |-> D.inner]
        present == /\ \A id \in {2, 3, 4, 7} : HasField(D.fields, id)
                   /\ HasField(D.fields, 11) \/ (HasField(D.fields, 5) /\ HasField(D.fields, 6))
                   /\ \A id \in {1, 2} : HasField(D.inner, id)
        \* what this library writes has each field once, and nothing else
        single == /\ \A id \in {2, 3, 4, 7, 11} : Len(FieldsOf(D.fields, id)) = 1
                  /\ \A id \in {1, 2} : Len(FieldsOf(D.inner, id)) = 1
                  /\ FieldsOf(D.fields, 9) = <<>>
                  /\ D.fields[Len(D.fields)].id = 0
                  /\ D.inner[Len(D.inner)].id = 0
                  /\ HexLen(FieldData(D.inner, 1)) = 4
        db == ReadDoc(D.doc)
    IN  IF ~present THEN {"missing fields"}
        ELSE Fails("fields", f.own => single)
             \union Fails("version", D.minor = f.ver[2])
             \union Fails("header", HdrView(E) = f.hdr)
             \union Fails("other fields", OthersOf(E) = f.others)
             \union Fails("parameters",
                         f.own => /\ D.vdver = "0001" /\ D.vdrest = ""
                                  /\ \A i, j \in 1..Len(D.vdict) : i # j => D.vdict[i][2] # D.vdict[j][2])
             \union Fails("inner header", InnerView(E) = f.inner)
             \union Fails("other inner fields", InnerOthersOf(E) = f.iothers)
             \union Fails("compression", D.gz = (f.hdr.comp = "01000000"))
             \union Fails("document", f.own => GoodDoc(D.doc))
             \union Fails("database: settings", db.meta = f.db.meta)
             \union Fails("database: content", db.root = f.db.root)
             \union Fails("protected values", f.own => Len(Prots(D.doc)) = CountProt(f.db) /\ NoLeak(D.doc))
             \union Fails("raw XML", RawOK(f.raw, D.xml))
DecodeOK(f, D) == DecodeBad(f, D) = {}

---------------------------------------------------------------------------
(* Damage: edits of a file's bytes.  Positions are from 0. *)

\* does an edit certainly damage the header of hlen bytes (0: unknown) or the
\* hash behind it?  An inserted or deleted byte may equal its neighbour, so
\* behind the header it may leave the hash as it was.
EditHitsHeader(e, hlen) ==
    IF hlen = 0 THEN FALSE
    ELSE CASE e.t = "flip" -> e.at < hlen + 32 /\ "wrap" \notin DOMAIN e
           [] e.t = "set" -> e.at < hlen + 32 /\ "differs" \in DOMAIN e
           [] e.t = "trunc" -> e.n < hlen + 32
           [] e.t \in {"insert", "delete"} -> e.at < hlen
           [] OTHER -> FALSE

SrcOf(o) == IF SetHas(o, "src") THEN o.src ELSE [chunks |-> <<>>]

\* a file of which only a part was written or read
Damaged(f) == IF f.t = "kdbx" THEN [t |-> "damaged", of |-> f, hdrHit |-> FALSE] ELSE f

OpenStep(w, o, ret) ==
    LET f == w.file[o.f]
        src == SrcOf(o)
        short == SetHas(src, "eof")
    IN  IF IsErr(ret)
        THEN Res(SetA(w, o.a, NoArch),
                 \/ f.t \in {"junk", "damaged"}
                 \/ short
                 \/ ret[3])         \* the source failed
        ELSE IF ~IsOk(ret) THEN Res(w, FALSE)
        ELSE IF ret[3] THEN Res(w, FALSE)
        ELSE IF f.t = "kdbx"
        THEN IF ~short THEN Res(SetA(w, o.a, Opened(f)), LockedOK(Opened(f), ret[2]))
             ELSE LET a == [Opened(f) EXCEPT !.file = Damaged(f)]
                  IN  Res(SetA(w, o.a, a),
                          /\ (f.hlen > 0) => (src.eof >= f.hlen + (IF f.ver[1] = 4 THEN 32 ELSE 0))
                          /\ LockedOK(Opened(f), ret[2]))
        ELSE IF f.t = "damaged"
        THEN LET a == [Opened(f.of) EXCEPT !.file = f]
             IN  Res(SetA(w, o.a, a), ~f.hdrHit /\ LockedOK(Opened(f.of), ret[2]))
        ELSE LET h == HdrOf(ret[2].hdr)
                 os == [i \in 1..h.other |-> <<"unknown", i>>]
             IN  Res(SetA(w, o.a, [st |-> "locked", hdr |-> h, others |-> os, hdr0 |-> h, others0 |-> os, file |-> f]), TRUE)

LockedSame(a, obs) == obs.st = "locked" /\ HdrOf(obs.hdr) = a.hdr

\* settings changed since the file was opened
Changed(a) == a.hdr # a.hdr0 \/ a.others # a.others0

UnlockStep(w, o, ret) ==
    LET a == w.arch[o.a]
        f == a.file
        orig == IF f.t = "damaged" THEN f.of ELSE f
        right == orig.t = "kdbx" /\ Norm(o) = orig.cr /\ CanUnlock(orig)
        wrong == orig.t = "kdbx" /\ Norm(o) # orig.cr
        clean == f.t = "kdbx" /\ ~Changed(a)
        \* with changed settings unlocking need not work, but never shows anything else
        now == IF orig.t = "kdbx" THEN [orig EXCEPT !.hdr = a.hdr, !.others = a.others] ELSE orig
    IN  IF IsErr(ret)
        THEN Res(w, /\ LockedSame(a, ret[3])
                    /\ ~(right /\ clean)
                    /\ (clean /\ wrong /\ f.ver[1] = 4 /\ KdfOK(a.hdr.kdf)) => ret[2] = "hmac"
                    /\ (clean /\ ~KdfOK(a.hdr.kdf)) => ret[2] = "keygen")
        ELSE IF ~IsOk(ret) THEN Res(w, FALSE)
        ELSE IF orig.t # "kdbx" THEN Res(w, FALSE)
        ELSE Res(SetA(w, o.a, Unlocked(now, ret[2])), right /\ UnlockOK(now, a.hdr, ret[2]))

SaveStep(w, o, ret) ==
    LET a == w.arch[o.a]
        w1 == [w EXCEPT !.n = @ + 1]
    IN  IF a.st = "locked"
        THEN IF IsOk(ret)
             THEN Res(SetF(w1, o.f, a.file), ~ret[2] /\ ~Changed(a))
             ELSE Res(SetF(w1, o.f, IF ret[3] THEN Damaged(a.file) ELSE [t |-> "junk"]),
                      IsErr(ret) /\ (ret[3] \/ Changed(a)))
        ELSE IF IsOk(ret)
        THEN Res(SetF(w1, o.f, Snapshot(a, w1.n)), ~ret[2] /\ Savable(a))
        ELSE Res(SetF(w1, o.f, IF Savable(a) THEN Damaged(Snapshot(a, w1.n)) ELSE [t |-> "junk"]),
                 IsErr(ret) /\ (ret[3] \/ ~Savable(a)))

EditState(a) == [db |-> a.db, ce |-> <<>>, cg |-> <<>>]

\* operations that do not apply are skipped
Applies(w, o) ==
    CASE o.op \in {"hdr", "save"} -> w.arch[o.a].st # "empty"
      [] o.op \in {"inner", "key"} -> w.arch[o.a].st = "unlocked"
      [] o.op = "edit" -> IF w.arch[o.a].st = "unlocked" THEN Enabled(EditState(w.arch[o.a]), o.o) ELSE FALSE
      [] o.op = "unlock" -> w.arch[o.a].st = "locked"
      [] o.op \in {"open", "decode"} -> w.file[o.f].t # "none"
      [] o.op = "mutate" -> w.file[o.from].t # "none"
      [] o.op = "same" -> w.file[o.f].t # "none" /\ w.file[o.g].t # "none"
      [] o.op = "sameHeaders" -> w.arch[o.a].st # "empty" /\ w.arch[o.b].st # "empty"
      [] OTHER -> TRUE

Step(w, o, ret) ==
    IF ret[1] = "panic" THEN Res(w, FALSE)
    ELSE IF ~Applies(w, o) THEN Res(w, ret[1] = "skipped")
    ELSE IF ret[1] = "skipped" THEN Res(w, FALSE)
    ELSE
    CASE o.op = "new" ->
            LET obs == ret[2]
                a == [st |-> "unlocked", ver |-> <<4, 0>>, hdr |-> HdrOf(obs.hdr), others |-> <<>>,
                      inner |-> obs.inner, iothers |-> <<>>, db |-> o.db, raw |-> "none", key |-> NoKey]
            IN  Res(SetA(w, o.a, a),
                    IsOk(ret) /\ UnlockedOK(a, obs) /\ HdrOK(a.hdr) /\ InnerOK(a.inner.alg)
                    /\ a.hdr.other = 0 /\ a.inner.other = 0 /\ a.hdr.start = "none")
      [] o.op = "hdr" ->
            LET a == w.arch[o.a]
                h == NewHdr(a.hdr, a.others, o.set)
            IN  Res(SetA(w, o.a, [a EXCEPT !.hdr = h[1], !.others = h[2]]), IsOk(ret))
      [] o.op = "inner" ->
            LET a == w.arch[o.a]
                h == NewInner(a.inner, a.iothers, o.set)
            IN  Res(SetA(w, o.a, [a EXCEPT !.inner = h[1], !.iothers = h[2]]), IsOk(ret))
      [] o.op = "key" ->
            LET a == w.arch[o.a] IN
            IF IsOk(ret) THEN Res(SetA(w, o.a, [a EXCEPT !.key = Norm(o)]), TRUE)
            ELSE Res(w, IsErr(ret) /\ ~KdfOK(a.hdr.kdf))
      [] o.op = "edit" ->
            LET a == w.arch[o.a]
            IN  Res(SetA(w, o.a, [a EXCEPT !.db = Apply(EditState(a), o.o).st.db]), IsOk(ret))
      [] o.op = "obs" ->
            LET a == w.arch[o.a] IN
            Res(w, /\ IsOk(ret)
                   /\ CASE a.st = "empty" -> ret[2].st = "empty"
                        [] a.st = "locked" -> LockedSame(a, ret[2])
                        [] a.st = "unlocked" -> UnlockedOK(a, ret[2]))
      [] o.op = "save" -> SaveStep(w, o, ret)
      [] o.op = "open" -> OpenStep(w, o, ret)
      [] o.op = "unlock" -> UnlockStep(w, o, ret)
      [] o.op = "bytes" ->
            IF SetHas(o, "forged") THEN Res(SetF(w, o.f, [t |-> "junk"]), IsOk(ret))
            ELSE Res([SetF(w, o.f, FileRec(o.d, IF Len(ret) > 2 THEN ret[3] ELSE "unknown", w.n + 1)) EXCEPT !.n = @ + 1],
                IsOk(ret))
      [] o.op = "hex" -> Res(SetF(w, o.f, [t |-> "junk"]), IsOk(ret))
      [] o.op = "mutate" ->
            LET f == w.file[o.from]
                f0 == IF f.t = "damaged" THEN f.of ELSE f
            IN  IF f.t = "junk" THEN Res(SetF(w, o.f, f), IsOk(ret))
                ELSE Res(SetF(w, o.f,
                              [t |-> "damaged", of |-> f0,
                               hdrHit |-> /\ Len(o.edits) = 1
                                          /\ f0.ver[1] = 4
                                          /\ EditHitsHeader(o.edits[1], f0.hlen)]),
                         IsOk(ret))
      [] o.op = "same" ->
            LET f == w.file[o.f]
                g == w.file[o.g]
            IN  Res(w, ret[1] = "same" /\ ((f.t = "kdbx" /\ g.t = "kdbx" /\ f.uid = g.uid) => ret[2] = TRUE))
      [] o.op = "sameHeaders" ->
            LET a == w.arch[o.a]
                b == w.arch[o.b]
            IN  Res(w, /\ ret[1] = "same"
                            /\ ret[2] <=> /\ a.hdr = b.hdr /\ a.others = b.others
                                          /\ (a.st = "unlocked" /\ b.st = "unlocked")
                                             => (a.inner = b.inner /\ a.iothers = b.iothers))
      [] o.op = "decode" ->
            LET f == w.file[o.f] IN
            IF f.t = "kdbx"
            THEN IF f.ver[1] # 4 THEN Res(w, TRUE)
                 ELSE IF Norm(o) = f.cr /\ CanUnlock(f)
                 THEN IF IsOk(ret) THEN Res(SetF(w, o.f, [f EXCEPT !.raw = ret[2].xml]), DecodeOK(f, ret[2]))
                      ELSE Res(w, FALSE)
                 ELSE Res(w, IsErr(ret))
            ELSE IF IsErr(ret) THEN Res(w, TRUE)
            ELSE Res(w, f.t = "damaged" /\ f.of.t = "kdbx" /\ Norm(o) = f.of.cr /\ DecodeOK(f.of, ret[2]))
=============================================================================
