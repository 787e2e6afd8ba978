----------------------------- MODULE KdbxExport -----------------------------
(***************************************************************************)
(* Database XML on its own: documents written with and read through a      *)
(* stream cipher the caller holds, without an archive around them.         *)
(*                                                                         *)
(*   stream  [alg, key, off]   alg "none": not there; off: bytes used      *)
(*   document  [k |-> "none"]                                              *)
(*             [k |-> "doc", db, alg, key, off]   written completely by a  *)
(*                 stream that stood at off                                *)
(*             [k |-> "part", whole]   a write that failed left something  *)
(*                                                                         *)
(* A stream is used for the protected values only, in document order, so   *)
(* several documents can follow each other on one stream.                  *)
(***************************************************************************)
EXTENDS KdbxXml

StreamNames == {"s", "t"}
DocNames == {"d", "e"}
NoStream == [alg |-> "none", key |-> "", off |-> 0]
NoDoc == [k |-> "none"]
World0 == [st |-> [x \in StreamNames |-> NoStream], doc |-> [x \in DocNames |-> NoDoc]]
Usable == {"chacha20", "salsa20", "null"}

---------------------------------------------------------------------------
(* How much of a stream a database takes *)

LenV(v) == IF v = "none" THEN 0 ELSE TokLen(v)
ProtLenFs(fs) == FoldLeft(LAMBDA acc, f : IF f.p THEN acc + LenV(f.v) ELSE acc, 0, fs)
RECURSIVE ProtLenE(_)
ProtLenE(e) == FoldLeft(LAMBDA acc, h : acc + ProtLenE(h), ProtLenFs(e.fields), e.hist)
RECURSIVE ProtLenG(_)
ProtLenG(g) == FoldLeft(LAMBDA acc, s : acc + ProtLenG(s),
                        FoldLeft(LAMBDA acc, e : acc + ProtLenE(e), 0, g.entries), g.groups)
ProtLen(db) == ProtLenG(db.root) + ProtLenFs(db.meta.custom)

\* the database without what protected fields say
MaskFs(fs) == [i \in 1..Len(fs) |-> IF fs[i].p THEN [fs[i] EXCEPT !.v = "hidden"] ELSE fs[i]]
RECURSIVE MaskE(_)
MaskE(e) == [e EXCEPT !.fields = MaskFs(@), !.hist = [i \in 1..Len(@) |-> MaskE(@[i])]]
RECURSIVE MaskG(_)
MaskG(g) == [g EXCEPT !.entries = [i \in 1..Len(@) |-> MaskE(@[i])], !.groups = [i \in 1..Len(@) |-> MaskG(@[i])]]
Mask(db) == [meta |-> [db.meta EXCEPT !.custom = MaskFs(@)], root |-> MaskG(db.root)]

---------------------------------------------------------------------------
(* The stream stands where the one that wrote the document stood *)
Reads(d, s) == d.alg = s.alg /\ (d.alg = "null" \/ (d.key = s.key /\ d.off = s.off))

\* an independent reader finds in the document what was to be written
GoodExport(doc, db, off) ==
    /\ doc.n = "KeePassFile"
    /\ GoodEl(doc)
    /\ Contiguous(Prots(doc), off)
    /\ Len(Prots(doc)) = CountProt(db)
    /\ ReadDoc(doc) = Canon(db)

---------------------------------------------------------------------------
(* Step(w, o, r): r is what was recorded,                                  *)
(*   [ret, off: where the stream stands now,                               *)
(*    failed: the source or sink failed,  cut: some of the document was    *)
(*    not delivered,  whole: what was written is a complete document,      *)
(*    doc: what was written, as an independent reader sees it,  db]        *)

Res(w, ok) == [w |-> w, ok |-> ok]
SetOff(w, s, off) == [w EXCEPT !.st = [@ EXCEPT ![s] = [@ EXCEPT !.off = off]]]
SetDoc(w, d, x) == [w EXCEPT !.doc = [@ EXCEPT ![d] = x]]

Open(w, o, r) ==
    IF o.alg \in Usable
    THEN Res([w EXCEPT !.st = [@ EXCEPT ![o.s] = [alg |-> o.alg, key |-> o.key, off |-> 0]]], r.ret = <<"ok">>)
    ELSE Res(w, r.ret[1] = "err")

Write(w, o, r) ==
    LET s == w.st[o.s]
        good == Storable(r.db)
    IN  IF r.ret[1] = "ok"
        THEN Res(SetDoc(SetOff(w, o.s, r.off), o.d, [k |-> "doc", db |-> r.db, alg |-> s.alg, key |-> s.key, off |-> s.off]),
                 /\ good /\ ~r.failed
                 /\ r.off = s.off + ProtLen(r.db)
                 /\ r.doc # <<>>
                 /\ GoodExport(r.doc[1], r.db, s.off))
        ELSE Res(SetDoc(SetOff(w, o.s, r.off), o.d, [k |-> "part", whole |-> r.whole]),
                 /\ r.ret[1] = "err"
                 /\ r.failed \/ ~good
                 /\ r.off \in s.off..(s.off + ProtLen(r.db)))

Read(w, o, r) ==
    LET s == w.st[o.s]
        d == w.doc[o.d]
        w1 == SetOff(w, o.s, r.off)
    IN  IF d.k = "part"
        THEN Res(w1, r.ret[1] = "err" \/ (r.ret[1] = "ok" /\ d.whole /\ ~r.cut))
        ELSE IF r.ret[1] = "ok"
        THEN Res(w1, /\ ~r.cut
                     /\ r.off = s.off + ProtLen(d.db)
                     /\ IF Reads(d, s) THEN r.ret[2] = Canon(d.db) ELSE Mask(r.ret[2]) = Mask(Canon(d.db)))
        ELSE Res(w1, /\ r.ret[1] = "err"
                     /\ r.cut \/ r.failed \/ (~Reads(d, s) /\ ProtLen(d.db) > 0)
                     /\ r.off \in s.off..(s.off + ProtLen(d.db)))

Idle(w, o) == o.op # "stream" /\ (w.st[o.s].alg = "none" \/ (o.op = "read" /\ w.doc[o.d].k = "none"))
Step(w, o, r) ==
    IF r.ret[1] = "skipped" \/ Idle(w, o) THEN Res(w, r.ret[1] = "skipped" /\ Idle(w, o))
    ELSE CASE o.op = "stream" -> Open(w, o, r)
           [] o.op = "write" -> Write(w, o, r)
           [] o.op = "read" -> Read(w, o, r)
=============================================================================
