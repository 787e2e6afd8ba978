------------------------------ MODULE KdbxNew -------------------------------
(***************************************************************************)
(* What newly made items are like.  Entries, groups and databases start    *)
(* empty and carry the moment they were made at, in UTC and to the whole   *)
(* second; an archive takes the database it is given and brings the        *)
(* documented settings.  Neither the passing of time nor the zone of the   *)
(* machine changes anything about them.                                    *)
(*                                                                         *)
(* A world has the entry, the group, the database and the archive made     *)
(* last (None if there is none or it was moved elsewhere), the identifiers *)
(* given so far and whether the archive has a key.                         *)
(*                                                                         *)
(* A record of an operation is                                             *)
(*   [ret, lo, hi, got]   lo, hi: the clock before and after               *)
(***************************************************************************)
EXTENDS KdbxXml

World0 == [entry |-> None, group |-> None, db |-> None, arch |-> None, keyed |-> FALSE, ids |-> {}]

---------------------------------------------------------------------------
(* The moment: tokens compared as <<day, second>> *)
NotAfter(a, b) == LET x == DaySec(a) y == DaySec(b) IN x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Whole(t) == Len(t) = 17
During(t, lo, hi) == Whole(t) /\ NotAfter(lo, t) /\ NotAfter(t, hi)
NewTimes(t, lo, hi) ==
    /\ \A n \in {"mod", "cre", "acc", "exp", "loc"} : During(t[n], lo, hi)
    /\ t.expires = FALSE
    /\ t.usage = "0"

NewEntry(e, lo, hi) == e.fields = <<>> /\ e.hist = <<>> /\ NewTimes(e.times, lo, hi)
NewGroup(g, name, lo, hi) == g.name = name /\ g.entries = <<>> /\ g.groups = <<>> /\ NewTimes(g.times, lo, hi)
NewMeta == [name |-> "x", desc |-> "x", custom |-> <<>>, mp |-> <<FALSE, FALSE, FALSE, FALSE, FALSE>>]
RootName == "x526f6f74"
NewDb(d, lo, hi) == d.meta = NewMeta /\ NewGroup(d.root, RootName, lo, hi)

---------------------------------------------------------------------------
(* Settings of new archives: as documented, or stronger *)
Aes256 == "31c1f2e6bf714350be5805216afc5aff"
Argon2d == "ef636ddf8c29444b91f7a9a403e30a0c"
ParamOf(kdf, name) == LET s == SelectSeq(kdf.p, LAMBDA p : p[1] = name) IN IF s = <<>> THEN "" ELSE s[1][3]
\* number in little endian is at least n
AtLeast(h, n) ==
    LET b == Bytes(h)
        low == FoldLeft(LAMBDA acc, x : acc * 256 + x, 0, Reverse(SubSeq(b, 1, 3)))
    IN  /\ Len(b) >= 4
        /\ (\E i \in 4..Len(b) : b[i] # 0 /\ (i > 4 \/ b[i] * 16777216 + low >= n)) \/ low >= n
Documented(s) ==
    /\ s.major = 4
    /\ s.raw = FALSE
    /\ s.hdr.cipher = Aes256
    /\ s.hdr.kdf.uuid = Argon2d
    /\ AtLeast(ParamOf(s.hdr.kdf, "x49"), 10)
    /\ AtLeast(ParamOf(s.hdr.kdf, "x4d"), 65535 * 1024)
    /\ AtLeast(ParamOf(s.hdr.kdf, "x50"), 1)
    /\ ParamOf(s.hdr.kdf, "x56") = "13000000"
    /\ s.hdr.comp \in {"00000000", "01000000"}
    /\ s.hdr.start = "none"
    /\ s.hdr.other = 0
    /\ s.inner.alg = "03000000"
    /\ s.inner.other = 0

---------------------------------------------------------------------------
Res(w, ok) == [w |-> w, ok |-> ok]
\* a new item in its place, with identifiers not seen before
Made(w, k, v, id, ok) == Res([w EXCEPT ![k] = Some(v), !.ids = @ \union {id}], ok /\ id \notin w.ids)
View(w) == [entry |-> w.entry, group |-> w.group, db |-> w.db, arch |-> w.arch]

There(w, o) ==
    CASE o.op = "putEntry" -> w.entry # None /\ w.db # None
      [] o.op = "putGroup" -> w.group # None /\ w.db # None
      [] o.op = "fill" -> w.entry # None /\ w.group # None
      [] o.op = "archive" -> w.db # None
      [] o.op \in {"key", "save"} -> w.arch # None
      [] OTHER -> TRUE

Step(w, o, r) ==
    IF ~There(w, o) THEN Res(w, r.ret = "skipped")
    ELSE IF r.ret \notin {"ok", "err"} THEN Res(w, FALSE)
    ELSE CASE o.op = "entry" -> Made(w, "entry", r.got, r.got.id, NewEntry(r.got, r.lo, r.hi))
      [] o.op = "group" -> Made(w, "group", r.got, r.got.id, NewGroup(r.got, "x", r.lo, r.hi))
      [] o.op = "named" -> Made(w, "group", r.got, r.got.id, NewGroup(r.got, o.name, r.lo, r.hi))
      [] o.op = "db" -> Made(w, "db", r.got, r.got.root.id, NewDb(r.got, r.lo, r.hi))
      [] o.op = "putEntry" -> Res([w EXCEPT !.entry = None,
                                            !.db = Some([@[2] EXCEPT !.root = [@ EXCEPT !.entries = Append(@, w.entry[2])]])], r.ret = "ok")
      [] o.op = "putGroup" -> Res([w EXCEPT !.group = None,
                                            !.db = Some([@[2] EXCEPT !.root = [@ EXCEPT !.groups = Append(@, w.group[2])]])], r.ret = "ok")
      [] o.op = "fill" -> Res([w EXCEPT !.entry = None, !.group = Some([@[2] EXCEPT !.entries = Append(@, w.entry[2])])], r.ret = "ok")
      [] o.op = "archive" -> Res([w EXCEPT !.db = None, !.arch = w.db, !.keyed = FALSE],
                                 r.got.db = w.db[2] /\ Documented(r.got))
      [] o.op = "key" -> Res([w EXCEPT !.keyed = TRUE], r.ret = "ok")
      [] o.op = "save" -> Res(w, IF w.keyed THEN r.ret = "ok" /\ r.got = Canon(w.arch[2]) ELSE r.ret = "err")
      [] o.op = "look" -> Res(w, r.got = View(w))
      [] o.op = "tick" -> Res(w, r.ret = "ok")
=============================================================================
