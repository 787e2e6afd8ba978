------------------------------ MODULE MCExport ------------------------------
(***************************************************************************)
(* Documents as trees whose protected values are bound to a place in a     *)
(* stream, read by walking through them with another stream: what Step     *)
(* allows is what such a reader gets, in every world within DEPTH          *)
(* operations.                                                             *)
(***************************************************************************)
EXTENDS ExportScen, IOUtils
Depth == atoi(IOEnv.DEPTH)

\* reading place by place: <<tree with the texts that come out, next offset>>
RECURSIVE Walk(_, _, _)
Walk(el, d, s) ==
    LET kids == FoldLeft(LAMBDA acc, k : LET q == Walk(k, d, [s EXCEPT !.off = acc[2]]) IN <<Append(acc[1], q[1]), q[2]>>,
                         << <<>>, s.off >>, el.c)
        here == s.alg = d.alg /\ (s.alg = "null" \/ (s.key = d.key /\ el.d[1].off = kids[2]))
        out == IF el.d = <<>> \/ here \/ el.d[1].len = 0 THEN el.d ELSE << [el.d[1] EXCEPT !.x = "xff"] >>
    IN  <<[el EXCEPT !.c = kids[1], !.d = out], kids[2] + (IF el.d = <<>> THEN 0 ELSE el.d[1].len)>>

Tree(d) == Strip(LayoutAt(d.db, PlainStyle, d.off))
Result(d, s) == LET q == Walk(Tree(d), d, s) IN [db |-> ReadDoc(q[1]), off |-> q[2]]

VARIABLES w, n
Init == w = World0 /\ n = 0

\* records of one operation
Recs(o) ==
    LET none == [ret |-> <<"skipped">>, off |-> 0, failed |-> FALSE, cut |-> FALSE, whole |-> FALSE, doc |-> <<>>, db |-> <<>>]
    IN  CASE o.op = "stream" -> {[none EXCEPT !.ret = <<"ok">>], [none EXCEPT !.ret = <<"err">>]}
          [] o.op = "write" ->
               LET s == w.st[o.s] IN
               {none, [none EXCEPT !.ret = <<"ok">>, !.off = s.off + ProtLen(o.db), !.db = o.db,
                                   !.doc = <<Strip(LayoutAt(o.db, PlainStyle, s.off))>>],
                [none EXCEPT !.ret = <<"err">>, !.off = s.off, !.db = o.db],
                [none EXCEPT !.ret = <<"err">>, !.off = s.off, !.db = o.db, !.failed = TRUE]}
          [] o.op = "read" ->
               LET s == w.st[o.s] d == w.doc[o.d] IN
               {none, [none EXCEPT !.ret = <<"err">>, !.off = s.off]}
               \union (IF d.k = "doc" /\ s.alg # "none"
                       THEN LET q == Result(d, s) IN {[none EXCEPT !.ret = <<"ok", q.db>>, !.off = q.off]} ELSE {})

Next == /\ n < Depth
        /\ n' = n + 1
        /\ \E i \in 1..Len(Ops) : \E r \in Recs(Ops[i]) : LET q == Step(w, Ops[i], r) IN q.ok /\ w' = q.w

Known == {d \in DocNames : w.doc[d].k = "doc"}
Live == {s \in StreamNames : w.st[s].alg # "none"}
\* with the stream where it stood the document reads back; otherwise only what is not protected does
ReadsBack == \A d \in Known, s \in Live :
    LET x == w.doc[d] q == Result(x, w.st[s]) IN
    /\ Reads(x, w.st[s]) => q.db = Canon(x.db)
    /\ (~Reads(x, w.st[s]) /\ ProtLen(x.db) > 0) => q.db # Canon(x.db)
    /\ Mask(q.db) = Mask(Canon(x.db))
    /\ q.off = w.st[s].off + ProtLen(x.db)
\* that reading is allowed, and a refusal only where values may be unreadable
Allowed == \A d \in Known, s \in Live :
    LET x == w.doc[d] q == Result(x, w.st[s])
        r == [ret |-> <<"ok", q.db>>, off |-> q.off, failed |-> FALSE, cut |-> FALSE, whole |-> FALSE, doc |-> <<>>, db |-> <<>>]
    IN  /\ Step(w, Rd(s, d), r).ok
        /\ Step(w, Rd(s, d), [r EXCEPT !.ret = <<"err">>, !.off = w.st[s].off]).ok <=> (~Reads(x, w.st[s]) /\ ProtLen(x.db) > 0)
\* some operation is always possible, and nothing unstorable is ever in a complete document
Sane == \A d \in Known : Storable(w.doc[d].db)
=============================================================================
