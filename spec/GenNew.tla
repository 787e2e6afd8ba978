------------------------------- MODULE GenNew -------------------------------
(* Every sequence of DEPTH operations that do something.                     *)
EXTENDS NewScen, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
\* what there is after an operation
After(h, x) ==
    CASE x \in {"entry", "db"} -> [h EXCEPT ![x] = TRUE]
      [] x \in {"group", "named"} -> [h EXCEPT !.group = TRUE]
      [] x \in {"putEntry", "fill"} -> [h EXCEPT !.entry = FALSE]
      [] x = "putGroup" -> [h EXCEPT !.group = FALSE]
      [] x = "archive" -> [h EXCEPT !.db = FALSE, !.arch = TRUE]
      [] OTHER -> h
Can(h, x) ==
    CASE x = "putEntry" -> h.entry /\ h.db
      [] x = "putGroup" -> h.group /\ h.db
      [] x = "fill" -> h.entry /\ h.group
      [] x = "archive" -> h.db
      [] x \in {"key", "save"} -> h.arch
      [] OTHER -> TRUE
Start == [ops |-> <<Op("db")>>, h |-> [entry |-> FALSE, group |-> FALSE, db |-> TRUE, arch |-> FALSE]]
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN <<Start>>
           ELSE LET prev == Seqs(n - 1) IN
                FlattenSeq([i \in 1..Len(prev) |->
                    LET en == SelectSeq(Ops, LAMBDA o : /\ Can(prev[i].h, o.op)
                                                        /\ o.op \in {"tick", "look"} => prev[i].ops[Len(prev[i].ops)].op # o.op)
                    IN  [k \in 1..Len(en) |-> [ops |-> Append(prev[i].ops, en[k]), h |-> After(prev[i].h, en[k].op)]]])
ASSUME JsonSerialize(IOEnv.OUT, LET ss == Seqs(Depth) IN [i \in 1..Len(ss) |-> Append(ss[i].ops, Op("look"))])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
