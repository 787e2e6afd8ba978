------------------------------ MODULE GenExport -----------------------------
(* Every sequence of operations on documents up to DEPTH, as scripts.        *)
EXTENDS ExportScen, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Pro == << St("s", "chacha20", K1), St("t", "chacha20", K1) >>
\* is there something to read?
Does(ops, o) == o.op = "read" => \E i \in 1..Len(ops) : ops[i].op = "write" /\ ops[i].d = o.d
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN << <<>> >>
           ELSE LET prev == Seqs(n - 1) IN
                FlattenSeq([i \in 1..Len(prev) |->
                    LET en == SelectSeq(Ops, LAMBDA o : Does(prev[i], o) /\ (n = Depth => o.op # "stream"))
                    IN  [k \in 1..Len(en) |-> Append(prev[i], en[k])]])
ASSUME JsonSerialize(IOEnv.OUT, LET ss == Seqs(Depth) IN [i \in 1..Len(ss) |-> Pro \o ss[i]])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
