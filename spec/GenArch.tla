------------------------------ MODULE GenArch -------------------------------
(* Every sequence of a scenario's operations up to DEPTH, without those    *)
(* that would be skipped, as scripts for replay.                           *)
EXTENDS ArchScen, IOUtils, Json

S == Scen(IOEnv.SCEN)
Depth == atoi(IOEnv.DEPTH)

\* can the operation do something, as far as the operations before tell?
\* ph: phase of archive a; fs: files that exist
Does(h, o) ==
    CASE o.op = "unlock" -> h.ph = "locked"
      [] o.op \in {"key", "edit", "inner"} -> h.ph # "locked"
      [] o.op = "open" -> o.f \in h.fs
      [] OTHER -> TRUE
\* twice the same setting in a row is not worth it
Fresh(h, o) == h.ops = <<>> \/ h.ops[Len(h.ops)] # o \/ o.op \in {"save", "unlock"}
After(h, o) ==
    [ops |-> Append(h.ops, o),
     ph |-> CASE o.op = "open" -> "locked"
              [] o.op = "unlock" -> "any"
              [] OTHER -> h.ph,
     fs |-> IF o.op = "save" THEN h.fs \union {o.f} ELSE h.fs]
H0 == [ops |-> <<>>, ph |-> IF S.d = <<>> THEN "any" ELSE "locked", fs |-> IF S.d = <<>> THEN {} ELSE {"f"}]

RECURSIVE Seqs(_)
Seqs(d) ==
    IF d = 0 THEN <<H0>>
    ELSE FlattenSeq(LET prev == Seqs(d - 1) IN
            [i \in 1..Len(prev) |->
               LET en == SelectSeq(S.ops, LAMBDA o : Does(prev[i], o) /\ Fresh(prev[i], o))
               IN  [k \in 1..Len(en) |-> After(prev[i], en[k])]])

Scripts(d) == LET ss == Seqs(d) IN [i \in 1..Len(ss) |-> S.pro \o ss[i].ops \o S.epi]

VARIABLE done
Init == done = JsonSerialize(IOEnv.OUT, [d |-> S.d, scripts |-> FlattenSeq([d \in 1..(Depth + 1) |-> Scripts(d - 1)])])
Next == UNCHANGED done
=============================================================================
