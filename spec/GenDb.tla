------------------------------- MODULE GenDb --------------------------------
(* Writes every operation sequence of the scenario up to DEPTH as JSON.     *)
EXTENDS DbScen, IOUtils, Json

S == Scen(IOEnv.SCEN)
Depth == atoi(IOEnv.DEPTH)

\* sequences of [ops, st]: extend every sequence by every enabled operation
RECURSIVE Seqs(_)
Seqs(d) ==
    IF d = 0 THEN << [ops |-> <<>>, st |-> S.init] >>
    ELSE LET prev == Seqs(d - 1) IN
         FlattenSeq([i \in 1..Len(prev) |->
            LET h == prev[i]
                en == SelectSeq(S.ops, LAMBDA o : Enabled(h.st, o))
            IN [k \in 1..Len(en) |-> [ops |-> Append(h.ops, en[k]), st |-> Apply(h.st, en[k]).st]]])

Out(d) == LET ss == Seqs(d) IN [i \in 1..Len(ss) |-> [ops |-> ss[i].ops]]

VARIABLE done
Init == /\ done = JsonSerialize(IOEnv.OUT, [init |-> S.init.db, seqs |-> Out(Depth)])
Next == UNCHANGED done
=============================================================================
