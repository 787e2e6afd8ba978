------------------------------ MODULE TraceDb -------------------------------
(***************************************************************************)
(* Trace validation: every recorded behaviour of the implementation must   *)
(* be a behaviour of KdbxDb.  A case is                                    *)
(*   [id, steps |-> <<[o |-> operation, ret |-> result, obs |-> <<db>>?]>>]*)
(* whose first step is an observation of the initial database init.        *)
(***************************************************************************)
EXTENDS KdbxDb, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, i, st, ok

Init == /\ c \in 1..Len(Cases)
        /\ i = 0
        /\ st = [db |-> Cases[c].init, ce |-> <<>>, cg |-> <<>>]
        /\ ok = TRUE

Step(s) ==
    LET o == s.o
        r == IF Enabled(st, o) THEN Apply(st, o) ELSE Ret(st, <<"skipped">>)
    IN  /\ st' = r.st
        /\ ok' = (RetOK(r.ret, s.ret) /\ (s.obs # <<>> => s.obs[1] = r.st.db))

Next == /\ i < Len(Cases[c].steps)
        /\ ok
        /\ i' = i + 1
        /\ c' = c
        /\ Step(Cases[c].steps[i + 1])

Conforms == ok
\* what a counterexample shows
Alias == [case |-> Cases[c].id, step |-> i, ok |-> ok,
          recorded |-> IF i = 0 THEN <<>> ELSE <<Cases[c].steps[i]>>,
          specified |-> st]
=============================================================================
