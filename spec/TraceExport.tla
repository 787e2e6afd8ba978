---------------------------- MODULE TraceExport -----------------------------
(* Recorded writing and reading of documents must be behaviours of KdbxExport. *)
EXTENDS KdbxExport, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, w, ok
Init == c \in 1..Len(Cases) /\ i = 0 /\ w = World0 /\ ok = TRUE
Next == /\ i < Len(Cases[c].steps)
        /\ ok
        /\ i' = i + 1
        /\ c' = c
        /\ \E s \in {Cases[c].steps[i + 1]} : \E r \in {Step(w, s.o, s)} : w' = r.w /\ ok' = r.ok
Conforms == ok
Alias == [case |-> Cases[c].id, step |-> i, ok |-> ok,
          recorded |-> IF i = 0 THEN <<>> ELSE <<Cases[c].steps[i]>>, specified |-> w]
=============================================================================
