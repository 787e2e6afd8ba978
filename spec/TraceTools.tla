----------------------------- MODULE TraceTools -----------------------------
(* Recorded runs of the tools must be behaviours of KdbxTools. *)
EXTENDS KdbxTools, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, i, w, ok
Init == /\ c \in 1..Len(Cases)
        /\ i = 0
        /\ w = NoDir
        /\ ok = TRUE
Next == /\ i < Len(Cases[c].steps)
        /\ ok
        /\ i' = i + 1
        /\ c' = c
        /\ \E s \in {Cases[c].steps[i + 1]} : \E r \in {ToolStep(w, s.o, s.ret)} : w' = r.w /\ ok' = r.ok
Conforms == ok
Alias == [case |-> Cases[c].id, step |-> i, ok |-> ok,
          recorded |-> IF i = 0 THEN <<>> ELSE <<Cases[c].steps[i]>>, specified |-> w]
=============================================================================
