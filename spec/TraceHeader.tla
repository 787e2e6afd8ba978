---------------------------- MODULE TraceHeader -----------------------------
(* Recorded attempts to open byte strings.                                   *)
EXTENDS KdbxHeader, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ c' = c
Set(s) == {s[i] : i \in 1..Len(s)}
V == Verdict(Cases[c].hex, Set(Cases[c].good))
Conforms == done => OpenAllowed(V, Cases[c].ret)
Alias == [case |-> Cases[c].id, step |-> 0, specified |-> V, recorded |-> Cases[c].ret]
=============================================================================
