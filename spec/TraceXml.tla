------------------------------ MODULE TraceXml ------------------------------
(* Recorded readings of database XML.                                        *)
EXTENDS KdbxXml, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ c' = c
C == Cases[c]
Conforms == done => C.ret[1] = "ok" /\ C.ret[2] = Canon(C.db) /\ C.ret[3] = C.gen
Alias == [case |-> C.id, step |-> 0, recorded |-> C.ret]
=============================================================================
