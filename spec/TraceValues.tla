----------------------------- MODULE TraceValues ----------------------------
(* Recorded results of encoders and decoders.                                *)
EXTENDS KdbxValues, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ c' = c
C == Cases[c]
Good == CASE C.k = "encTime" -> C.ret = Some(EncTime(C.v))
          [] C.k = "encId"   -> C.ret = Some(IdText(C.v))
          [] C.k = "decId"   -> C.ret \in IdAllowed(C.x)
          [] C.k = "decTime" -> C.ret[1] # "panic" /\ TimeAllowed(C.x, C.ret)
Conforms == done => Good
Alias == [case |-> C.id, step |-> 0, recorded |-> C.ret]
=============================================================================
