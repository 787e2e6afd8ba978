---------------------------- MODULE TraceErrors -----------------------------
(* Recorded failures: the error returned is one the faults allow, and still  *)
(* the same after conversion to the error type of the library; the error of  *)
(* the reader or writer is among its sources.                                *)
EXTENDS KdbxErrors, Json, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ c' = c
Got(C) == <<C.got[1], C.got[2], C.got[3]>>
Conforms ==
    LET C == Cases[c]
    IN  /\ Got(C) \in Allowed(C.v, ToSet(C.faults))
        /\ C.same
        /\ C.got[2] = "io" => C.source = C.got[3]
Alias == [case |-> Cases[c].id, step |-> 0, recorded |-> Cases[c], specified |-> Allowed(Cases[c].v, ToSet(Cases[c].faults))]
=============================================================================
