------------------------------ MODULE TraceOtp ------------------------------
(* Recorded settings of one-time passwords.                                  *)
EXTENDS KdbxOtp, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ c' = c
C == Cases[c]
Good == IF "url" \in DOMAIN C THEN \A i \in 1..Len(C.ret) : OtpAllowed(TokBytes(C.url), C.ret[i])
        ELSE Len(C.ret) = 3 /\ \A i \in 1..3 : C.ret[i] = NewOtp(C.new[1], C.new[2], C.new[3])
Conforms == done => Good
Alias == [case |-> C.id, step |-> 0, recorded |-> C.ret]
=============================================================================
