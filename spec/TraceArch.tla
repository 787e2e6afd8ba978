----------------------------- MODULE TraceArch ------------------------------
(* Recorded archive scripts must be behaviours of KdbxArchive. *)
EXTENDS KdbxArchive, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, i, w, ok
Init == /\ c \in 1..Len(Cases)
        /\ i = 0
        /\ w = World0
        /\ ok = TRUE
Next == /\ i < Len(Cases[c].steps)
        /\ ok
        /\ i' = i + 1
        /\ c' = c
        /\ \E s \in {Cases[c].steps[i + 1]} : \E r \in {Step(w, s.o, s.ret)} : w' = r.w /\ ok' = r.ok
Conforms == ok
Alias == [case |-> Cases[c].id, step |-> i, ok |-> ok,
          recorded |-> IF i = 0 THEN <<>> ELSE <<Cases[c].steps[i]>>,
          why |-> IF i = 0 \/ ok THEN {}
                  ELSE LET s == Cases[c].steps[i]
                       IN  IF s.o.op = "decode" /\ s.ret[1] = "ok" /\ w.file[s.o.f].t = "kdbx"
                           THEN DecodeBad(w.file[s.o.f], s.ret[2]) ELSE {},
          specified |-> w]
=============================================================================
