----------------------------- MODULE TraceProbe -----------------------------
(* What opening, unlocking and parsing made of malformed input.              *)
EXTENDS KdbxForge, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ c' = c

\* t = "file": [size, plain, mem, open, unlock, use]; "xml": [size, parse, use]; calls are <<outcome, peak memory, what>>
Fine(t, g) ==
    IF t = "xml"
    THEN /\ g.parse[1] \in Outcome
         /\ g.parse[2] <= MemXml(g.size)
         /\ g.use = IF g.parse[1] = "ok" THEN "ok" ELSE "none"
    ELSE /\ g.open[1] \in Outcome
         /\ g.open[2] <= MemOpen(g.size)
         /\ IF g.open[1] = "err" THEN g.unlock[1] = "none" /\ g.use = "none"
            ELSE IF g.unlock[1] = "costly" THEN g.use = "none"
            ELSE /\ g.unlock[1] \in Outcome
                 /\ g.unlock[2] <= MemUnlock(g.size, g.plain, g.mem)
                 /\ g.mem <= Costly
                 /\ g.use = "ok"

C == Cases[c]
Wrong == {i \in 1..Len(C.got) : ~Fine(C.t, C.got[i])}
Conforms == done => Wrong = {}
First == IF Wrong = {} THEN 0 ELSE CHOOSE i \in Wrong : \A j \in Wrong : i <= j
Alias == [case |-> C.id, step |-> First - 1, why |-> IF First = 0 THEN "fine" ELSE ToString(C.got[First])]
=============================================================================
