------------------------------ MODULE MCErrors ------------------------------
(***************************************************************************)
(* Readers look for every fault at some step of its span and stop at the   *)
(* first they find.  What a reader reports is allowed, and everything that *)
(* is allowed is what some reader reports.  Readers that look for a fault  *)
(* outside its span, or report the last one, are found out.                *)
(***************************************************************************)
EXTENDS KdbxErrors, TLC
F(f, x, at) == [f |-> f, x |-> x, at |-> at]
Some(v) ==
    {F("magic", "", ""), F("type", "", ""), F("version", "5", ""), F("cut", "", "version"), F("fail", "Other", "header"), F("fail", "TimedOut", "data"),
     F("missing", "2", ""), F("sum", "", ""), F("kdf", "", ""), F("credentials", "", ""), F("cipher", "", ""), F("block", "", ""),
     F("stream", "", ""), F("xml", "uuid", ""), F("missing", "8", "")}
Sets(v) == {s \in SUBSET Some(v) : Cardinality(s) <= 3}
Steps == 1..8

VARIABLES v, fs, when, step, said, kind
vars == <<v, fs, when, step, said, kind>>
Init == /\ v \in {3, 4}
        /\ fs \in Sets(v)
        /\ \/ kind = "right" /\ when \in [fs -> Steps] /\ \A a \in fs : when[a] \in Span(v, a)[1]..Span(v, a)[2]
           \/ kind = "late" /\ Cardinality(fs) = 2 /\ when \in [fs -> Steps] /\ \E a \in fs : when[a] > Span(v, a)[2]
        /\ step = 1 /\ said = {}
\* at a step the reader comes across any one of what it looks for then
Look == /\ step <= 8
        /\ said = {}
        /\ LET here == {a \in fs : when[a] = step}
           IN  IF here = {} THEN said' = {} ELSE \E a \in here : \E r \in Reports(v, a) : said' = {r}
        /\ step' = step + 1
        /\ UNCHANGED <<v, fs, when, kind>>
Next == Look
Done == step = 9 \/ said # {}
Report == IF said = {} THEN {<<"none", "ok", "">>} ELSE said
Honest == (kind = "right" /\ Done) => Report \subseteq Allowed(v, fs)
\* a reader that finds a fault too late, after another that has to come later, is not allowed
Late == \E a \in fs : \E b \in fs : Span(v, a)[2] < Span(v, b)[1] /\ when[b] < when[a]
Caught == (kind = "late" /\ Done /\ fs # {} /\ Late
           /\ \A a \in fs : \A b \in fs : a # b => Reports(v, a) \intersect Reports(v, b) = {})
          => ~(Report \subseteq Allowed(v, fs))
\* nothing is allowed that no reader reports
Tight == \A u \in {3, 4} : \A s \in Sets(u) : s # {} =>
            \A r \in Allowed(u, s) : \E a \in s : /\ r \in Reports(u, a)
                                                  /\ \A b \in s : Span(u, b)[2] >= Span(u, a)[1]
ASSUME Tight
=============================================================================
