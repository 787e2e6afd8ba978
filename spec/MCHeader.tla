------------------------------ MODULE MCHeader ------------------------------
(* The byte-level parser agrees with the descriptions headers are made of:   *)
(* complete headers are accepted with their values, incomplete or cut ones   *)
(* are refused, and so is every header whose hash does not fit.              *)
EXTENDS HeaderScen, IOUtils
VARIABLES v, ids, ord, vd, stage
Init == v \in {3, 4} /\ ids = {} /\ ord = 0 /\ vd = 1 /\ stage = 0
\* in two steps, so that the work is shared out
Next == \/ /\ stage = 0 /\ stage' = 1
           /\ ord' \in {0, 1} /\ vd' \in 1..Len(Dicts)
           /\ UNCHANGED <<v, ids>>
        \/ /\ stage = 1 /\ stage' = 2
           /\ ids' \in {x \in Selections(v) : vd = 1 \/ 11 \in x}
           /\ UNCHANGED <<v, ord, vd>>
D == Mk(v, ids, ord, IF 11 \in ids THEN Dicts[vd] ELSE <<>>)
Behind == S32 \o S32 \o "00"

\* complete headers are accepted with their values, all others refused
Agrees(h, n) ==
    LET x == Verdict(h \o Behind, IF v = 3 THEN {} ELSE {n})
    IN  IF ~Complete(v, ids) THEN x.v = "refuse"
        ELSE IF ~Settled(v, ids) THEN x.v = "either"
        ELSE x = [v |-> "accept", ver |-> <<v, D.minor>>, hdr |-> HdrView(D)]
\* without a fitting hash nothing is accepted
Hashed(h) == v = 4 => Verdict(h \o Behind, {}).v = "refuse"
\* nor is anything that was cut (tried on the complete headers)
CutOff(h, n) ==
    (ord = 0 /\ ids \in {Base4, Base3}) =>
        \A k \in 0..n : (v = 4 \/ k < n) => Verdict(SubSeq(h, 1, 2 * k), 0..n).v = "refuse"
Consistent == (stage = 2) =>
    LET h == HeaderHex(D)
        n == HexLen(h)
    IN  Agrees(h, n) /\ Hashed(h) /\ CutOff(h, n)
=============================================================================
