------------------------------- MODULE KdbxIo -------------------------------
(***************************************************************************)
(* Reading a file through a source, and writing one to a sink, that move   *)
(* their bytes in pieces, are interrupted, end early or fail.              *)
(*                                                                         *)
(* A file of L bytes is read as a header of exact reads (their lengths in  *)
(* Parts) followed by everything that is left.  The source ends after      *)
(* byte `end` and fails at byte `fail` (L + 1: never).  A sink takes L     *)
(* bytes in the same parts and fails at byte `fail`.  Every piece has      *)
(* 1..Step bytes.  With `once` the failure passes, and transfers after it  *)
(* would work again.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Parts, Rest, Step,
          Retry,     \* the loop repeats short transfers
          Heed       \* failures end the transfer

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
L == Sum(Parts) + Rest
Min2(a, b) == IF a < b THEN a ELSE b

VARIABLES dir, end, fail, once, failed, pos, part, left, st
vars == <<dir, end, fail, once, failed, pos, part, left, st>>

Init == /\ dir \in {"read", "write"}
        /\ end \in IF dir = "read" THEN 0..L ELSE {L}
        /\ fail \in 0..(L + 1)
        /\ once \in BOOLEAN
        /\ failed = FALSE
        /\ pos = 0
        /\ part = 1
        /\ left = Parts[1]
        /\ st = "run"

\* the part of the transfer at hand is complete
Finish(p) ==
    IF p < Len(Parts) THEN /\ part' = p + 1 /\ left' = Parts[p + 1] /\ st' = "run"
    ELSE IF p = Len(Parts) THEN /\ part' = p + 1 /\ left' = (IF dir = "read" THEN L ELSE Rest) /\ st' = "run"
    ELSE /\ st' = "ok" /\ UNCHANGED <<part, left>>

ToEnd == dir = "read" /\ part > Len(Parts)

Move(k) ==
    /\ pos' = pos + k
    /\ IF left - k = 0 THEN Finish(part)
       ELSE IF Retry \/ ToEnd THEN /\ left' = left - k /\ UNCHANGED <<part, st>>
       ELSE Finish(part)      \* a short transfer taken for the whole
    /\ UNCHANGED <<dir, end, fail, once, failed>>
Failing == pos >= fail /\ ~(once /\ failed)
Fail == IF Heed \/ dir = "read"
        THEN st' = "err" /\ failed' = TRUE /\ UNCHANGED <<dir, end, fail, once, pos, part, left>>
        ELSE failed' = TRUE /\ Finish(part) /\ UNCHANGED <<dir, end, fail, once, pos>>
Short == st' = "err" /\ UNCHANGED <<dir, end, fail, once, failed, pos, part, left>>

Next == /\ st = "run"
        /\ IF Failing THEN Fail
           ELSE IF pos >= end /\ dir = "read"
           THEN IF ToEnd THEN st' = "ok" /\ UNCHANGED <<dir, end, fail, once, failed, pos, part, left>> ELSE Short
           ELSE \/ UNCHANGED vars      \* interrupted
                \/ \E k \in 1..Step : /\ k <= left
                                      /\ k <= fail - pos \/ failed
                                      /\ (dir = "read") => (k <= end - pos)
                                      /\ Move(k)

\* what the outcome must be, whatever the pieces
Outcome == IF dir = "write" THEN IF fail < L THEN "err" ELSE "ok"
           ELSE IF fail <= end THEN "err"
           ELSE IF end < Sum(Parts) THEN "err" ELSE "ok"
Settled == st # "run" => st = Outcome
Complete == st = "ok" => pos = (IF dir = "write" THEN L ELSE end)
=============================================================================
