------------------------------ MODULE KdbxReader ----------------------------
(***************************************************************************)
(* Why reading ends, and within bounded memory.  Every layer of a file is  *)
(* a sequence of records with a length in front.  The reader takes a       *)
(* record in pieces, as far as there is data, and keeps what it has read.  *)
(* Lengths are claims: the data may end before.  A reader that makes room  *)
(* for a claim before it has seen the data (Policy "claimed") is not       *)
(* bounded by its input.  One that goes on at the end of the data          *)
(* ("patient") does not end.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Policy, Piece, Sizes, MaxRecords

VARIABLES input,    \* what is left: sequence of [claim, have]
          got,      \* bytes read of the current record
          kept,     \* bytes of finished records
          mem,      \* bytes allocated
          st        \* "run", "ok", "err"
vars == <<input, got, kept, mem, st>>

Records == [claim : Sizes, have : Sizes]
\* only the last record can be cut short
Inputs == {s \in UNION {[1..n -> Records] : n \in 0..MaxRecords} :
             \A i \in 1..Len(s) : s[i].have <= s[i].claim /\ (i < Len(s) => s[i].have = s[i].claim)}

Init == /\ input \in Inputs
        /\ got = 0 /\ kept = 0 /\ mem = 0 /\ st = "run"

Min2(a, b) == IF a < b THEN a ELSE b

\* make room and read a piece
Read ==
    /\ st = "run" /\ input # <<>>
    /\ LET r == input[1]
           n == Min2(Piece, r.have - got)
       IN  /\ n > 0
           /\ got' = got + n
           /\ mem' = kept + (IF Policy = "claimed" THEN r.claim ELSE got + n)
    /\ UNCHANGED <<input, kept, st>>
\* the record is complete
Finish ==
    /\ st = "run" /\ input # <<>>
    /\ got = input[1].claim
    /\ kept' = kept + got /\ got' = 0 /\ mem' = kept + got /\ input' = Tail(input)
    /\ UNCHANGED st
\* the data ends inside a record
Short ==
    /\ st = "run" /\ input # <<>>
    /\ got = input[1].have /\ got < input[1].claim
    /\ st' = IF Policy = "patient" THEN "run" ELSE "err"
    /\ UNCHANGED <<input, got, kept, mem>>
Done ==
    /\ st = "run" /\ input = <<>>
    /\ st' = "ok"
    /\ UNCHANGED <<input, got, kept, mem>>
Next == Read \/ Finish \/ Short \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounded == mem <= kept + got + Piece
Ends == <>(st # "run")
\* it reads everything or says that something is missing
Sound == st = "ok" => input = <<>>
=============================================================================
