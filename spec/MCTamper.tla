------------------------------ MODULE MCTamper ------------------------------
(* All files an attacker can put together from the pieces of a file with N  *)
(* data blocks, up to MAX pieces.  With OMIT # "none" the reader leaves out *)
(* one check, and the invariant must fail.                                  *)
EXTENDS KdbxTamper, IOUtils
N == atoi(IOEnv.N)
Longest == atoi(IOEnv.MAX)
Checks == All \ {IOEnv.OMIT}

VARIABLE f
Init == f \in {[hdr |-> h, sha |-> s, mac |-> m, blocks |-> <<>>, cut |-> FALSE] :
                 h \in {"orig", "alt"}, s \in BOOLEAN, m \in BOOLEAN}
Next == \/ /\ Len(f.blocks) < Longest /\ ~f.cut
           /\ \E x \in Pieces(N) : f' = [f EXCEPT !.blocks = Append(@, x)]
        \/ /\ Len(f.blocks) > 0 /\ ~f.cut
           /\ f' = [f EXCEPT !.cut = TRUE]
Unchanged == Safe(f, N, Checks)
RefusedEarly == Early(f, Checks)
\* the original file is read (so the invariant is not empty)
OriginalRead == Shown(Original(N), N, All) = Content(N)
=============================================================================
