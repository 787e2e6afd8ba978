----------------------------- MODULE GenTamper ------------------------------
(* Sequences of blocks to be tried on real files with N data blocks:        *)
(* all sequences of whole blocks up to MAX, and those which differ from     *)
(* the original one in at most two places in any way.                       *)
EXTENDS KdbxTamper, FiniteSets, SequencesExt, Json, IOUtils
N == atoi(IOEnv.N)
Longest == atoi(IOEnv.MAX)
WholeSeqs == UNION {[1..k -> {Whole(b) : b \in 0..N}] : k \in 0..Longest}
O == Original(N).blocks
TwoOff == {[[O EXCEPT ![i] = x] EXCEPT ![j] = y] : i \in 1..(N + 1), j \in 1..(N + 1), x \in Pieces(N), y \in Pieces(N)}
OneOff == {[O EXCEPT ![i] = x] : i \in 1..(N + 1), x \in Pieces(N)}
Seqs == WholeSeqs \union (IF IOEnv.TWO = "yes" THEN TwoOff ELSE OneOff)
\* the specified reader accepts (with the original content), or refuses
Verdict(s) == Shown([Original(N) EXCEPT !.blocks = s], N, All)[1]
ASSUME JsonSerialize(IOEnv.OUT, [seqs |-> SetToSeq({<<s, Verdict(s)>> : s \in Seqs})])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
