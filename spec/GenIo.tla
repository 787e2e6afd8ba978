-------------------------------- MODULE GenIo -------------------------------
(* Ways to deliver or accept bytes in pieces: all sequences of the given     *)
(* sizes up to LEN (the last size repeats), with and without interruptions.  *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils
Sizes == {1, 2, 3, 7, 100000}
Seqs == UNION {[1..k -> Sizes] : k \in 1..atoi(IOEnv.LEN)}
ASSUME JsonSerialize(IOEnv.OUT, [p |-> SetToSeq({[chunks |-> s, intr |-> n] : s \in Seqs, n \in {0, 2, 3}})])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
