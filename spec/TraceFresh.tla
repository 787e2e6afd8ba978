----------------------------- MODULE TraceFresh -----------------------------
(* Recorded secrets of new archives.                                         *)
EXTENDS KdbxFresh, KdbxCodec, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done, why     \* why: what fails (a variable, so that it is calculated once)
Init == c \in 1..Len(Cases) /\ done = FALSE /\ why = {}
C == Cases[c]
\* t = "log": archives with their secrets (and values derived from them); "bulk": many values that must all differ
\* runs of bytes are compared as text, two digits per byte
HexSymbols(v, i, w) == SubSeq(v, 2 * i - 1, 2 * (i + w - 1))
Checks ==
    IF C.t = "bulk" THEN [different |-> AllDifferent(C.values)]
    ELSE LET log == C.bytes
             all == AllRuns(C.log, 8, HexLen, HexSymbols)
         IN  [lengths |-> SameLengths(log) /\ FullLength(log),
              repeated |-> Cardinality(all) = RunCount(C.log, 8, HexLen),
              derived |-> \A d \in AllRuns(C.derived, 8, HexLen, HexSymbols) : d \notin all,
              symbols |-> ManySymbols(log, C.k),
              differences |-> ManyDifferences(log, C.k, 256)]
Failing == LET k == Checks IN {n \in DOMAIN k : ~k[n]}
Next == done = FALSE /\ done' = TRUE /\ c' = c /\ why' = Failing
Conforms == why = {}
Alias == [case |-> C.id, step |-> 0, why |-> why]
=============================================================================
