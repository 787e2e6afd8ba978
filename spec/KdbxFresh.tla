------------------------------ MODULE KdbxFresh -----------------------------
(***************************************************************************)
(* Fresh secrets.  A log is a sequence of archives, each giving secrets    *)
(* [name |-> sequence of symbols].  What the log of a source that hands    *)
(* out independent random symbols looks like (up to a chance that is       *)
(* negligible for the sizes used):                                         *)
(*  - no run of W symbols occurs twice anywhere;                           *)
(*  - nor does a run of a secret that was derived from another one;        *)
(*  - at every position of every secret many different symbols occur, and  *)
(*    so do differences between two secrets of an archive, and between the *)
(*    same secret of successive archives.                                  *)
(* A log violates these if a secret is reused, constant, padded, counted   *)
(* up, partly filled or calculated from another one.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Names(log) == DOMAIN log[1]

\* runs of W symbols: by archive, by secret and position
Places(x, w, L(_)) == UNION {{<<n, i>> : i \in 1..(L(x[n]) - w + 1)} : n \in DOMAIN x}
AllRuns(log, w, L(_), Run(_, _, _)) ==
    IF log = <<>> THEN {}
    ELSE LET at == Places(log[1], w, L) IN {Run(log[a][p[1]], p[2], w) : a \in 1..Len(log), p \in at}
RunCount(log, w, L(_)) == Len(log) * Cardinality(Places(log[1], w, L))
Symbols(v, i, w) == SubSeq(v, i, i + w - 1)
NoRepeat(log, w) == Cardinality(AllRuns(log, w, Len, Symbols)) = RunCount(log, w, Len)

\* derived[a] is the sequence of values calculated from secrets of archive a
NotDerived(log, derived, w) == AllRuns(log, w, Len, Symbols) \intersect AllRuns(derived, w, Len, Symbols) = {}

Varied(values, k) == Cardinality(values) >= k
ManySymbols(log, k) ==
    \A n \in Names(log) : \A i \in 1..Len(log[1][n]) : Varied({log[a][n][i] : a \in 1..Len(log)}, k)
Less(x, y) == IF x < y THEN x ELSE y
ManyDifferences(log, k, m) ==
    /\ \A n1, n2 \in Names(log) : n1 # n2 =>
          \A i \in 1..Less(Len(log[1][n1]), Len(log[1][n2])) :
             Varied({(log[a][n1][i] - log[a][n2][i] + m) % m : a \in 1..Len(log)}, k)
    /\ \A n \in Names(log) : \A i \in 1..Len(log[1][n]) :
          Varied({(log[a + 1][n][i] - log[a][n][i] + m) % m : a \in 1..(Len(log) - 1)}, k)

SameLengths(log) == \A a \in 1..Len(log) : DOMAIN log[a] = Names(log) /\ \A n \in Names(log) : Len(log[a][n]) = Len(log[1][n])

\* lengths for the settings new archives come with: seed, IV by cipher, salt, key of the inner stream
FullLength(log) ==
    /\ Len(log[1]["seed"]) = 32
    /\ Len(log[1]["iv"]) \in {12, 16}
    /\ Len(log[1]["salt"]) >= 32
    /\ Len(log[1]["key"]) >= 44

AllDifferent(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
=============================================================================
