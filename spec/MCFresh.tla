------------------------------- MODULE MCFresh ------------------------------
(* A source that hands out new symbols satisfies the conditions; each kind   *)
(* of broken source violates one of them.                                    *)
EXTENDS KdbxFresh, TLC
VARIABLES src, log, next
L == [seed |-> 4, iv |-> 3, key |-> 5]
Srcs == {"good", "constant", "padded", "reused", "shared", "derived", "reversed", "counter", "second"}
Draw(k, n) == [i \in 1..n |-> ((k + i) * (k + i)) + (k + i) * 7]      \* symbols far apart
Arch(s, k, prev) ==
    LET g == [n \in DOMAIN L |-> Draw(k + (CASE n = "seed" -> 0 [] n = "iv" -> 4 [] n = "key" -> 7), L[n])]
    IN  CASE s = "good" -> g
          [] s = "constant" -> [g EXCEPT !.iv = <<1, 2, 3>>]
          [] s = "padded" -> [g EXCEPT !.key = SubSeq(@, 1, 4) \o <<0>>]
          [] s = "reused" -> IF Len(prev) > 0 /\ (Len(prev) % 2) = 1 THEN [g EXCEPT !.seed = prev[Len(prev)].seed] ELSE g
          [] s = "shared" -> [g EXCEPT !.iv = SubSeq(g.seed, 1, 3)]
          [] s = "derived" -> [g EXCEPT !.seed = [i \in 1..4 |-> 100000 + g.key[i]]]
          [] s = "reversed" -> [g EXCEPT !.iv = Reverse(SubSeq(g.seed, 2, 4))]
          [] s = "counter" -> [g EXCEPT !.iv = [i \in 1..3 |-> 500000 + Len(prev) * 3 + i]]
          [] s = "second" -> IF prev = <<>> THEN g ELSE [g EXCEPT !.key = [i \in 1..5 |-> prev[1].key[i] + Len(prev)]]
Init == src \in Srcs /\ log = <<>> /\ next = 1
Next == /\ Len(log) < 6
        /\ log' = Append(log, Arch(src, next, log))
        /\ next' = next + 12
        /\ src' = src
Derived == [a \in 1..Len(log) |-> <<Reverse(log[a].seed), [i \in 1..4 |-> 100000 + log[a].key[i]]>>]
Fresh == /\ NoRepeat(log, 2)
         /\ NotDerived(log, Derived, 2)
         /\ ManySymbols(log, 4)
         /\ ManyDifferences(log, 3, 1000000)
Decides == Len(log) = 6 => (Fresh <=> src = "good")
=============================================================================
