------------------------------ MODULE MCLayout ------------------------------
(* Additions in any place (any two places) leave the meaning of a document.  *)
EXTENDS KdbxLayout, IOUtils
VARIABLES puts, attrs, s
Most == atoi(IOEnv.MAX)
Styles2 == << PlainStyle, [PlainStyle EXCEPT !.ord = 3, !.txt = "split", !.com = TRUE, !.ws = "x0a", !.pad = TRUE] >>
Init == puts = <<>> /\ attrs = <<>> /\ s = 1
N == Slots(LayoutOf(MidDb, PlainStyle))
M == Elements(LayoutOf(MidDb, PlainStyle))
Next == \/ /\ puts = <<>> /\ attrs = <<>> /\ s' \in 1..2 /\ puts' = puts /\ attrs' = attrs
        \/ /\ Len(puts) + Len(attrs) < Most
           /\ s' = s
           /\ \/ /\ \E n \in 0..(N - 1), k \in 1..Len(Kinds) :
                       (Len(puts) > 0 => puts[1].n % 17 = 3 /\ n % 19 = 5) /\ puts' = Append(puts, [n |-> n, kind |-> Kinds[k]])
                 /\ attrs' = attrs
              \/ /\ \E n \in 0..(M - 1), k \in 1..Len(AttrKinds) :
                       (Len(attrs) + Len(puts) > 0 => n % 11 = 4) /\ attrs' = Append(attrs, [n |-> n, k |-> k, front |-> n % 2 = 0])
                 /\ puts' = puts
Doc == Strip(Document(MidDb, Styles2[s], puts, attrs))
ReadsBack == LET d == Doc IN ReadDoc(d) = Canon(MidDb) /\ Contiguous(Prots(d), 0)
=============================================================================
