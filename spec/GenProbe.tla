------------------------------ MODULE GenProbe ------------------------------
(* Forgeries: files with their layers marked, changes of layers, changed     *)
(* documents.                                                                *)
EXTENDS KdbxForge, KdbxLayout, Json, IOUtils, FiniteSets
In == ndJsonDeserialize(IOEnv.IN)

\* the document of MidDb, with layout enough to have every kind of node
Doc == LayoutOf(MidDb, PlainStyle)
Paths == SetToSeq(NodePaths(Doc) \ {<<>>})
MutSeq == SetToSeq(Mutations)
DocTermOf(d, alg, key) == TXml([t |-> "seq", c |-> <<Raw(XmlDecl), Encrypted(d, alg, key)>>])

One(r) ==
    IF r.t = "file" THEN [id |-> r.id, term |-> ForgeTerm(r.d, r.a, XmlTerm(r.d))]
    ELSE IF r.t = "changes"
    THEN [id |-> r.id, at |-> [i \in 1..r.n |-> SetToSeq(Changes(i - 1))],
          end |-> [i \in 1..r.m |-> SetToSeq(EndChanges(i - 1))], all |-> SetToSeq(Replacements)]
    ELSE IF r.t = "paths" THEN [id |-> r.id, paths |-> Len(Paths), mutations |-> Len(MutSeq)]
    ELSE IF r.t = "doc" THEN [id |-> r.id, docs |-> [i \in 1..Len(MutSeq) |-> DocTermOf(Mutate(Doc, Paths[r.p], MutSeq[i]), r.alg, r.key)]]
    ELSE \* two changes of a document
         [id |-> r.id, docs |-> [i \in 1..Len(r.two) |->
              LET w == r.two[i]
                  d1 == Mutate(Doc, Paths[(w[1] % Len(Paths)) + 1], MutSeq[(w[2] % Len(MutSeq)) + 1])
                  ps == SetToSeq(NodePaths(d1) \ {<<>>})
              IN  DocTermOf(IF ps = <<>> THEN d1 ELSE Mutate(d1, ps[(w[3] % Len(ps)) + 1], MutSeq[(w[4] % Len(MutSeq)) + 1]), r.alg, r.key)]]
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..Len(In) |-> One(In[i])])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
