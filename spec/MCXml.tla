-------------------------------- MODULE MCXml -------------------------------
(* Writing a database with any layout and reading the document gives the    *)
(* database back; the plain layout is one the format allows a writer.       *)
EXTENDS KdbxXml, DbScen, IOUtils

RichDb ==
    [MkDb([BaseTree.root EXCEPT !.entries = << FieldEntry, HistEntry >>]) EXCEPT
        !.meta = [name |-> "x206c656164696e67", desc |-> "x5d5d3e3c260d0ac3a9", mp |-> <<TRUE, FALSE, TRUE, TRUE, FALSE>>,
                  custom |-> << F(KX, TA, TRUE), F("x63c3a9", "x20", FALSE), F("x64", "x", TRUE) >>]]
Dbs == <<EmptyDb, RichDb>>
All == IOEnv.ALL = "yes"

VARIABLES k, s, stage
Styles == [ord: 0..3, txt: {"text", "cdata", "refs", "split"}, ws: {"x", "x0d0a20"},
           com: BOOLEAN, attr: BOOLEAN, short: BOOLEAN, pad: BOOLEAN, iso: BOOLEAN, unk: 0..2, bool: 0..2]
Init == k = 1 /\ s = PlainStyle /\ stage = 0
\* all styles on the empty database; on the rich one a covering subset
Next == \/ /\ stage = 0
           /\ stage' = 1
           /\ k' \in 1..2
           /\ \E o \in 0..3, x \in {"text", "cdata", "refs", "split"}, u \in 0..2 :
                 s' = [s EXCEPT !.ord = o, !.txt = x, !.unk = u]
        \/ /\ stage = 1
           /\ stage' = 2
           /\ k' = k
           /\ s' \in {y \in Styles : y.ord = s.ord /\ y.txt = s.txt /\ y.unk = s.unk}
           /\ (k = 2 /\ ~All) => (s'.com = s'.attr /\ s'.short = s'.pad /\ s'.bool = s'.unk /\ s'.iso = s'.com
                                  /\ (s'.com <=> s'.ws # "x"))

L == LayoutOf(Dbs[k], s)
Doc == Strip(L)
ReadsBack == ReadDoc(Doc) = Canon(Dbs[k])
Offsets == Contiguous(Prots(Doc), 0)
PlainIsGood == (s.unk = 0 /\ ~s.attr /\ s.txt = "text" /\ ~s.pad /\ s.bool = 0 /\ s.iso = FALSE) => GoodDoc(Doc)
ProtCount == s.unk = 0 => Len(Prots(Doc)) = CountProt(Dbs[k])
=============================================================================
