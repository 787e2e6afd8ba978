------------------------------- MODULE DbScen -------------------------------
(***************************************************************************)
(* Small databases and operation alphabets over which operation sequences  *)
(* are enumerated exhaustively (MCDb checks the specification on them,     *)
(* GenDb writes them out for replay into the implementation).              *)
(***************************************************************************)
EXTENDS KdbxDb

T0 == [mod |-> "t00ddd0d40e000000", cre |-> "t00fcdace0e000000", acc |-> "t807369d50e000000",
       exp |-> "t00bec6da0e000000", loc |-> "t80ecd5d10e000000", expires |-> FALSE, usage |-> "0"]
T1 == [mod |-> "t01ddd0d40e000000", cre |-> "t02fcdace0e000000", acc |-> "t837369d50e000000",
       exp |-> "t04bec6da0e000000", loc |-> "t85ecd5d10e000000", expires |-> TRUE, usage |-> "7"]

F(k, v, p) == [k |-> k, v |-> v, p |-> p]
Id(n) == "0000000000000000000000000000000" \o ToString(n)
TA == "x6161"
TB == "x6262"
TC == "x20632026"
KX == "x6b78"

En(n, fs) == [id |-> Id(n), fields |-> fs, times |-> T0, hist |-> <<>>]
Gr(n, nm, es, gs) == [id |-> Id(n), name |-> nm, times |-> T1, entries |-> es, groups |-> gs]
MkDb(root) == [meta |-> [name |-> "x6e", desc |-> "x64", custom |-> <<>>,
                         mp |-> <<FALSE, FALSE, TRUE, FALSE, FALSE>>], root |-> root]
St0(db) == [db |-> db, ce |-> <<>>, cg |-> <<>>]

\* a tree with several depths, duplicate identifiers (2) and several matches (TA)
BaseTree ==
    MkDb(Gr(0, "x526f6f74",
            << En(1, <<F(KTitle, TA, FALSE)>>), En(2, <<>>), En(2, <<F(KTitle, TB, TRUE)>>) >>,
            << Gr(5, TA, << En(3, <<F(KTitle, TA, FALSE), F(KPass, TB, TRUE)>>) >>,
                      << Gr(7, TB, << En(4, <<F(KTitle, TC, FALSE)>>) >>, << >>) >>),
               Gr(6, TB, << >>, << Gr(8, TC, << En(2, <<F(KUrl, TA, FALSE)>>) >>, <<>>) >>),
               Gr(6, TA, << En(9, <<F(KTitle, TB, FALSE)>>) >>, <<>>) >>))

EmptyDb == MkDb(Gr(0, "x526f6f74", <<>>, <<>>))

\* an entry rich in duplicate and look-alike fields, and one with history
FieldEntry == En(1, << F(KX, TA, FALSE), F(KTitle, TA, TRUE), F(KX, TB, TRUE),
                       F("x4b78", "none", FALSE), F(KTitle, TB, FALSE),
                       F(KUrl, "none", FALSE), F(KUser, "none", TRUE) >>)
HistEntry == [En(2, << F(KTitle, TA, FALSE), F(KPass, TB, TRUE) >>) EXCEPT
                !.hist = << En(2, << F(KTitle, TC, FALSE) >>),
                            [En(2, << F(KPass, TA, TRUE) >>) EXCEPT !.hist = << En(2, <<>>) >>] >>]
BaseEntry == MkDb(Gr(0, "x526f6f74", << FieldEntry, HistEntry >>, <<>>))

Paths == << <<>>, <<1>>, <<1, 1>>, <<2>>, <<3>> >>
SeqProd(xs, ys, Op(_, _)) ==
    FlattenSeq([i \in 1..Len(xs) |-> [j \in 1..Len(ys) |-> Op(xs[i], ys[j])]])
MapS(xs, Op(_)) == [i \in 1..Len(xs) |-> Op(xs[i])]

NE == En(1, <<F(KTitle, TB, FALSE)>>)
NG == Gr(5, TC, <<NE>>, <<Gr(7, TA, <<>>, <<>>)>>)
Nop == [t |-> "nop"]

TreeOps ==
    MapS(Paths, LAMBDA p : [op |-> "gAct", g |-> p, a |-> [t |-> "addE", e |-> NE]])
    \o MapS(Paths, LAMBDA p : [op |-> "gAct", g |-> p, a |-> [t |-> "addG", g |-> NG]])
    \o SeqProd(<< <<>>, <<1>>, <<2>> >>, <<Id(2), Id(3)>>,
               LAMBDA p, i : [op |-> "gRemoveE", g |-> p, id |-> i])
    \o SeqProd(<< <<>>, <<1>> >>, <<Id(6), Id(5), Id(7)>>,
               LAMBDA p, i : [op |-> "gRemoveG", g |-> p, id |-> i])
    \o MapS(<< <<>>, <<1>>, <<2>> >>, LAMBDA p : [op |-> "gPasteE", g |-> p])
    \o MapS(<< <<>>, <<1>>, <<2>> >>, LAMBDA p : [op |-> "gPasteG", g |-> p])
    \o MapS(<< <<>>, <<1, 1>> >>, LAMBDA p : [op |-> "gAct", g |-> p, a |-> [t |-> "name", v |-> TB]])
    \o << [op |-> "gAct", g |-> <<1>>, a |-> [t |-> "uuid", id |-> Id(6)]],
          [op |-> "gAct", g |-> <<2>>, a |-> [t |-> "times", times |-> T0]],
          [op |-> "dbAddE", e |-> NE], [op |-> "dbAddG", x |-> NG],
          [op |-> "dbReplace", x |-> NG],
          [op |-> "dbName", v |-> TB], [op |-> "dbDesc", v |-> TC],
          [op |-> "dbCustom", f |-> F(KX, TA, TRUE)],
          [op |-> "dbMp", mp |-> <<TRUE, FALSE, FALSE, TRUE, FALSE>>],
          [op |-> "gIdsMut", g |-> <<>>, ea |-> [t |-> "title", v |-> TC], ga |-> [t |-> "name", v |-> TC]],
          [op |-> "gCounts", g |-> <<>>], [op |-> "gCounts", g |-> <<1>>] >>

EPreds == << [t |-> "id", id |-> Id(2)], [t |-> "id", id |-> Id(4)], [t |-> "title", v |-> TA],
             [t |-> "title", v |-> TC], [t |-> "url", v |-> TA], [t |-> "has", k |-> KPass],
             [t |-> "any"], [t |-> "never"], [t |-> "nth", n |-> 2], [t |-> "nth", n |-> 5],
             [t |-> "nth", n |-> 9] >>
GPreds == << [t |-> "id", id |-> Id(6)], [t |-> "id", id |-> Id(8)], [t |-> "name", v |-> TA],
             [t |-> "name", v |-> TB], [t |-> "name", v |-> TC], [t |-> "holds", id |-> Id(2)],
             [t |-> "any"], [t |-> "never"], [t |-> "nth", n |-> 2], [t |-> "nth", n |-> 4],
             [t |-> "nth", n |-> 9] >>

SearchOps ==
    SeqProd(<< <<>>, <<1>>, <<2>> >>, EPreds, LAMBDA p, q : [op |-> "gSearchE", g |-> p, p |-> q])
    \o SeqProd(<< <<>>, <<1>>, <<2>> >>, GPreds, LAMBDA p, q : [op |-> "gSearchG", g |-> p, p |-> q])
    \o SeqProd(<< <<>>, <<1>> >>, EPreds, LAMBDA p, q :
                 [op |-> "gSearchEMut", g |-> p, p |-> q, a |-> [t |-> "title", v |-> TC]])
    \o SeqProd(<< <<>>, <<1>> >>, GPreds, LAMBDA p, q :
                 [op |-> "gSearchGMut", g |-> p, p |-> q, a |-> [t |-> "addE", e |-> NE]])
    \o MapS(Paths, LAMBDA p : [op |-> "gRecE", g |-> p])
    \o MapS(Paths, LAMBDA p : [op |-> "gRecG", g |-> p])
    \o MapS(Paths, LAMBDA p : [op |-> "gRecEMut", g |-> p, a |-> [t |-> "url", v |-> TB]])

R1 == [g |-> <<>>, e |-> 1, h |-> <<>>]
R2 == [g |-> <<>>, e |-> 2, h |-> <<>>]
Keys == << KX, KTitle, "x4b78", KPass, KUrl, "x" >>
FActs == << [t |-> "set", v |-> TC], [t |-> "clear"], [t |-> "prot", b |-> TRUE],
            [t |-> "prot", b |-> FALSE], [t |-> "key", v |-> KTitle] >>
EA(r, a) == [op |-> "eAct", r |-> r, a |-> a]

FieldOps ==
    SeqProd(Keys, FActs, LAMBDA k, a : EA(R1, [t |-> "field", k |-> k, a |-> a]))
    \o MapS(Keys, LAMBDA k : EA(R1, [t |-> "remove", k |-> k]))
    \o MapS(Keys, LAMBDA k : [op |-> "eFind", r |-> R1, k |-> k])
    \o SeqProd(<<"title", "username", "url", "password">>, <<TB, "x">>,
               LAMBDA t, v : EA(R1, [t |-> t, v |-> v]))
    \o << EA(R1, [t |-> "add", f |-> F(KX, TC, FALSE)]), EA(R1, [t |-> "add", f |-> F(KPass, TA, FALSE)]),
          EA(R1, [t |-> "add", f |-> F("x", "x", TRUE)]),
          EA(R1, [t |-> "fieldAt", i |-> 3, a |-> [t |-> "clear"]]),
          EA(R1, [t |-> "allFields", a |-> [t |-> "set", v |-> TA]]),
          EA(R1, [t |-> "allFields", a |-> [t |-> "prot", b |-> TRUE]]),
          EA(R1, [t |-> "uuid", id |-> Id(7)]), EA(R1, [t |-> "times", times |-> T1]),
          [op |-> "eGet", r |-> R1] >>

RH1 == [g |-> <<>>, e |-> 2, h |-> <<1>>]
RH2 == [g |-> <<>>, e |-> 2, h |-> <<2>>]
HistOps ==
    FlattenSeq([i \in 1..2 |->
        LET r == IF i = 1 THEN R1 ELSE R2 IN
        << EA(r, [t |-> "version"]), EA(r, [t |-> "title", v |-> TC]), EA(r, [t |-> "password", v |-> TC]),
           EA(r, [t |-> "remove", k |-> KTitle]), EA(r, [t |-> "times", times |-> T1]),
           EA(r, [t |-> "uuid", id |-> Id(8)]),
           [op |-> "hLen", r |-> r], [op |-> "hList", r |-> r] >>])
    \o << EA(R2, [t |-> "hPush", e |-> HistEntry]), EA(R2, [t |-> "hRemove", i |-> 1]),
          EA(R2, [t |-> "hRemove", i |-> 2]), EA(R2, [t |-> "hRemove", i |-> 3]),
          EA(RH1, [t |-> "title", v |-> TB]), EA(RH2, [t |-> "version"]),
          EA(RH2, [t |-> "hRemove", i |-> 1]), EA(R1, [t |-> "hPush", e |-> NE]),
          [op |-> "hGet", r |-> R2, i |-> 1], [op |-> "hGet", r |-> R2, i |-> 3],
          [op |-> "hGet", r |-> R1, i |-> 1] >>

Scen(name) ==
    CASE name = "tree"   -> [init |-> St0(BaseTree), ops |-> TreeOps]
      [] name = "search" -> [init |-> St0(BaseTree), ops |-> SearchOps]
      [] name = "mix"    -> [init |-> St0(BaseTree), ops |-> TreeOps \o SearchOps]
      [] name = "field"  -> [init |-> St0(BaseEntry), ops |-> FieldOps]
      [] name = "hist"   -> [init |-> St0(BaseEntry), ops |-> HistOps]
=============================================================================
