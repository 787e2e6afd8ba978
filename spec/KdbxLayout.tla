----------------------------- MODULE KdbxLayout -----------------------------
(***************************************************************************)
(* Further freedoms of layout: something the library does not know put in  *)
(* any single place of a document.  A place is a slot (before, between or  *)
(* after the children of an element), numbered in document order, or an    *)
(* element that gets another attribute.                                    *)
(***************************************************************************)
EXTENDS KdbxFormat

RECURSIVE Slots(_)
Slots(node) == IF node.t # "el" THEN 0
               ELSE Len(node.c) + 1 + FoldLeft(LAMBDA acc, k : acc + Slots(k), 0, node.c)
RECURSIVE Elements(_)
Elements(node) == IF node.t # "el" THEN 0 ELSE 1 + FoldLeft(LAMBDA acc, k : acc + Elements(k), 0, node.c)

\* which child holds the n-th slot (counted by Count), and how many come before
Locate(kids, n, Count(_)) ==
    FoldLeft(LAMBDA acc, i : IF acc[1] # 0 THEN acc
                             ELSE IF acc[2] < Count(kids[i]) THEN <<i, acc[2]>> ELSE <<0, acc[2] - Count(kids[i])>>,
             <<0, n>>, [i \in 1..Len(kids) |-> i])

IsProtLeaf(el) == \E i \in 1..Len(el.c) : el.c[i].t = "prot"
\* elements whose text counts
IsLeaf(el) == el.n \in ReadEls

Quote == "\""
At3(n, tok) == <<n, tok, Quote>>
Marked(n, tok) == [El(n, <<Prot(tok)>>) EXCEPT !.a = << At3("Protected", TrueText) >>]
Kinds == <<"short", "nested", "prot", "unprot", "keepass", "case", "comment", "pi", "blank", "cdata", "ref", "custom">>
Additions(kind, parent) ==
    CASE kind = "short" -> << [El("Xq", <<>>) EXCEPT !.short = TRUE] >>
      [] kind = "nested" -> << UnknownEls([PlainStyle EXCEPT !.unk = 1])[2] >>
      [] kind = "prot" -> << Marked("Xs", "x70c3a9"), El("Xr", << Marked("Value", "x71"), Marked("Value", "x") >>) >>
      [] kind = "unprot" -> << [El("Xu", <<Text("x2a2a")>>) EXCEPT !.a = << At3("Protected", FalseText) >>] >>
      [] kind = "keepass" ->
            << El("AutoType", << El("Enabled", <<Text(TrueText)>>), El("DataTransferObfuscation", <<Text("x30")>>),
                                 El("Association", << El("Window", <<Text("x77")>>), El("KeystrokeSequence", <<>>) >>) >>),
               El("DeletedObjects", << El("DeletedObject", << El("UUID", <<Text("x41413d3d")>>), El("DeletionTime", <<Text("x7a")>>) >>) >>),
               El("CustomIcons", << El("Icon", << El("UUID", <<>>), El("Data", <<Text("x4141")>>) >>) >>) >>
      [] kind = "case" -> << El("entry", <<>>), El("GROUP", << El("name", <<Text("x6e")>>) >>), El("Values", <<Text("x76")>>), El("Uuid", <<>>) >>
      [] kind = "comment" -> << Comment(NoteText) >>
      [] kind = "pi" -> << Raw("x3c3f70692078203e203c613e203f3e") >>                    \* <?pi x > <a> ?>
      [] kind = "blank" -> << Raw("x0d0a0920") >>
      [] kind = "cdata" -> << Raw(IF IsLeaf(parent) THEN "x3c215b43444154415b5d5d3e" ELSE "x3c215b43444154415b205d5d3e") >>
      [] kind = "ref" -> << Raw("x26237832303b") >>
      [] kind = "custom" -> << El("CustomData", << El("Item", << El("Key", <<Text("x6b")>>), Marked("Value", "x76") >>) >>) >>

\* what may not stand there without changing the meaning
Fits(kind, parent) ==
    /\ (kind \in {"blank", "ref"}) => ~IsLeaf(parent)
    /\ IsProtLeaf(parent) => kind \in {"comment", "pi"}
    /\ kind = "custom" => parent.n # "Meta"

RECURSIVE Put(_, _, _)
\* n from 0; the document unchanged where the addition does not fit
Put(node, n, kind) ==
    IF n <= Len(node.c)
    THEN IF Fits(kind, node)
         THEN [node EXCEPT !.c = SubSeq(@, 1, n) \o Additions(kind, node) \o SubSeq(@, n + 1, Len(@)), !.short = FALSE]
         ELSE node
    ELSE LET w == Locate(node.c, n - Len(node.c) - 1, Slots)
         IN  [node EXCEPT !.c[w[1]] = Put(@, w[2], kind)]

AttrKinds == << At3("Note", "x3c2622"), <<"protected", TrueText, "'">>, At3("Protectedx", TrueText), At3("xml:space", "x7072657365727665"),
                At3("Protected", FalseText), At3("Protected", "x"), At3("Ref", "x30") >>
RECURSIVE PutAttr(_, _, _, _)
PutAttr(node, n, k, front) ==
    IF n = 0
    THEN IF \E i \in 1..Len(node.a) : node.a[i][1] = AttrKinds[k][1] THEN node
         ELSE [node EXCEPT !.a = IF front THEN <<AttrKinds[k]>> \o @ ELSE Append(@, AttrKinds[k])]
    ELSE LET w == Locate(node.c, n - 1, Elements)
         IN  [node EXCEPT !.c[w[1]] = PutAttr(@, w[2], k, front)]

\* a document: database, style, additions [n, kind] and attributes [n, k, front], applied in turn
Document(db, style, puts, attrs) ==
    LET a == FoldLeft(LAMBDA d, p : Put(d, p.n % Slots(d), p.kind), LayoutOf(db, style), puts)
        b == FoldLeft(LAMBDA d, p : PutAttr(d, p.n % Elements(d), p.k, p.front), a, attrs)
    IN  Assign(b, 0)[1]

\* what stands before and after the outermost element
Before == << <<Raw(XmlDecl)>>, <<>>, <<Raw("xefbbbf"), Raw(XmlDecl)>>,
             \* <?xml version='1.0' encoding='UTF-8'?>
             << Raw("x3c3f786d6c2076657273696f6e3d27312e302720656e636f64696e673d275554462d38273f3e"), Comment(NoteText),
                Raw("x3c3f70692078203e203c613e203f3e0a"), Raw("x200a") >> >>
After == << <<>>, <<Raw("x0a")>>, <<Raw("x0d0a"), Comment(NoteText)>>, <<Raw("x3c3f706920783f3e"), Raw("x0a")>> >>

DocTerm(db, style, puts, attrs, pro, alg, key) ==
    TXml([t |-> "seq", c |-> Before[pro + 1] \o <<Encrypted(Document(db, style, puts, attrs), alg, key)>> \o After[pro + 1]])

---------------------------------------------------------------------------
(* An entry with everything, a sub-group, custom data *)
T(n) == TimeTok(n, n)
Tm(n) == [mod |-> T(n), cre |-> T(n + 1), acc |-> T(n + 2), exp |-> T(n + 3), loc |-> T(n + 4), expires |-> TRUE, usage |-> "7"]
Fd(k, v, p) == [k |-> k, v |-> v, p |-> p]
MidDb ==
    LET e(h) == [id |-> "00112233445566778899aabbccddeeff", times |-> Tm(700000), hist |-> h,
                 fields |-> << Fd("x5469746c65", "x206120", FALSE), Fd("x50", "x736563", TRUE) >>]
    IN  [meta |-> [name |-> "x6e", desc |-> "x64", mp |-> <<FALSE, TRUE, TRUE, FALSE, TRUE>>, custom |-> << Fd("x63", "x7631", TRUE) >>],
         root |-> [id |-> "ffeeddccbbaa99887766554433221100", name |-> "x72", times |-> Tm(710000),
                   entries |-> << e(<< [e(<<>>) EXCEPT !.fields = << Fd("x50", "x6f6c64", TRUE) >>] >>) >>,
                   groups |-> << [id |-> "0f0e0d0c0b0a09080706050403020100", name |-> "x20", times |-> Tm(720000),
                                  entries |-> <<>>, groups |-> <<>>] >>]]
=============================================================================
