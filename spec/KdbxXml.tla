-------------------------------- MODULE KdbxXml -----------------------------
(***************************************************************************)
(* Database XML.                                                           *)
(*                                                                         *)
(* A document, as any XML reader sees it, is a tree of                     *)
(*   [n |-> name, a |-> Seq(<<name, text>>), x |-> text directly inside,   *)
(*    c |-> Seq(element),                                                  *)
(*    d |-> <<>> or <<[off, len, x]>> for a protected element: the bytes   *)
(*          off..off+len-1 of the inner stream decrypt its text to x]      *)
(*                                                                         *)
(* ReadDoc gives the database a document describes.  LayoutOf writes a     *)
(* database as a document with layout, choosing among the freedoms XML and *)
(* KeePass leave; Strip forgets the layout.                                *)
(***************************************************************************)
EXTENDS KdbxDb, KdbxCodec

---------------------------------------------------------------------------
(* Reading *)

Named(el, name) == SelectSeq(el.c, LAMBDA k : k.n = name)
Has(el, name) == \E i \in 1..Len(el.c) : el.c[i].n = name
Kid(el, name) == LET s == Named(el, name) IN s[Len(s)]
KidText(el, name) == IF Has(el, name) THEN Kid(el, name).x ELSE "x"

\* a value that cannot be read is marked; no database equals one with a mark
Or(o) == IF o[1] = "some" THEN o[2] ELSE "unreadable"
KidOr(el, name, Read(_)) == IF Has(el, name) THEN Or(Read(Kid(el, name).x)) ELSE "missing"
KidBool(el, name) == IF Has(el, name) THEN ReadBool(Kid(el, name).x) ELSE FALSE

ReadField(el) ==
    LET v == IF Has(el, "Value") THEN Kid(el, "Value") ELSE [x |-> "x", d |-> <<>>]
        t == IF v.d # <<>> THEN v.d[1].x ELSE v.x
    IN  [k |-> KidText(el, "Key"), v |-> IF t = "x" THEN "none" ELSE t, p |-> v.d # <<>>]

ReadTimes(el) ==
    [mod |-> KidOr(el, "LastModificationTime", ReadTime),
     cre |-> KidOr(el, "CreationTime", ReadTime),
     acc |-> KidOr(el, "LastAccessTime", ReadTime),
     exp |-> KidOr(el, "ExpiryTime", ReadTime),
     loc |-> KidOr(el, "LocationChanged", ReadTime),
     expires |-> KidBool(el, "Expires"),
     usage |-> IF Has(el, "UsageCount") THEN Or(ReadDec(Kid(el, "UsageCount").x)) ELSE "0"]

NoTimes == [mod |-> "missing", cre |-> "missing", acc |-> "missing", exp |-> "missing",
            loc |-> "missing", expires |-> FALSE, usage |-> "0"]
KidTimes(el) == IF Has(el, "Times") THEN ReadTimes(Kid(el, "Times")) ELSE NoTimes

MapEls(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]

RECURSIVE ReadEntry(_)
ReadEntry(el) ==
    [id |-> KidOr(el, "UUID", ReadId),
     fields |-> MapEls(Named(el, "String"), ReadField),
     times |-> KidTimes(el),
     hist |-> IF Has(el, "History") THEN MapEls(Named(Kid(el, "History"), "Entry"), ReadEntry) ELSE <<>>]

RECURSIVE ReadGroup(_)
ReadGroup(el) ==
    [id |-> KidOr(el, "UUID", ReadId),
     name |-> KidText(el, "Name"),
     times |-> KidTimes(el),
     entries |-> MapEls(Named(el, "Entry"), ReadEntry),
     groups |-> MapEls(Named(el, "Group"), ReadGroup)]

ReadMeta(el) ==
    [name |-> KidText(el, "DatabaseName"),
     desc |-> KidText(el, "DatabaseDescription"),
     custom |-> IF Has(el, "CustomData") THEN MapEls(Named(Kid(el, "CustomData"), "Item"), ReadField) ELSE <<>>,
     mp |-> IF Has(el, "MemoryProtection")
            THEN LET m == Kid(el, "MemoryProtection")
                 IN  <<KidBool(m, "ProtectTitle"), KidBool(m, "ProtectUserName"), KidBool(m, "ProtectPassword"),
                       KidBool(m, "ProtectURL"), KidBool(m, "ProtectNotes")>>
            ELSE <<FALSE, FALSE, FALSE, FALSE, FALSE>>]

ReadDoc(doc) ==
    [meta |-> ReadMeta(Kid(doc, "Meta")), root |-> ReadGroup(Named(Kid(doc, "Root"), "Group")[1])]

---------------------------------------------------------------------------
(* What can be stored *)

StorableF(f) == /\ f.k \notin {"x", "none"}
                /\ XmlText(f.k)
                /\ (f.p \/ f.v = "none" \/ XmlText(f.v))
StorableFs(fs) == \A i \in 1..Len(fs) : StorableF(fs[i])
RECURSIVE StorableE(_)
StorableE(e) == StorableFs(e.fields) /\ \A i \in 1..Len(e.hist) : StorableE(e.hist[i])
RECURSIVE StorableG(_)
StorableG(g) == /\ XmlText(g.name)
                /\ \A i \in 1..Len(g.entries) : StorableE(g.entries[i])
                /\ \A i \in 1..Len(g.groups) : StorableG(g.groups[i])
StorableM(m) == XmlText(m.name) /\ XmlText(m.desc) /\ StorableFs(m.custom)
Storable(db) == StorableM(db.meta) /\ StorableG(db.root)

---------------------------------------------------------------------------
(* Documents the format allows a writer to produce: known elements in the  *)
(* places where they belong, no repetition of single elements, exact       *)
(* spelling of booleans and of the mark of protected values.               *)

TimeEls == {"LastModificationTime", "CreationTime", "LastAccessTime", "ExpiryTime", "LocationChanged"}
MpEls == {"ProtectTitle", "ProtectUserName", "ProtectPassword", "ProtectURL", "ProtectNotes"}

\* single children each element must have / may have, and repeated ones
Must == [KeePassFile |-> {"Meta", "Root"}, Meta |-> {"Generator"}, CustomData |-> {},
         Item |-> {"Key", "Value"}, MemoryProtection |-> MpEls, Root |-> {"Group"},
         Group |-> {"UUID", "Name", "Times"}, Entry |-> {"UUID", "Times"},
         Times |-> TimeEls \union {"Expires", "UsageCount"}, String |-> {"Key", "Value"},
         History |-> {}]
May == [KeePassFile |-> {},
        Meta |-> {"HeaderHash", "SettingsChanged", "DatabaseName", "DatabaseNameChanged", "DatabaseDescription",
                  "DatabaseDescriptionChanged", "DefaultUserName", "DefaultUserNameChanged",
                  "MaintenanceHistoryDays", "Color", "MasterKeyChanged", "MasterKeyChangeRec",
                  "MasterKeyChangeForce", "MasterKeyChangeForceOnce", "MemoryProtection", "CustomIcons",
                  "RecycleBinEnabled", "RecycleBinUUID", "RecycleBinChanged", "EntryTemplatesGroup",
                  "EntryTemplatesGroupChanged", "HistoryMaxItems", "HistoryMaxSize", "LastSelectedGroup",
                  "LastTopVisibleGroup", "Binaries", "CustomData"},
        CustomData |-> {}, Item |-> {"LastModificationTime"}, MemoryProtection |-> {},
        Root |-> {"DeletedObjects"},
        Group |-> {"Notes", "IconID", "CustomIconUUID", "IsExpanded", "DefaultAutoTypeSequence",
                   "EnableAutoType", "EnableSearching", "LastTopVisibleEntry", "CustomData",
                   "PreviousParentGroup", "Tags"},
        Entry |-> {"IconID", "CustomIconUUID", "ForegroundColor", "BackgroundColor", "OverrideURL",
                   "QualityCheck", "Tags", "PreviousParentGroup", "AutoType", "CustomData", "History"},
        Times |-> {}, String |-> {}, History |-> {}]
Many == [KeePassFile |-> {}, Meta |-> {}, CustomData |-> {"Item"}, Item |-> {}, MemoryProtection |-> {},
         Root |-> {}, Group |-> {"Entry", "Group"}, Entry |-> {"String", "Binary"}, Times |-> {},
         String |-> {}, History |-> {"Entry"}]
Containers == DOMAIN Must
KidsOf == [n \in Containers |-> Must[n] \union May[n] \union Many[n]]

ProtMark == << <<"Protected", TrueText>> >>
BoolEls == MpEls \union {"Expires"}

Blank(tok) == tok = "x" \/ (IsPlain(tok) /\ ToSet(TokBytes(tok)) \subseteq WsBytes)

GoodLeaf(el) ==
    /\ el.c = <<>>
    /\ el.a = <<>> \/ (el.n = "Value" /\ el.a = ProtMark)
    /\ (el.n \in BoolEls) => el.x \in {TrueText, FalseText}
    /\ (el.n = "UUID") => LET r == ReadId(el.x) IN r[1] = "some" /\ el.x = IdText(r[2])
    /\ (el.n \in TimeEls) => LET r == ReadTime(el.x) IN r[1] = "some" /\ el.x = TimeText(r[2])
GoodKids(n, names) ==
    LET single == SelectSeq(names, LAMBDA k : k \notin Many[n])
    IN  /\ Must[n] \subseteq ToSet(single)
        /\ ToSet(names) \subseteq KidsOf[n]
        /\ Cardinality(ToSet(single)) = Len(single)
RECURSIVE GoodEl(_)
GoodEl(el) ==
    IF el.n \in Containers
    THEN /\ el.a = <<>>
         /\ Blank(el.x)
         /\ GoodKids(el.n, [i \in 1..Len(el.c) |-> el.c[i].n])
         /\ \A k \in ToSet(el.c) : GoodEl(k)
    ELSE GoodLeaf(el)

\* protected values in document order use the inner stream without gap or reuse
RECURSIVE Prots(_)
Prots(el) == FoldLeft(LAMBDA acc, k : acc \o Prots(k), <<>>, el.c) \o el.d
RECURSIVE Contiguous(_, _)
Contiguous(ps, off) == IF ps = <<>> THEN TRUE
                       ELSE ps[1].off = off /\ Contiguous(Tail(ps), off + ps[1].len)

GoodDoc(doc) == doc.n = "KeePassFile" /\ GoodEl(doc) /\ Contiguous(Prots(doc), 0)

\* every protected field of the database, in document order (entries before
\* sub-groups or not: as the document has them), appears encrypted
RECURSIVE CountProtE(_)
CountProtE(e) == Len(SelectSeq(e.fields, LAMBDA f : f.p))
                 + FoldLeft(LAMBDA acc, h : acc + CountProtE(h), 0, e.hist)
RECURSIVE CountProtG(_)
CountProtG(g) == FoldLeft(LAMBDA acc, e : acc + CountProtE(e), 0, g.entries)
                 + FoldLeft(LAMBDA acc, s : acc + CountProtG(s), 0, g.groups)
CountProt(db) == CountProtG(db.root) + Len(SelectSeq(db.meta.custom, LAMBDA f : f.p))

\* texts of elements that have no part in the database
ReadEls == {"Key", "Value", "Name", "DatabaseName", "DatabaseDescription", "Generator", "UUID", "UsageCount", "Expires"}
           \union TimeEls \union MpEls
RECURSIVE AsideTexts(_)
AsideTexts(el) == (IF el.c = <<>> /\ el.n \notin ReadEls \union Containers THEN {el.x} ELSE {})
                  \union UNION {AsideTexts(el.c[i]) : i \in 1..Len(el.c)}
\* no protected value is repeated in clear in some other place
NoLeak(doc) == {p.x : p \in ToSet(Prots(doc))} \intersect AsideTexts(doc) \subseteq {"x"}

---------------------------------------------------------------------------
(* Writing with layout.  Nodes:                                            *)
(*   [t |-> "el", n, a, c, short]   [t |-> "text"|"cdata"|"refs", x]       *)
(*   [t |-> "raw"|"comment", x]     [t |-> "prot", x, off]                 *)
(* A style is                                                              *)
(*   [ord: 0..3, txt: "text"|"cdata"|"refs"|"split", ws: text,             *)
(*    com, attr, short, pad, iso: BOOLEAN, unk: 0..2, bool: 0..2,          *)
(*    optionally zone: minutes (of dates written as text),                 *)
(*    gen: text (name of the program)]                                     *)

PlainStyle == [ord |-> 0, txt |-> "text", ws |-> "x", com |-> FALSE, attr |-> FALSE, short |-> FALSE,
               pad |-> FALSE, iso |-> FALSE, unk |-> 0, bool |-> 0]

El(n, kids) == [t |-> "el", n |-> n, a |-> <<>>, c |-> kids, short |-> FALSE]
Text(tok) == [t |-> "text", x |-> tok]
Raw(tok) == [t |-> "raw", x |-> tok]
Comment(tok) == [t |-> "comment", x |-> tok]
NoteText == "x203c456e7472793e206e6f74652026203c2f4e616d653e20"   \* " <Entry> note & </Name> "

\* can the text stand in a CDATA section as it is?
CdataOK(b) == \A i \in 1..Len(b) : b[i] # 13 /\ ~(b[i] = 93 /\ i + 2 <= Len(b) /\ b[i + 1] = 93 /\ b[i + 2] = 62)

\* a place in the middle of a text where a character starts
SplitAt(b) == CHOOSE k \in 0..Len(b) :
                /\ k <= Len(b) \div 2
                /\ (k = 0 \/ b[k + 1] \notin 128..191)
                /\ \A j \in (k + 1)..(Len(b) \div 2) : b[j + 1] \in 128..191

TextNodes(tok, s) ==
    IF tok \in {"x", "none"} THEN <<>>
    ELSE IF ~IsPlain(tok) THEN <<Text(tok)>>
    ELSE LET b == TokBytes(tok) IN
         CASE s.txt = "text"  -> <<Text(tok)>>
           [] s.txt = "cdata" -> IF CdataOK(b) THEN <<[t |-> "cdata", x |-> tok]>> ELSE <<Text(tok)>>
           [] s.txt = "refs"  -> <<[t |-> "refs", x |-> tok]>>
           [] s.txt = "split" ->
                LET k == SplitAt(b)
                    a == SubSeq(b, 1, k)
                    z == SubSeq(b, k + 1, Len(b))
                IN  (IF k = 0 THEN <<>> ELSE <<Text(Tok(Hex(a)))>>)
                    \o <<Comment(NoteText)>>
                    \o (IF z = <<>> THEN <<>>
                        ELSE IF CdataOK(z) THEN <<[t |-> "cdata", x |-> Tok(Hex(z))]>>
                        ELSE <<[t |-> "refs", x |-> Tok(Hex(z))]>>)

\* identifiers, times, numbers and booleans may have white space around them
Padded(tok, s) == IF s.pad THEN <<Text("x0a20"), Text(tok), Text("x0920")>> ELSE TextNodes(tok, s)

BoolAs(b, s) ==
    CASE s.bool = 0 -> BoolText(b)
      [] s.bool = 1 -> IF b THEN "x74727565" ELSE "x66616c7365"
      [] s.bool = 2 -> IF b THEN "x54525545" ELSE "x"

Decorate(node, s) ==
    IF s.attr /\ node.t = "el"
    THEN [node EXCEPT !.a = << <<"Extra", "x3c2622", "\"">> >> \o @ \o << <<"zz", "x", "'">> >>]
    ELSE node

Plain(n, nodes, s) == Decorate([El(n, nodes) EXCEPT !.short = s.short], s)

(* Unknown elements, some of them with the names of known ones inside, and *)
(* with protected values that use up part of the inner stream.             *)
Prot(tok) == [t |-> "prot", x |-> tok, off |-> 0]
ProtEl(n, tok, s) ==
    [Plain(n, <<Prot(tok)>>, s) EXCEPT
        !.a = @ \o << <<"Protected", IF s.bool = 1 THEN "x74727565" ELSE TrueText>> >>]

\* an element with text, perhaps with an unknown element inside
Leaf(n, nodes, s) ==
    IF s.unk # 2 THEN Plain(n, nodes, s)
    ELSE LET u == El("Xu", << Text("x6e6f"), ProtEl("Xv", "x71", s), El(n, <<Text("x6e6f")>>) >>)
         IN  Plain(n, IF s.ord \in {1, 3} THEN <<u>> \o nodes ELSE nodes \o <<u>>, s)

UnknownEls(s) ==
    IF s.unk = 0 THEN <<>>
    ELSE << El("IconID", <<Text("x30")>>),
            El("Xq", << Text("x61"),
                        El("Group", << El("UUID", <<Text("x6e6f7065")>>),
                                       El("Entry", << El("String", << El("Key", <<Text("x6b")>>) >>) >>) >>),
                        El("Name", <<Text("x62")>>), El("Times", <<>>), El("Value", <<>>),
                        El("Xq", << El("Xq", <<>>), El("Root", <<>>), El("Meta", <<>>) >>),
                        El("History", <<Text("x63")>>) >>) >>
         \o (IF s.unk = 2
             THEN << El("Binary", << El("Key", <<Text("x66")>>), ProtEl("Value", "x7365637265740a", s),
                                     El("Xr", << ProtEl("Value", "x70", s), El("Item", <<>>) >>) >>),
                     ProtEl("Xs", "x0102", s), ProtEl("Xt", "x", s) >>
             ELSE <<>>)

\* one of each category in turn
RECURSIVE RoundRobin(_)
RoundRobin(cats) ==
    LET rest == SelectSeq(cats, LAMBDA q : q # <<>>)
    IN  IF rest = <<>> THEN <<>>
        ELSE [i \in 1..Len(rest) |-> rest[i][1]] \o RoundRobin([i \in 1..Len(rest) |-> Tail(rest[i])])

Order(cats, s) ==
    CASE s.ord = 0 -> FlattenSeq(cats)
      [] s.ord = 1 -> FlattenSeq(Reverse(cats))
      [] s.ord = 2 -> FlattenSeq(Tail(cats) \o <<cats[1]>>)
      [] s.ord = 3 -> RoundRobin(Reverse(cats))

Between(s) == (IF s.ws = "x" THEN <<>> ELSE <<Raw(s.ws)>>) \o (IF s.com THEN <<Comment(NoteText)>> ELSE <<>>)

\* a container: its children in some order, with unknown elements, white
\* space and comments between them
Cont(n, cats, s) ==
    LET kids == Order(cats, s)
        u == UnknownEls(s)
        half == Len(kids) \div 2
        all == IF u = <<>> THEN kids
               ELSE u \o SubSeq(kids, 1, half) \o u \o SubSeq(kids, half + 1, Len(kids)) \o <<u[1]>>
        b == Between(s)
    IN  Decorate(El(n, IF b = <<>> THEN all
                       ELSE FlattenSeq([i \in 1..Len(all) |-> b \o <<all[i]>>]) \o b), s)

Zone(s) == IF "zone" \in DOMAIN s THEN s.zone ELSE 0
TimeLeaf(n, t, s) == Leaf(n, Padded(IF s.iso THEN IsoText(t, Zone(s)) ELSE TimeText(t), s), s)
LTimes(t, s) ==
    Cont("Times",
         << <<TimeLeaf("LastModificationTime", t.mod, s)>>, <<TimeLeaf("CreationTime", t.cre, s)>>,
            <<TimeLeaf("LastAccessTime", t.acc, s)>>, <<TimeLeaf("ExpiryTime", t.exp, s)>>,
            <<Leaf("Expires", Padded(BoolAs(t.expires, s), s), s)>>,
            <<Leaf("UsageCount", Padded(DecText(t.usage), s), s)>>,
            <<TimeLeaf("LocationChanged", t.loc, s)>> >>, s)

LField(n, f, s) ==
    Cont(n, << <<Leaf("Key", TextNodes(f.k, s), s)>>,
               <<IF f.p THEN ProtEl("Value", IF f.v = "none" THEN "x" ELSE f.v, s)
                 ELSE Leaf("Value", TextNodes(f.v, s), s)>> >>, s)

RECURSIVE LEntry(_, _)
LEntry(e, s) ==
    Cont("Entry",
         << <<Leaf("UUID", Padded(IdText(e.id), s), s)>>, <<LTimes(e.times, s)>>,
            [i \in 1..Len(e.fields) |-> LField("String", e.fields[i], s)],
            IF e.hist = <<>> /\ s.unk = 0 THEN <<>>
            ELSE <<Cont("History", << [i \in 1..Len(e.hist) |-> LEntry(e.hist[i], s)] >>, s)>> >>, s)

RECURSIVE LGroup(_, _)
LGroup(g, s) ==
    Cont("Group",
         << <<Leaf("UUID", Padded(IdText(g.id), s), s)>>, <<Leaf("Name", TextNodes(g.name, s), s)>>,
            <<LTimes(g.times, s)>>,
            [i \in 1..Len(g.entries) |-> LEntry(g.entries[i], s)],
            [i \in 1..Len(g.groups) |-> LGroup(g.groups[i], s)] >>, s)

Generator(s) == IF "gen" \in DOMAIN s THEN s.gen ELSE "x4b65655061737358"

LMeta(m, s) ==
    Cont("Meta",
         << <<Leaf("Generator", TextNodes(Generator(s), s), s)>>,
            <<Leaf("DatabaseName", TextNodes(m.name, s), s)>>,
            <<Leaf("DatabaseDescription", TextNodes(m.desc, s), s)>>,
            <<Cont("MemoryProtection",
                   << <<Leaf("ProtectTitle", Padded(BoolAs(m.mp[1], s), s), s)>>,
                      <<Leaf("ProtectUserName", Padded(BoolAs(m.mp[2], s), s), s)>>,
                      <<Leaf("ProtectPassword", Padded(BoolAs(m.mp[3], s), s), s)>>,
                      <<Leaf("ProtectURL", Padded(BoolAs(m.mp[4], s), s), s)>>,
                      <<Leaf("ProtectNotes", Padded(BoolAs(m.mp[5], s), s), s)>> >>, s)>>,
            <<Cont("CustomData", << [i \in 1..Len(m.custom) |-> LField("Item", m.custom[i], s)] >>, s)>> >>, s)

\* assign places in the inner stream: <<node, next offset>>
RECURSIVE Assign(_, _)
Assign(node, off) ==
    IF node.t = "prot" THEN <<[node EXCEPT !.off = off], off + TokLen(node.x)>>
    ELSE IF node.t # "el" THEN <<node, off>>
    ELSE LET r == FoldLeft(LAMBDA acc, k : LET q == Assign(k, acc[2]) IN <<Append(acc[1], q[1]), q[2]>>,
                           << <<>>, off >>, node.c)
         IN  <<[node EXCEPT !.c = r[1]], r[2]>>

LayoutAt(db, s, off) ==
    Assign(Cont("KeePassFile", << <<LMeta(db.meta, s)>>, <<Cont("Root", << <<LGroup(db.root, s)>> >>, s)>> >>, s), off)[1]
LayoutOf(db, s) == LayoutAt(db, s, 0)

RECURSIVE Strip(_)
Strip(node) ==
    LET els == SelectSeq(node.c, LAMBDA k : k.t = "el")
        txt == SelectSeq(node.c, LAMBDA k : k.t \in {"text", "cdata", "refs"})
        pr == SelectSeq(node.c, LAMBDA k : k.t = "prot")
    IN  [n |-> node.n, a |-> [i \in 1..Len(node.a) |-> <<node.a[i][1], node.a[i][2]>>],
         x |-> IF Len(txt) = 1 THEN txt[1].x
               ELSE FoldLeft(LAMBDA acc, k : acc \o TokHex(k.x), "x", txt),
         c |-> MapEls(els, Strip),
         d |-> [i \in 1..Len(pr) |-> [off |-> pr[i].off, len |-> TokLen(pr[i].x), x |-> pr[i].x]]]
=============================================================================
