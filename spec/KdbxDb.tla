------------------------------- MODULE KdbxDb -------------------------------
(***************************************************************************)
(* The password database and every operation of the public API on it, as   *)
(* pure functions.                                                         *)
(*                                                                         *)
(*   text     a string "x<hex>" (UTF-8 bytes in hex); "x" is empty text    *)
(*   value    a text, or "none" for an absent value                        *)
(*   id       a string (UUID in hex)                                       *)
(*   Field    [k |-> text, v |-> value, p |-> BOOLEAN]                     *)
(*   time     "t<16 hex>": seconds since year 1, little endian; with       *)
(*            ".<nanoseconds>" if there is a fraction                      *)
(*   Times    [mod, cre, acc, exp, loc |-> time,                           *)
(*             expires |-> BOOLEAN, usage |-> decimal STRING]              *)
(*   Entry    [id, fields |-> Seq(Field), times, hist |-> Seq(Entry)]      *)
(*   Group    [id, name |-> text, times, entries |-> Seq(Entry),           *)
(*             groups |-> Seq(Group)]                                      *)
(*   Meta     [name, desc |-> text, custom |-> Seq(Field),                 *)
(*             mp |-> <<title, username, password, url, notes>>]           *)
(*   Db       [meta |-> Meta, root |-> Group]                              *)
(*                                                                         *)
(* An operation sequence works on a state                                  *)
(*   St       [db |-> Db, ce |-> Seq(Entry), cg |-> Seq(Group)]            *)
(* where ce and cg hold the items removed from the tree and owned by the   *)
(* caller.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

None == <<"none">>
Some(x) == <<"some", x>>

---------------------------------------------------------------------------
(* Generic sequence helpers *)

\* index of the first element of s satisfying Test, 0 if there is none
FirstIdx(s, Test(_)) ==
    IF \E i \in 1..Len(s) : Test(s[i])
    THEN CHOOSE i \in 1..Len(s) : Test(s[i]) /\ \A j \in 1..(i-1) : ~Test(s[j])
    ELSE 0

DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

---------------------------------------------------------------------------
(* Tree addressing: a path is the sequence of child indices from the root *)

RECURSIVE GetG(_, _)
GetG(g, path) == IF path = <<>> THEN g ELSE GetG(g.groups[Head(path)], Tail(path))

RECURSIVE PutG(_, _, _)
PutG(g, path, new) ==
    IF path = <<>> THEN new
    ELSE [g EXCEPT !.groups = [@ EXCEPT ![Head(path)] = PutG(@, Tail(path), new)]]

RECURSIVE ValidPath(_, _)
ValidPath(g, path) ==
    IF path = <<>> THEN TRUE
    ELSE Head(path) \in 1..Len(g.groups) /\ ValidPath(g.groups[Head(path)], Tail(path))

(* An entry reference is [g |-> path, e |-> index, h |-> history indices] *)
RECURSIVE GetH(_, _)
GetH(e, h) == IF h = <<>> THEN e ELSE GetH(e.hist[Head(h)], Tail(h))

RECURSIVE PutH(_, _, _)
PutH(e, h, new) ==
    IF h = <<>> THEN new
    ELSE [e EXCEPT !.hist = [@ EXCEPT ![Head(h)] = PutH(@, Tail(h), new)]]

GetE(root, r) == GetH(GetG(root, r.g).entries[r.e], r.h)

PutE(root, r, new) ==
    LET g == GetG(root, r.g)
    IN  PutG(root, r.g, [g EXCEPT !.entries = [@ EXCEPT ![r.e] = PutH(@, r.h, new)]])

RECURSIVE ValidHist(_, _)
ValidHist(e, h) ==
    IF h = <<>> THEN TRUE
    ELSE Head(h) \in 1..Len(e.hist) /\ ValidHist(e.hist[Head(h)], Tail(h))

ValidRef(root, r) ==
    /\ ValidPath(root, r.g)
    /\ r.e \in 1..Len(GetG(root, r.g).entries)
    /\ ValidHist(GetG(root, r.g).entries[r.e], r.h)

---------------------------------------------------------------------------
(* Search order: a group's own entries, then its child groups in order; a  *)
(* group before the groups inside it.                                      *)

RECURSIVE EntryRefs(_, _)
EntryRefs(g, path) ==
    FoldLeft(LAMBDA all, i : all \o EntryRefs(g.groups[i], Append(path, i)),
             [i \in 1..Len(g.entries) |-> [g |-> path, e |-> i, h |-> <<>>]],
             [i \in 1..Len(g.groups) |-> i])

RECURSIVE GroupPaths(_, _)
GroupPaths(g, path) ==
    FoldLeft(LAMBDA all, i : all \o <<Append(path, i)>> \o GroupPaths(g.groups[i], Append(path, i)),
             <<>>, [i \in 1..Len(g.groups) |-> i])

AllEntries(g) == LET rs == EntryRefs(g, <<>>) IN [i \in 1..Len(rs) |-> GetE(g, rs[i])]
AllGroups(g) == LET ps == GroupPaths(g, <<>>) IN [i \in 1..Len(ps) |-> GetG(g, ps[i])]

---------------------------------------------------------------------------
(* Fields *)

\* "Title" etc. in the text encoding
KTitle == "x5469746c65"
KUser  == "x557365724e616d65"
KUrl   == "x55524c"
KPass  == "x50617373776f7264"
KOtp   == "x6f7470"

FindField(e, key) == FirstIdx(e.fields, LAMBDA f : f.k = key)

FieldVal(e, key) ==
    LET i == FindField(e, key) IN IF i = 0 THEN "none" ELSE e.fields[i].v

\* a value set through a field keeps the field's protection
SetVal(f, v) == [f EXCEPT !.v = v]
ClearVal(f) == [f EXCEPT !.v = "none"]

\* the convenience setters: update the first field of that name or append one
SetStd(e, key, v) ==
    LET i == FindField(e, key)
    IN  IF i = 0 THEN [e EXCEPT !.fields = Append(@, [k |-> key, v |-> v, p |-> FALSE])]
        ELSE [e EXCEPT !.fields = [@ EXCEPT ![i] = SetVal(@, v)]]

SetSecret(e, key, v) ==
    LET i == FindField(e, key)
    IN  IF i = 0 THEN [e EXCEPT !.fields = Append(@, [k |-> key, v |-> v, p |-> TRUE])]
        ELSE [e EXCEPT !.fields = [@ EXCEPT ![i] = [k |-> @.k, v |-> v, p |-> TRUE]]]

\* one action on a field record
FieldAct(f, a) ==
    CASE a.t = "set"   -> SetVal(f, a.v)
      [] a.t = "clear" -> ClearVal(f)
      [] a.t = "prot"  -> [f EXCEPT !.p = a.b]
      [] a.t = "key"   -> [f EXCEPT !.k = a.v]

\* one action on an entry
NewVersion(e) == [e EXCEPT !.hist = Append(@, [e EXCEPT !.hist = <<>>])]

EntryAct(e, a) ==
    CASE a.t = "title"    -> SetStd(e, KTitle, a.v)
      [] a.t = "username" -> SetStd(e, KUser, a.v)
      [] a.t = "url"      -> SetStd(e, KUrl, a.v)
      [] a.t = "password" -> SetSecret(e, KPass, a.v)
      [] a.t = "otp"      -> SetSecret(e, KOtp, a.v)
      [] a.t = "add"      -> [e EXCEPT !.fields = Append(@, a.f)]
      [] a.t = "remove"   -> [e EXCEPT !.fields = SelectSeq(@, LAMBDA f : f.k # a.k)]
      [] a.t = "field"    -> LET i == FindField(e, a.k)
                             IN  IF i = 0 THEN e
                                 ELSE [e EXCEPT !.fields = [@ EXCEPT ![i] = FieldAct(@, a.a)]]
      [] a.t = "fieldAt"  -> IF a.i \in 1..Len(e.fields)
                             THEN [e EXCEPT !.fields = [@ EXCEPT ![a.i] = FieldAct(@, a.a)]]
                             ELSE e
      [] a.t = "allFields"-> [e EXCEPT !.fields = [i \in 1..Len(@) |-> FieldAct(@[i], a.a)]]
      [] a.t = "uuid"     -> [e EXCEPT !.id = a.id]
      [] a.t = "times"    -> [e EXCEPT !.times = a.times]
      [] a.t = "version"  -> NewVersion(e)
      [] a.t = "hPush"    -> [e EXCEPT !.hist = Append(@, a.e)]
      [] a.t = "hRemove"  -> [e EXCEPT !.hist = DropAt(@, a.i)]
      [] a.t = "nop"      -> e

GroupAct(g, a) ==
    CASE a.t = "name"  -> [g EXCEPT !.name = a.v]
      [] a.t = "uuid"  -> [g EXCEPT !.id = a.id]
      [] a.t = "times" -> [g EXCEPT !.times = a.times]
      [] a.t = "addE"  -> [g EXCEPT !.entries = Append(@, a.e)]
      [] a.t = "addG"  -> [g EXCEPT !.groups = Append(@, a.g)]
      [] a.t = "nop"   -> g

---------------------------------------------------------------------------
(* Search predicates; "nth" is true on its n-th evaluation only *)

EntryTest(e, p) ==
    CASE p.t = "id"    -> e.id = p.id
      [] p.t = "title" -> FieldVal(e, KTitle) = p.v
      [] p.t = "url"   -> FieldVal(e, KUrl) = p.v
      [] p.t = "has"   -> FindField(e, p.k) # 0
      [] p.t = "any"   -> TRUE
      [] p.t = "never" -> FALSE

GroupTest(g, p) ==
    CASE p.t = "id"    -> g.id = p.id
      [] p.t = "name"  -> g.name = p.v
      [] p.t = "holds" -> \E i \in 1..Len(g.entries) : g.entries[i].id = p.id
      [] p.t = "any"   -> TRUE
      [] p.t = "never" -> FALSE

SearchE(g, path, p) ==
    LET rs == EntryRefs(GetG(g, path), path)
        i  == IF p.t = "nth" THEN (IF p.n <= Len(rs) THEN p.n ELSE 0)
              ELSE FirstIdx(rs, LAMBDA r : EntryTest(GetE(g, r), p))
    IN  IF i = 0 THEN None ELSE Some(rs[i])

SearchG(g, path, p) ==
    LET ps == GroupPaths(GetG(g, path), path)
        i  == IF p.t = "nth" THEN (IF p.n <= Len(ps) THEN p.n ELSE 0)
              ELSE FirstIdx(ps, LAMBDA q : GroupTest(GetG(g, q), p))
    IN  IF i = 0 THEN None ELSE Some(ps[i])

RECURSIVE ApplyRefs(_, _, _)
ApplyRefs(g, rs, a) ==
    IF rs = <<>> THEN g
    ELSE ApplyRefs(PutE(g, Head(rs), EntryAct(GetE(g, Head(rs)), a)), Tail(rs), a)

---------------------------------------------------------------------------
(* What the read-only API reports about parts of the tree *)

Getters(e) == <<FieldVal(e, KTitle), FieldVal(e, KUser), FieldVal(e, KUrl),
                FieldVal(e, KPass)>>

Ids(s) == [i \in 1..Len(s) |-> s[i].id]

\* multiset of a sequence, as a function from elements to counts
BagOf(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

---------------------------------------------------------------------------
(* Apply(st, o): the effect of operation o: [st |-> state, ret |-> result].*)
(* Results are tagged sequences so that any two can be compared.           *)

WithRoot(st, root) == [st EXCEPT !.db = [@ EXCEPT !.root = root]]
Nil == <<"nil">>
Done(st) == [st |-> st, ret |-> Nil]
Ret(st, r) == [st |-> st, ret |-> r]

\* can the operation be issued in this state (its address exists)?
Enabled(st, o) ==
    LET root == st.db.root IN
    CASE o.op \in {"gAct", "gCounts", "gRemoveE", "gRemoveG", "gSearchE", "gSearchEMut",
                   "gSearchG", "gSearchGMut", "gRecE", "gRecEMut", "gRecG", "gIdsMut"}
              -> ValidPath(root, o.g)
      [] o.op = "gPasteE" -> ValidPath(root, o.g) /\ st.ce # <<>>
      [] o.op = "gPasteG" -> ValidPath(root, o.g) /\ st.cg # <<>>
      [] o.op \in {"eGet", "eFind", "hGet", "hLen", "hList"} -> ValidRef(root, o.r)
      [] o.op = "eAct" -> /\ ValidRef(root, o.r)
                          /\ o.a.t = "hRemove" => o.a.i \in 1..Len(GetE(root, o.r).hist)
      [] OTHER -> TRUE

Apply(st, o) ==
    LET root == st.db.root IN
    CASE \* --- database level
         o.op = "dbAddE"    -> Done(WithRoot(st, GroupAct(root, [t |-> "addE", e |-> o.e])))
      [] o.op = "dbAddG"    -> Done(WithRoot(st, GroupAct(root, [t |-> "addG", g |-> o.x])))
      [] o.op = "dbReplace" -> Done(WithRoot(st, o.x))
      [] o.op = "dbName"    -> Ret([st EXCEPT !.db = [@ EXCEPT !.meta = [@ EXCEPT !.name = o.v]]],
                                   <<"text", o.v>>)
      [] o.op = "dbDesc"    -> Ret([st EXCEPT !.db = [@ EXCEPT !.meta = [@ EXCEPT !.desc = o.v]]],
                                   <<"text", o.v>>)
      [] o.op = "dbCustom"  -> Done([st EXCEPT !.db = [@ EXCEPT !.meta =
                                        [@ EXCEPT !.custom = Append(@, o.f)]]])
      [] o.op = "dbMp"      -> Done([st EXCEPT !.db = [@ EXCEPT !.meta = [@ EXCEPT !.mp = o.mp]]])
         \* --- group level
      [] o.op = "gAct"      -> Done(WithRoot(st, PutG(root, o.g, GroupAct(GetG(root, o.g), o.a))))
      [] o.op = "gCounts"   -> LET g == GetG(root, o.g)
                               IN Ret(st, <<"counts", Len(g.groups), Len(g.entries),
                                            Ids(g.groups), Ids(g.entries), g.id, g.name>>)
      [] o.op = "gRemoveE"  ->
            LET g == GetG(root, o.g)
                i == FirstIdx(g.entries, LAMBDA e : e.id = o.id)
            IN  IF i = 0 THEN Ret(st, None)
                ELSE Ret([WithRoot(st, PutG(root, o.g, [g EXCEPT !.entries = DropAt(@, i)]))
                            EXCEPT !.ce = Append(@, g.entries[i])],
                         Some(g.entries[i]))
      [] o.op = "gRemoveG"  ->
            LET g == GetG(root, o.g)
                i == FirstIdx(g.groups, LAMBDA x : x.id = o.id)
            IN  IF i = 0 THEN Ret(st, None)
                ELSE Ret([WithRoot(st, PutG(root, o.g, [g EXCEPT !.groups = DropAt(@, i)]))
                            EXCEPT !.cg = Append(@, g.groups[i])],
                         Some(g.groups[i]))
      [] o.op = "gPasteE"   ->
            LET e == Last(st.ce)
            IN Done([WithRoot(st, PutG(root, o.g, GroupAct(GetG(root, o.g), [t |-> "addE", e |-> e])))
                        EXCEPT !.ce = Front(@)])
      [] o.op = "gPasteG"   ->
            LET x == Last(st.cg)
            IN Done([WithRoot(st, PutG(root, o.g, GroupAct(GetG(root, o.g), [t |-> "addG", g |-> x])))
                        EXCEPT !.cg = Front(@)])
      [] o.op = "gIdsMut"   ->   \* visit the direct children mutably
            LET g == GetG(root, o.g)
            IN Ret(WithRoot(st, PutG(root, o.g,
                     [g EXCEPT !.entries = [i \in 1..Len(@) |-> EntryAct(@[i], o.ea)],
                               !.groups = [i \in 1..Len(@) |-> GroupAct(@[i], o.ga)]])),
                   <<"ids", Ids(g.groups), Ids(g.entries)>>)
         \* --- search and traversal (o.g is the starting group)
      [] o.op = "gSearchE"    -> LET r == SearchE(root, o.g, o.p)
                                 IN Ret(st, IF r = None THEN None ELSE Some(GetE(root, r[2])))
      [] o.op = "gSearchG"    -> LET r == SearchG(root, o.g, o.p)
                                 IN Ret(st, IF r = None THEN None ELSE Some(GetG(root, r[2])))
      [] o.op = "gSearchEMut" -> LET r == SearchE(root, o.g, o.p)
                                 IN IF r = None THEN Ret(st, None)
                                    ELSE Ret(WithRoot(st, PutE(root, r[2], EntryAct(GetE(root, r[2]), o.a))),
                                             Some(GetE(root, r[2])))
      [] o.op = "gSearchGMut" -> LET r == SearchG(root, o.g, o.p)
                                 IN IF r = None THEN Ret(st, None)
                                    ELSE Ret(WithRoot(st, PutG(root, r[2], GroupAct(GetG(root, r[2]), o.a))),
                                             Some(GetG(root, r[2])))
      [] o.op = "gRecE"       -> Ret(st, <<"bag", BagOf(AllEntries(GetG(root, o.g)))>>)
      [] o.op = "gRecG"       -> Ret(st, <<"bag", BagOf(AllGroups(GetG(root, o.g)))>>)
      [] o.op = "gRecEMut"    -> LET rs == EntryRefs(GetG(root, o.g), o.g)
                                 IN Ret(WithRoot(st, ApplyRefs(root, rs, o.a)),
                                        <<"bag", BagOf([i \in 1..Len(rs) |-> GetE(root, rs[i])])>>)
         \* --- entry level
      [] o.op = "eAct"  ->
            LET e == GetE(root, o.r)
                r == CASE o.a.t = "field"   -> <<"found", FindField(e, o.a.k) # 0>>
                       [] o.a.t = "hRemove" -> Some(e.hist[o.a.i])
                       [] OTHER -> Nil
            IN Ret(WithRoot(st, PutE(root, o.r, EntryAct(e, o.a))), r)
      [] o.op = "eGet"  -> LET e == GetE(root, o.r)
                           IN Ret(st, <<"entry", e.id, Getters(e), e.fields, e.times, Len(e.hist)>>)
      [] o.op = "eFind" -> LET e == GetE(root, o.r)
                               i == FindField(e, o.k)
                           IN Ret(st, IF i = 0 THEN None ELSE Some(e.fields[i]))
      [] o.op = "hGet"  -> LET e == GetE(root, o.r)
                           IN Ret(st, IF o.i \in 1..Len(e.hist) THEN Some(e.hist[o.i]) ELSE None)
      [] o.op = "hLen"  -> LET e == GetE(root, o.r)
                           IN Ret(st, <<"len", Len(e.hist), e.hist = <<>> >>)
      [] o.op = "hList" -> Ret(st, <<"list", GetE(root, o.r).hist>>)
      [] o.op = "obs"   -> Done(st)

\* does a recorded result agree with the specified one?  Recursive
\* traversals are recorded as sequences and specified as multisets.
RetOK(spec, rec) ==
    IF spec[1] = "bag" THEN rec[1] = "bag" /\ BagOf(rec[2]) = spec[2] ELSE rec = spec

---------------------------------------------------------------------------
(* Canonical form: what saving and reopening must preserve. Empty text may *)
(* come back as an absent value, and times are kept to the second.         *)

CanonF(f) == [f EXCEPT !.v = IF @ = "x" THEN "none" ELSE @]
CanonFs(fs) == [i \in 1..Len(fs) |-> CanonF(fs[i])]
CanonTime(t) == SubSeq(t, 1, 17)
CanonT(t) == [t EXCEPT !.mod = CanonTime(@), !.cre = CanonTime(@), !.acc = CanonTime(@),
                       !.exp = CanonTime(@), !.loc = CanonTime(@)]
RECURSIVE CanonE(_)
CanonE(e) == [e EXCEPT !.times = CanonT(@), !.fields = CanonFs(@), !.hist = [i \in 1..Len(@) |-> CanonE(@[i])]]
RECURSIVE CanonG(_)
CanonG(g) == [g EXCEPT !.times = CanonT(@), !.entries = [i \in 1..Len(@) |-> CanonE(@[i])],
                       !.groups = [i \in 1..Len(@) |-> CanonG(@[i])]]
Canon(db) == [meta |-> [db.meta EXCEPT !.custom = CanonFs(@)], root |-> CanonG(db.root)]
=============================================================================
