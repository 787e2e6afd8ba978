-------------------------------- MODULE MCDb --------------------------------
(***************************************************************************)
(* Exhaustive check of the database specification over a bounded alphabet: *)
(* every state reachable in MaxDepth operations, every operation in it.    *)
(***************************************************************************)
EXTENDS DbScen, IOUtils

Name == IOEnv.SCEN
MaxDepth == atoi(IOEnv.DEPTH)
S == Scen(Name)

VARIABLES st, pre, op, ret, depth
vars == <<st, pre, op, ret, depth>>

Init == st = S.init /\ pre = S.init /\ op = [op |-> "obs"] /\ ret = Nil /\ depth = 0

Next ==
    /\ depth < MaxDepth
    /\ \E k \in 1..Len(S.ops) :
         LET o == S.ops[k] IN
         /\ Enabled(st, o)
         /\ LET r == Apply(st, o) IN st' = r.st /\ ret' = r.ret
         /\ op' = o
         /\ pre' = st
         /\ depth' = depth + 1

Spec == Init /\ [][Next]_vars

\* two states that differ only in how they were reached at the same depth are
\* still different transitions, so the view keeps op and pre

---------------------------------------------------------------------------
RECURSIVE EIdsG(_)
EIdsG(g) == Ids(g.entries) \o FlattenSeq([i \in 1..Len(g.groups) |-> EIdsG(g.groups[i])])
RECURSIVE GIdsG(_)
GIdsG(g) == <<g.id>> \o FlattenSeq([i \in 1..Len(g.groups) |-> GIdsG(g.groups[i])])
AllE(s) == EIdsG(s.db.root) \o Ids(s.ce) \o FlattenSeq([i \in 1..Len(s.cg) |-> EIdsG(s.cg[i])])
AllG(s) == GIdsG(s.db.root) \o FlattenSeq([i \in 1..Len(s.cg) |-> GIdsG(s.cg[i])])

Moves == {"gRemoveE", "gRemoveG", "gPasteE", "gPasteG"}
Reads == {"gCounts", "gSearchE", "gSearchG", "gRecE", "gRecG", "eGet", "eFind", "hGet", "hLen",
          "hList", "obs"}

\* moving things around creates and loses nothing
Conservation ==
    op.op \in Moves => /\ BagOf(AllE(st)) = BagOf(AllE(pre))
                       /\ BagOf(AllG(st)) = BagOf(AllG(pre))

\* reading changes nothing
ReadOnly == op.op \in Reads => st = pre

\* a removal is undone by re-adding what was removed, up to position
RemoveReturns ==
    /\ (op.op = "gRemoveE" /\ ret # None) =>
          /\ ret[2].id = op.id
          /\ Last(st.ce) = ret[2]
          /\ Len(GetG(st.db.root, op.g).entries) = Len(GetG(pre.db.root, op.g).entries) - 1
    /\ (op.op = "gRemoveE" /\ ret = None) =>
          \A i \in 1..Len(GetG(pre.db.root, op.g).entries) :
             GetG(pre.db.root, op.g).entries[i].id # op.id
    /\ (op.op = "gRemoveG" /\ ret = None) => st = pre

\* a search finds something exactly if something matches, and what it finds matches
SearchSound ==
    /\ (op.op \in {"gSearchE", "gSearchEMut"} /\ op.p.t # "nth") =>
          LET es == AllEntries(GetG(pre.db.root, op.g)) IN
          /\ (ret = None) <=> \A i \in 1..Len(es) : ~EntryTest(es[i], op.p)
          /\ ret # None => EntryTest(ret[2], op.p) /\ \E i \in 1..Len(es) : es[i] = ret[2]
    /\ (op.op \in {"gSearchG", "gSearchGMut"} /\ op.p.t # "nth") =>
          LET gs == AllGroups(GetG(pre.db.root, op.g)) IN
          /\ (ret = None) <=> \A i \in 1..Len(gs) : ~GroupTest(gs[i], op.p)
          /\ ret # None => GroupTest(ret[2], op.p)

\* traversal yields as many items as the tree holds
TraversalComplete ==
    op.op = "gRecE" =>
        LET ids == EIdsG(GetG(pre.db.root, op.g))
        IN  Len(ids) = Len(AllEntries(GetG(pre.db.root, op.g)))

\* entry operations touch only the addressed entry
EntryFrame ==
    (op.op = "eAct") =>
        \A p \in {1, 2} : p # op.r.e => st.db.root.entries[p] = pre.db.root.entries[p]

\* protection is only switched off explicitly, and secrets are protected
ProtStable ==
    (op.op = "eAct" /\ op.a.t \in {"title", "username", "url", "password", "otp", "field", "fieldAt",
                                  "allFields", "add"}
       /\ ~(op.a.t \in {"field", "fieldAt", "allFields"} /\ op.a.a.t = "prot" /\ ~op.a.a.b)) =>
        LET a == GetE(pre.db.root, op.r).fields
            b == GetE(st.db.root, op.r).fields
        IN  /\ Len(b) >= Len(a)
            /\ \A i \in 1..Len(a) : a[i].p => b[i].p
            /\ op.a.t = "password" => \E i \in 1..Len(b) : b[i].k = KPass /\ b[i].p /\ b[i].v = op.a.v

\* recorded versions never change except by operations addressed to them
HistStable ==
    (op.op = "eAct" /\ op.a.t \notin {"hPush", "hRemove"} /\ op.r.h = <<>>) =>
        LET a == GetE(pre.db.root, op.r).hist
            b == GetE(st.db.root, op.r).hist
        IN  /\ SubSeq(b, 1, Len(a)) = a
            /\ op.a.t = "version" =>
                 /\ Len(b) = Len(a) + 1
                 /\ Last(b) = [GetE(pre.db.root, op.r) EXCEPT !.hist = <<>>]
                 /\ [GetE(st.db.root, op.r) EXCEPT !.hist = <<>>] = Last(b)
            /\ op.a.t # "version" => Len(b) = Len(a)

\* setter then getter
GetAfterSet ==
    (op.op = "eAct" /\ op.a.t = "title") => FieldVal(GetE(st.db.root, op.r), KTitle) = op.a.v

CanonIdempotent == Canon(Canon(st.db)) = Canon(st.db)
=============================================================================
