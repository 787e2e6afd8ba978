----------------------------- MODULE GenErrors ------------------------------
(* Files with faults.                                                        *)
EXTENDS KdbxForge, KdbxLayout, Json, IOUtils, FiniteSets
In == ndJsonDeserialize(IOEnv.IN)

Drop(fs, id) == SelectSeq(fs, LAMBDA f : f.id # id)
SetField(fs, id, data) == [i \in 1..Len(fs) |-> IF fs[i].id = id THEN [fs[i] EXCEPT !.data = data] ELSE fs[i]]
DropParam(vd, n) == SelectSeq(vd, LAMBDA e : e[2] # n)
PutParam(vd, n, data) == [i \in 1..Len(vd) |-> IF vd[i][2] = n THEN <<vd[i][1], n, data>> ELSE vd[i]]

\* the header and inner header that say something else
Other(A, a) ==
    CASE a.f = "missing" -> [A EXCEPT !.fields = Drop(@, a.id)]
      [] a.f \in {"size", "cipher", "iv", "compression"} -> [A EXCEPT !.fields = SetField(@, a.id, a.h)]
      [] a.f = "kdf param" /\ A.v = 3 -> [A EXCEPT !.fields = SetField(@, a.id, a.h)]
      [] a.f \in {"kdf", "kdf param"} -> [A EXCEPT !.vdict = PutParam(@, a.n, a.h)]
      [] a.f = "param" -> [A EXCEPT !.vdict = DropParam(@, a.n)]
      [] a.f = "inner missing" -> [A EXCEPT !.inner = Drop(@, a.id)]
      [] a.f = "stream" -> IF A.v = 4 THEN [A EXCEPT !.inner = SetField(@, 1, a.h)] ELSE [A EXCEPT !.fields = SetField(@, 10, a.h)]
      [] OTHER -> A

\* the document with a text nothing can be read from
FirstOf(doc, name, inside) ==
    LET ps == {p \in NodePaths(doc) : /\ NodeAt(doc, p).t = "el" /\ NodeAt(doc, p).n = name
                                      /\ inside = "" \/ \E k \in 1..Len(NodeAt(doc, p).c) : NodeAt(doc, p).c[k].t = inside}
    IN  IF ps = {} THEN <<>> ELSE CHOOSE p \in ps : TRUE
Spoilt(doc, a) ==
    LET p == FirstOf(doc, a.el, a.in)
    IN  IF p = <<>> THEN doc ELSE PutAt(doc, p, <<[NodeAt(doc, p) EXCEPT !.c = <<Text(a.h)>>]>>)
Documents(D, faults) ==
    LET iv == InnerView(D)
        bad == SelectSeq(faults, LAMBDA a : a.f = "xml" /\ a.x # "syntax")
        doc == FoldLeft(LAMBDA d, a : Spoilt(d, a), LayoutOf(D.db, D.style), bad)
    IN  TXml([t |-> "seq", c |-> <<Raw(XmlDecl), Encrypted(doc, AlgName(iv.alg), iv.key)>>])

One(r) == [id |-> r.id, term |-> ForgeTerm(r.d, FoldLeft(Other, r.d, r.faults), Documents(r.d, r.faults))]
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..Len(In) |-> One(In[i])])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
