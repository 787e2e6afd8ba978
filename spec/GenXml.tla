------------------------------- MODULE GenXml -------------------------------
(* Documents from databases, styles and additions.                           *)
EXTENDS KdbxLayout, Json, IOUtils
In == ndJsonDeserialize(IOEnv.IN)
One(r) ==
    LET db == IF "db" \in DOMAIN r THEN r.db ELSE MidDb
    IN  [id |-> r.id, db |-> db, gen |-> Generator(r.style), slots |-> Slots(LayoutOf(db, r.style)), elements |-> Elements(LayoutOf(db, r.style)),
         xml |-> DocTerm(db, r.style, r.puts, r.attrs, r.pro, r.alg, r.key)]
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..Len(In) |-> One(In[i])])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
