------------------------------ MODULE GenFile -------------------------------
(* Files built according to the format: from descriptions to terms. *)
EXTENDS KdbxFormat, Json, IOUtils

In == ndJsonDeserialize(IOEnv.IN)
One(r) == LET x == XmlTerm(r.d)
          IN  [id |-> r.id, xml |-> x,
               term |-> IF "alt" \in DOMAIN r THEN ForgedTerm(r.d, r.alt, x, r.mac) ELSE FileTerm(r.d, x)]
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..Len(In) |-> One(In[i])])

VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
