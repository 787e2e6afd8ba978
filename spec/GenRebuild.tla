----------------------------- MODULE GenRebuild -----------------------------
(* Saved files, taken apart by an independent reader, put together again:  *)
(* the term must be the saved file.                                        *)
EXTENDS KdbxFormat, Json, IOUtils

In == ndJsonDeserialize(IOEnv.IN)
One(r) ==
    LET D == [v |-> 4, minor |-> r.d.minor, fields |-> r.d.fields, vdver |-> r.d.vdver, vdrest |-> r.d.vdrest,
              vdict |-> r.d.vdict, sizes |-> IF r.d.sizes = <<>> THEN <<1>> ELSE r.d.sizes, inner |-> r.d.inner,
              gz |-> IF r.d.gz THEN "atom" ELSE "none", cr |-> r.cr]
    IN  [id |-> r.id, term |-> FileTerm(D, TAtom("xml")),
         eqs |-> IF r.d.gz THEN << <<"compressed data", TGunzip(TAtom("gz")), PayloadTerm(D, TAtom("xml"))>> >>
                 ELSE <<>>]
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..Len(In) |-> One(In[i])])

VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
