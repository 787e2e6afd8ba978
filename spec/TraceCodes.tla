----------------------------- MODULE TraceCodes -----------------------------
(* Recorded conversions must be those of KdbxCodes: a code read and written  *)
(* again, a name written and read again, an unknown value written, a         *)
(* dictionary value converted to every type.                                 *)
EXTENDS KdbxCodes, Json, IOUtils, Naturals
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i
Init == c \in 1..Len(Cases) /\ i \in 1..Len(Cases[c].got)
Next == FALSE /\ UNCHANGED <<c, i>>
Pair(s) == <<s[1], s[2]>>
Good(kind, g) ==
    CASE g.t = "code" -> Pair(g.read) = Read(kind, g.x) /\ g.back = g.x
      [] g.t = "name" -> /\ g.back = Write(kind, <<g.x, "">>)
                         /\ Pair(g.read) = <<g.x, "">>
      [] g.t = "unknown" -> g.back = g.x
      [] g.t = "dict" -> \A k \in 1..Len(DictTypes) : Pair(g.to[k]) = Convert(g.from, g.x, DictTypes[k])
Conforms == Good(Cases[c].kind, Cases[c].got[i])
Alias == [case |-> Cases[c].id, step |-> i - 1, recorded |-> Cases[c].got[i]]
=============================================================================
