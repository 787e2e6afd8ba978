------------------------------ MODULE GenCodes ------------------------------
(* Codes with a name, and all codes that differ from one in one digit; all   *)
(* bytes; names; dictionary types.                                           *)
EXTENDS KdbxCodes, Json, IOUtils, SequencesExt, Naturals
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexSet == {Hex[i] : i \in 1..16}
Near(c) == {SubSeq(c, 1, i - 1) \o h \o SubSeq(c, i + 1, Len(c)) : i \in 1..Len(c), h \in HexSet}
CodesOf(kind) == IF Digits(kind) = 2 THEN {a \o b : a \in HexSet, b \in HexSet}
                 ELSE UNION {Near(r[1]) : r \in Rows(Table(kind))}
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..Len(Kinds) |->
           [kind |-> Kinds[i], digits |-> Digits(Kinds[i]), codes |-> SetToSeq(CodesOf(Kinds[i])), names |-> SetToSeq(Names(Kinds[i]))]]
        \o << [kind |-> "dict", digits |-> 0, codes |-> DictTypes, names |-> <<>>] >>)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
