------------------------------ MODULE NewScen -------------------------------
(* Making and moving new items.                                              *)
EXTENDS KdbxNew
Op(x) == [op |-> x]
Ops == << Op("entry"), Op("group"), [op |-> "named", name |-> "x6e"], Op("db"), Op("putEntry"), Op("putGroup"), Op("fill"),
          Op("archive"), Op("key"), Op("save"), Op("look"), Op("tick") >>
=============================================================================
