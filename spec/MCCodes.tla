------------------------------ MODULE MCCodes -------------------------------
(***************************************************************************)
(* Codes go through a library with a table: read, written, read again.     *)
(* With the table of the specification nothing is lost and no two codes    *)
(* are the same name.  A library whose table differs in one row (two names *)
(* exchanged, a row missing, a name with another's code) gives itself away *)
(* by a reading or a writing.                                              *)
(***************************************************************************)
EXTENDS KdbxCodes, Naturals
Swap(t, i, j) == [k \in 1..Len(t) |-> IF k = i THEN <<t[i][1], t[j][2]>> ELSE IF k = j THEN <<t[j][1], t[i][2]>> ELSE t[k]]
Drop(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Tables(kind) ==
    LET t == Table(kind)
    IN  {<<"right", t>>} \union {<<"wrong", Swap(t, p[1], p[2])>> : p \in {q \in (1..Len(t)) \X (1..Len(t)) : q[1] < q[2]}}
        \union {<<"wrong", Drop(t, i)>> : i \in 1..Len(t)}
Zeros(kind) == CASE Digits(kind) = 2 -> "fe" [] Digits(kind) = 8 -> "00ff0000" [] OTHER -> "00000000000000000000000000000000"
Codes(kind) == {r[1] : r \in Rows(Table(kind))} \union {Zeros(kind)}

VARIABLES kind, lib, code, seen, refused
vars == <<kind, lib, code, seen, refused>>
Init == /\ kind \in KindSet /\ lib \in Tables(kind) /\ code \in Codes(kind) /\ seen = <<>> /\ refused = {}
\* the library reads the code, then writes what it read
ReadIt == /\ seen = <<>>
          /\ seen' = ReadIn(lib[2], code)
          /\ refused' = IF seen' = Read(kind, code) THEN refused ELSE refused \union {code}
          /\ UNCHANGED <<kind, lib, code>>
WriteIt == /\ seen # <<>>
           /\ LET c == WriteIn(lib[2], seen)
              IN  /\ refused' = IF c = code THEN refused ELSE refused \union {code}
                  /\ code' = c
           /\ seen' = <<>>
           /\ UNCHANGED <<kind, lib>>
\* another code
Another == /\ seen = <<>>
           /\ code' \in Codes(kind)
           /\ UNCHANGED <<kind, lib, seen, refused>>
Next == ReadIt \/ WriteIt \/ Another
Lossless == lib[1] = "right" => refused = {}
OneName == \A a, b \in Codes(kind) : (Read(kind, a) = Read(kind, b)) => a = b
\* what a wrong table reads wrong is refused when it is read, and every wrong table reads something wrong
FoundOut == lib[1] = "wrong" => /\ \E c \in Codes(kind) : ReadIn(lib[2], c) # Read(kind, c)
                                /\ \A c \in refused : ReadIn(lib[2], c) # Read(kind, c) \/ WriteIn(lib[2], ReadIn(lib[2], c)) # c
=============================================================================
