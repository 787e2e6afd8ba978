----------------------------- MODULE ExportScen -----------------------------
(* Small documents and operations on them.                                   *)
EXTENDS KdbxExport, DbScen

\* protected values in custom data, entries, history and below
ProtDb == [MkDb(Gr(0, "x72", << HistEntry >>, << Gr(1, TA, << En(3, <<F(KPass, TC, TRUE), F(KX, "none", TRUE)>>) >>, <<>>) >>))
           EXCEPT !.meta.custom = << F(KX, TA, TRUE), F("x64", "x", TRUE) >>]
ClearDb == MkDb(Gr(0, "x526f6f74", << En(1, <<F(KTitle, TA, FALSE)>>) >>, <<>>))
BadDb == MkDb(Gr(0, "x72", << En(1, <<F(KPass, TB, TRUE), F("x", TA, FALSE)>>) >>, <<>>))

K1 == "0102030405"
K2 == "a0"
St(s, alg, key) == [op |-> "stream", s |-> s, alg |-> alg, key |-> key]
Wr(s, d, db) == [op |-> "write", s |-> s, d |-> d, db |-> db, sink |-> [chunks |-> <<>>]]
Rd(s, d) == [op |-> "read", s |-> s, d |-> d, src |-> [chunks |-> <<>>]]

Ops == << Wr("s", "d", ProtDb), Wr("s", "e", ProtDb), Wr("s", "e", ClearDb), Wr("s", "d", BadDb), Wr("t", "e", ProtDb),
          Rd("t", "d"), Rd("t", "e"), Rd("s", "d"), Rd("s", "e"),
          St("s", "chacha20", K1), St("t", "chacha20", K1), St("t", "salsa20", K1), St("t", "null", ""), St("s", "null", ""),
          St("t", "chacha20", K2), St("t", "arcfour", K1) >>
=============================================================================
