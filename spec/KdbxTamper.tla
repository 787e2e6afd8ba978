----------------------------- MODULE KdbxTamper -----------------------------
(***************************************************************************)
(* What someone without the credentials can make of a KDBX 4 file, and     *)
(* what a reader makes of that.  Cryptography is symbolic: a MAC fits      *)
(* exactly the block (or header) it was made for; the attacker can copy    *)
(* MACs and data that are in the file, change them into something else,    *)
(* compute plain hashes and MACs under keys everyone knows, but cannot     *)
(* make MACs under the file's key.                                         *)
(*                                                                         *)
(* The original file has data blocks 0..N-1 and the end block N (empty).   *)
(* A piece is <<m, d>>: the MAC of block m with the length and data of     *)
(* block d; a number -1-k stands for that of block k, changed.  m = N + j  *)
(* is a MAC made up for the data: all zeros, all ones, the plain hash of   *)
(* the data, a MAC of it under the empty key, the hash of nothing (j from  *)
(* 1 to MadeUp).  A file is                                                *)
(*   [hdr |-> "orig" or "alt", sha |-> does the hash fit the header,       *)
(*    mac |-> is the header's MAC the original one, blocks |-> pieces,     *)
(*    cut |-> is the last piece incomplete]                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Whole(k) == <<k, k>>
Original(N) == [hdr |-> "orig", sha |-> TRUE, mac |-> TRUE, blocks |-> [i \in 1..(N + 1) |-> Whole(i - 1)], cut |-> FALSE]

Nums(N) == (0 - N - 1)..N
MadeUp == 5
Pieces(N) == ((0 - N - 1)..(N + MadeUp)) \X Nums(N)

(* The reader checks the header hash when opening; everything else when    *)
(* unlocking.  Checks it omits can be switched off, to see that each of    *)
(* them is needed.                                                         *)
All == {"sha", "mac", "block", "index", "end"}
Opens(f, checks) == ("sha" \in checks) => f.sha

\* does a reader at position p (from 0) accept the piece as the block p?
Fits(x, p, checks) ==
    /\ ("block" \in checks) => (x[1] = x[2] /\ x[1] >= 0)
    /\ ("index" \in checks) => x[1] = p

\* an end block changed gets a byte of data, so it does not end the file
IsEnd(x, N) == x[2] = N

\* <<"err">> or <<"ok", data of the blocks>>
RECURSIVE Data(_, _, _, _, _)
Data(f, p, got, N, checks) ==
    IF p >= Len(f.blocks) THEN IF "end" \in checks THEN <<"err">> ELSE <<"ok", got>>
    ELSE LET x == f.blocks[p + 1]
             last == p + 1 = Len(f.blocks)
         IN  IF f.cut /\ last THEN <<"err">>
             ELSE IF ~Fits(x, p, checks) THEN <<"err">>
             ELSE IF IsEnd(x, N) THEN <<"ok", got>>
             ELSE Data(f, p + 1, Append(got, x[2]), N, checks)

\* what opening and unlocking with the right credentials shows
Shown(f, N, checks) ==
    IF ~Opens(f, checks) THEN <<"err">>
    ELSE IF "mac" \in checks /\ ~(f.mac /\ f.hdr = "orig") THEN <<"err">>
    ELSE LET d == Data(f, 0, <<>>, N, checks)
         IN  IF d[1] = "err" THEN d ELSE <<"ok", f.hdr, d[2]>>

Content(N) == <<"ok", "orig", [i \in 1..N |-> i - 1]>>
Safe(f, N, checks) == Shown(f, N, checks) \in {<<"err">>, Content(N)}

\* a header the hash does not fit is refused without credentials
Early(f, checks) == ~f.sha => ~Opens(f, checks)
=============================================================================
