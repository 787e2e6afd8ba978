------------------------------- MODULE MCNew --------------------------------
(***************************************************************************)
(* A clock, a time zone and makers of items.  The right maker is always    *)
(* accepted.  The others (local time, the moment the program started, the  *)
(* next full minute, fractions, settings or content that are not new) are  *)
(* refused as soon as they differ from the right one.                      *)
(***************************************************************************)
EXTENDS NewScen, IOUtils
Depth == atoi(IOEnv.DEPTH)
Makers == {"right", "local", "frozen", "minute", "fraction", "expires", "same id", "weak", "keeps nothing", "stamps later"}
Zones == {-11, 0, 2}
Day == 739935
Tk(s) == TimeTok(Day, s)

VARIABLES w, n, clock, zone, maker, differs, ok, begin
vars == <<w, n, clock, zone, maker, differs, ok, begin>>
Init == /\ w = World0 /\ n = 0 /\ clock \in {43210} /\ zone \in Zones /\ maker \in Makers
        /\ differs = FALSE /\ ok = TRUE /\ begin = 43210

Stamp == CASE maker = "local" -> Tk(clock + 3600 * zone)
           [] maker = "frozen" -> Tk(begin)
           [] maker = "minute" -> Tk(((clock + 59) \div 60) * 60)
           [] maker = "fraction" -> Tk(clock) \o ".5"
           [] OTHER -> Tk(clock)
T(s) == [mod |-> s, cre |-> s, acc |-> s, exp |-> s, loc |-> s, expires |-> maker = "expires", usage |-> "0"]
NewId == IF maker = "same id" THEN "id" ELSE "id" \o ToString(n)
E == [id |-> NewId, fields |-> <<>>, times |-> T(Stamp), hist |-> <<>>]
G(name) == [id |-> NewId, name |-> name, times |-> T(Stamp), entries |-> <<>>, groups |-> <<>>]
D == [meta |-> NewMeta, root |-> G(RootName)]
Settings(db) ==
    [db |-> db, major |-> 4, raw |-> FALSE, inner |-> [alg |-> "03000000", other |-> 0],
     hdr |-> [cipher |-> Aes256, comp |-> "00000000", start |-> "none", other |-> 0,
              kdf |-> [uuid |-> Argon2d, p |-> << <<"x49", 5, IF maker = "weak" THEN "0900000000000000" ELSE "0a00000000000000">>,
                                                  <<"x4d", 5, "00fcff0300000000">>, <<"x50", 4, "02000000">>, <<"x56", 4, "13000000">> >>]]]
Empty(db) == [db EXCEPT !.root = [@ EXCEPT !.entries = <<>>]]
Later(v) == IF v = None THEN v ELSE Some([v[2] EXCEPT !.times = T(Tk(clock))])

Got(o) ==
    CASE o.op = "entry" -> E
      [] o.op = "group" -> G("x")
      [] o.op = "named" -> G(o.name)
      [] o.op = "db" -> D
      [] o.op = "archive" -> Settings(IF maker = "keeps nothing" THEN Empty(w.db[2]) ELSE w.db[2])
      [] o.op = "save" -> IF w.keyed THEN Canon(w.arch[2]) ELSE <<>>
      [] o.op = "look" -> IF maker = "stamps later" THEN [View(w) EXCEPT !.entry = Later(@)] ELSE View(w)
      [] OTHER -> <<>>
Rec(o) == IF ~There(w, o) THEN [ret |-> "skipped", lo |-> Tk(clock), hi |-> Tk(clock), got |-> <<>>]
          ELSE [ret |-> IF o.op = "save" /\ ~w.keyed THEN "err" ELSE "ok", lo |-> Tk(clock), hi |-> Tk(clock), got |-> Got(o)]
Makes(o) == o.op \in {"entry", "group", "named", "db"}
Differs(o) ==
    CASE maker = "local" -> Makes(o) /\ zone # 0
      [] maker = "frozen" -> Makes(o) /\ clock # begin
      [] maker = "minute" -> Makes(o) /\ (clock % 60) # 0
      [] maker \in {"fraction", "expires"} -> Makes(o)
      [] maker = "same id" -> Makes(o) /\ w.ids # {}
      [] maker = "weak" -> o.op = "archive" /\ w.db # None
      [] maker = "keeps nothing" -> o.op = "archive" /\ w.db # None /\ w.db[2].root.entries # <<>>
      [] maker = "stamps later" -> o.op = "look" /\ w.entry # None /\ w.entry[2].times # T(Tk(clock))
      [] OTHER -> FALSE

Next == /\ n < Depth
        /\ ok
        /\ n' = n + 1
        /\ \E i \in 1..Len(Ops) : \E r \in {Step(w, Ops[i], Rec(Ops[i]))} :
              /\ w' = r.w /\ ok' = r.ok
              /\ differs' = (differs \/ Differs(Ops[i]))
              /\ clock' = IF Ops[i].op = "tick" THEN clock + 1 ELSE clock
        /\ UNCHANGED <<zone, maker, begin>>
Decides == ok <=> ~differs
=============================================================================
