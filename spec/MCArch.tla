-------------------------------- MODULE MCArch ------------------------------
(***************************************************************************)
(* The specification of archives, checked on its own: every world that can *)
(* be reached from a scenario's start in MaxDepth operations, with every   *)
(* result the specification allows.  What is promised about saving and     *)
(* unlocking is stated over history variables, independently of Step.      *)
(***************************************************************************)
EXTENDS ArchScen, IOUtils

S == Scen(IOEnv.SCEN)
MaxDepth == atoi(IOEnv.DEPTH)

---------------------------------------------------------------------------
(* Results an operation could conceivably have; Step says which it may.    *)
Recorded(h) == [h EXCEPT !.kdf = [uuid |-> @.uuid, p |-> SetToSeq(@.p)]]
NewObs(db) ==
    [st |-> "unlocked", ver |-> <<4, 0>>,
     hdr |-> [cipher |-> CipherAes, comp |-> "00000000", seed |-> S32("01"), iv |-> Iv16, kdf |-> Kdf2,
              other |-> 0, start |-> "none"],
     inner |-> [alg |-> "03000000", key |-> S32("02"), other |-> 0], db |-> db, raw |-> "none"]
LockedObs(f, hdr) == [st |-> "locked", ver |-> f.ver, hdr |-> Recorded(hdr)]
UnlockedObs(f, hdr) == [st |-> "unlocked", ver |-> f.ver, hdr |-> Recorded(hdr), inner |-> f.inner, db |-> f.db,
                        raw |-> "a0000000001:00"]
Whole(f) == IF f.t = "damaged" THEN f.of ELSE f

Errs(kinds, last) == {<<"err", k, last>> : k \in kinds}
Cands(w, o) ==
    {<<"skipped">>} \union
    CASE o.op = "new" -> {<<"ok", NewObs(o.db)>>}
      [] o.op \in {"hdr", "inner", "edit"} -> {<<"ok">>}
      [] o.op = "key" -> {<<"ok">>, <<"err", "keygen">>}
      [] o.op = "save" -> {<<"ok", FALSE>>, <<"ok", TRUE>>} \union Errs({"io"}, FALSE) \union Errs({"io"}, TRUE)
      [] o.op = "open" ->
            LET f == Whole(w.file[o.f])
            IN  Errs({"io", "checksum"}, FALSE)
                \union (IF f.t = "kdbx" THEN {<<"ok", LockedObs(f, f.hdr), FALSE>>} ELSE {})
      [] o.op = "unlock" ->
            LET a == w.arch[o.a]
            IN  IF a.st # "locked" THEN {}
                ELSE LET f == Whole(a.file)
                     IN  {<<"err", k, LockedObs([ver |-> <<4, 0>>], a.hdr)>> : k \in {"hmac", "keygen", "decrypt"}}
                         \union (IF f.t = "kdbx" THEN {<<"ok", UnlockedObs(f, a.hdr)>>} ELSE {})

---------------------------------------------------------------------------
VARIABLES w, op, ret, pre,
          inForce,      \* archive -> credentials that were last set or used successfully
          saved,        \* file -> what was saved there last (history of the saves)
          depth
vars == <<w, op, ret, pre, inForce, saved, depth>>

Start == LET f == IF S.d = <<>> THEN World0
                  ELSE SetF(World0, "f", FileRec(S.d[1], "unknown", 1))
         IN  f
RECURSIVE RunAll(_, _)
RunAll(x, os) ==
    IF os = <<>> THEN x
    ELSE LET good == {r \in Cands(x, os[1]) : r[1] = "ok" /\ Step(x, os[1], r).ok}
         IN  RunAll(Step(x, os[1], CHOOSE r \in good : TRUE).w, Tail(os))

\* the credentials the prologue sets
ProKey == LET ks == SelectSeq(S.pro, LAMBDA o : o.op = "key")
          IN  IF ks = <<>> THEN NoKey ELSE Norm(ks[Len(ks)])

Init == /\ w = RunAll(Start, S.pro)
        /\ op = [op |-> "none"] /\ ret = <<"skipped">> /\ pre = Start
        /\ inForce = [x \in ArchNames |-> IF x = "a" THEN ProKey ELSE NoKey]
        /\ saved = [x \in FileNames |-> <<>>]
        /\ depth = 0

Next ==
    /\ depth < MaxDepth
    /\ \E k \in 1..Len(S.ops) : \E r \in Cands(w, S.ops[k]) :
         LET o == S.ops[k]
             s == Step(w, o, r)
         IN  /\ s.ok
             /\ r[1] # "skipped"
             /\ w' = [s.w EXCEPT !.n = 0]
             /\ op' = o /\ ret' = r /\ pre' = w
             /\ depth' = depth + 1
             /\ inForce' = IF o.op \in {"key", "unlock"} /\ r[1] = "ok"
                           THEN [inForce EXCEPT ![o.a] = Norm(o)] ELSE inForce
             /\ saved' = IF o.op # "save" THEN saved
                         ELSE IF r[1] = "ok" /\ w.arch[o.a].st = "unlocked"
                         THEN [saved EXCEPT ![o.f] = <<[key |-> inForce[o.a], db |-> Canon(w.arch[o.a].db),
                                                        hdr |-> w.arch[o.a].hdr]>>]
                         ELSE [saved EXCEPT ![o.f] = <<>>]

---------------------------------------------------------------------------
(* C02: a file from a successful save opens, shows the settings and unlocks *)
(* with the key in force, and only with that, to the content at that time. *)
Unlocks(x, f, cr) ==
    LET o1 == Step(x, Open("c", f), <<"ok", LockedObs(x.file[f], x.file[f].hdr), FALSE>>)
        u == CrOp("unlock", "c", cr)
        o2 == Step(o1.w, u, <<"ok", UnlockedObs(x.file[f], x.file[f].hdr)>>)
        e2 == Step(o1.w, u, <<"err", "hmac", LockedObs(x.file[f], x.file[f].hdr)>>)
    IN  IF o1.ok THEN [ok |-> o2.ok, err |-> e2.ok] ELSE [ok |-> FALSE, err |-> FALSE]
SavedFilesOpen ==
    \A f \in FileNames : saved[f] # <<>> =>
        LET g == w.file[f] IN
        /\ g.t = "kdbx" /\ g.cr = saved[f][1].key /\ g.db = saved[f][1].db
        /\ g.hdr.kdf = saved[f][1].hdr.kdf /\ g.hdr.cipher = saved[f][1].hdr.cipher
        /\ \A cr \in {Cr1, Cr2} :
              LET u == Unlocks(w, f, cr)
              IN  /\ u.ok <=> Norm(cr) = saved[f][1].key
                  /\ u.err <=> Norm(cr) # saved[f][1].key

(* C02/C03: failures change nothing but the file they were writing *)
FailuresKeepState ==
    (ret[1] = "err" /\ op.op # "open") =>
        /\ w.arch = pre.arch
        /\ op.op # "save" => w.file = pre.file

(* C03: only the right credentials *)
OnlyRightKey ==
    (op.op = "unlock" /\ ret[1] = "ok") => Norm(op) = Whole(pre.arch[op.a].file).cr

(* C17: a locked archive is copied, or the write is refused *)
LockedCopies ==
    (op.op = "save" /\ pre.arch[op.a].st = "locked" /\ ret[1] = "ok") => w.file[op.f] = pre.arch[op.a].file

(* C22, C07: what cannot be saved is refused *)
BadRefused ==
    (op.op = "save" /\ ret[1] = "ok" /\ pre.arch[op.a].st = "unlocked") =>
        LET a == pre.arch[op.a] IN a.ver[1] = 4 /\ inForce[op.a] # NoKey /\ HdrOK(a.hdr) /\ Storable(a.db)

(* Every operation has an allowed result, and without I/O trouble only one *)
(* (of success and failure).                                               *)
OddOps ==
    {k \in 1..Len(S.ops) :
        LET o == S.ops[k]
            good == {r \in Cands(w, o) : Step(w, o, r).ok}
            clean == {r \in good : ~(r[1] = "err" /\ o.op = "save" /\ r[3] = TRUE)}
            outs == {r[1] : r \in clean}
            \* unlocking with settings changed since opening may fail or not
            free == o.op = "unlock" /\ w.arch[o.a].st = "locked"
                    /\ (Changed(w.arch[o.a]) \/ w.arch[o.a].file.t # "kdbx")
            \* setting a key may be refused if it cannot be derived
            free2 == o.op = "key" /\ w.arch[o.a].st = "unlocked" /\ ~KdfOK(w.arch[o.a].hdr.kdf)
            free3 == o.op = "open" /\ w.file[o.f].t \in {"damaged", "junk"}
        IN  good = {} \/ (Cardinality(outs) # 1 /\ ~free /\ ~free2 /\ ~free3)}
Determinate == OddOps = {}
Alias == [op |-> op, ret |-> ret, odd |-> {<<k, S.ops[k], {r \in Cands(w, S.ops[k]) : Step(w, S.ops[k], r).ok}>> : k \in OddOps}, w |-> w]
=============================================================================
