------------------------------ MODULE KdbxTools -----------------------------
(***************************************************************************)
(* The command-line tools, run in a directory:                             *)
(*   kdbx-decrypt FILE [PASSWORD]   prints the XML document in the file    *)
(*   kdbx-parse FILE [PASSWORD]     prints the database as the library     *)
(*                                  represents it                          *)
(*   kdbx-dump-header FILE          prints the header, needs no password   *)
(*   kdbx-generate                  writes a sample database to            *)
(*                                  kdbx_rs.kdbx, password kdbxrs          *)
(* Without a password the tools try "kdbxrs".                              *)
(*                                                                         *)
(* A world is a directory: a function from names (text tokens) to          *)
(*   [t |-> "kdbx", dig, f |-> FileRec, known |-> BOOLEAN] with            *)
(*       known: header and XML are known (not so for generated files until *)
(*       they have been looked at)                                         *)
(*   [t |-> "junk", dig]    not a KDBX file                                *)
(*   [t |-> "dir", dig]                                                    *)
(* and the digests seen so far.  Step(w, o, ret) is as in KdbxArchive.     *)
(***************************************************************************)
EXTENDS KdbxArchive

DefaultPw == "x6b6462787273"                         \* kdbxrs
OutName == "x6b6462785f72732e6b646278"               \* kdbx_rs.kdbx
ReadTools == {"kdbx-decrypt", "kdbx-parse", "kdbx-dump-header"}

NoDir == [dir |-> <<>>, seen |-> {}]                 \* dir: set of pairs as a function
There(w, n) == n \in DOMAIN w.dir
Put(w, n, x) == [dir |-> [m \in DOMAIN w.dir \union {n} |-> IF m = n THEN x ELSE w.dir[m]],
                 seen |-> w.seen \union {x.dig}]

\* a directory listing as recorded
Listing(ret) == {<<ret.dir[i][1], ret.dir[i][2]>> : i \in 1..Len(ret.dir)}
Shown(w) == {<<n, w.dir[n].dig>> : n \in DOMAIN w.dir}
Unchanged(w, ret) == Listing(ret) = Shown(w)

---------------------------------------------------------------------------
(* The sample database *)
SampleTimes == [mod |-> "t0bdf15d60e000000", cre |-> "tcfde15d60e000000", acc |-> "t0b6c3dd60e000000",
                exp |-> "tcfde15d60e000000", loc |-> "tcfde15d60e000000", expires |-> FALSE, usage |-> "1"]
SampleDb ==
    [meta |-> [name |-> "x4261724e616d65", desc |-> "x42617a44657363", custom |-> <<>>,
               mp |-> <<FALSE, FALSE, FALSE, FALSE, FALSE>>],
     root |-> [id |-> "00000000000000000000000012345678", name |-> "x526f6f74", times |-> SampleTimes,
               entries |-> << [id |-> "00000000000000000000000000654321",
                               fields |-> << [k |-> KTitle, v |-> "x426172", p |-> FALSE],
                                             [k |-> KPass, v |-> DefaultPw, p |-> TRUE] >>,
                               times |-> SampleTimes, hist |-> <<>>] >>,
               groups |-> <<>>]]
PwCr(pw) == Norm([pw |-> pw, kf |-> "none"])

---------------------------------------------------------------------------
(* What a tool does with the file named by its first argument *)
Opens(w, n) == There(w, n) /\ w.dir[n].t = "kdbx"
PwOf(o) == IF Len(o.args) >= 2 THEN o.args[2] ELSE DefaultPw
Unlocks(w, o) == /\ Opens(w, o.args[1])
                 /\ LET x == w.dir[o.args[1]] IN (~x.known \/ CanUnlock(x.f)) /\ x.f.cr = PwCr(PwOf(o))

\* the header as printed; parameters of unknown key derivations are not compared
PrintedOK(f, h) ==
    /\ <<h.ver[1], h.ver[2]>> = f.ver /\ Len(h.ver) = 2
    /\ h.cipher = f.hdr.cipher /\ h.comp = f.hdr.comp /\ h.seed = f.hdr.seed /\ h.iv = f.hdr.iv
    /\ h.kdf.uuid = f.hdr.kdf.uuid
    /\ (h.kdf.uuid \in {KdfAes4, KdfArgon2d, KdfArgon2id} =>
            {<<h.kdf.p[i][1], h.kdf.p[i][2], h.kdf.p[i][3]>> : i \in 1..Len(h.kdf.p)} = f.hdr.kdf.p)
    /\ h.others = f.others

Refused(ret) == ret.end = "err" /\ ret.out = 0 /\ ret.msg > 0

RunRead(w, o, ret) ==
    IF o.args = <<>> THEN Res(w, Unchanged(w, ret) /\ ret.end \in {"ok", "err"} /\ ret.usage)
    ELSE
    LET n == o.args[1]
        able == IF o.tool = "kdbx-dump-header" THEN Opens(w, n) ELSE Unlocks(w, o)
    IN  IF ~able THEN Res(w, Unchanged(w, ret) /\ Refused(ret))
        ELSE IF ret.end # "ok" THEN Res(w, FALSE)
        ELSE LET x == w.dir[n] IN
             CASE o.tool = "kdbx-decrypt" ->
                    \* the first look at a generated file tells its XML
                    Res(IF x.f.raw = "unknown" THEN [w EXCEPT !.dir = [@ EXCEPT ![n] = [x EXCEPT !.f = [@ EXCEPT !.raw = ret.body]]]]
                        ELSE w,
                        Unchanged(w, ret) /\ (RawOK(x.f.raw, ret.body) \/ RawOK(x.f.raw, ret.whole)))
               [] o.tool = "kdbx-parse" ->
                    Res(w, Unchanged(w, ret) /\ ret.lib \in {ret.body, ret.whole} /\ ret.absent = 0)
               [] o.tool = "kdbx-dump-header" ->
                    Res(w, Unchanged(w, ret) /\ (x.known => PrintedOK(x.f, ret.hdr)))

\* a new file in place of whatever was there
NewFile(dig) ==
    [t |-> "kdbx", dig |-> dig, known |-> FALSE,
     f |-> [ver |-> <<4, 0>>, db |-> Canon(SampleDb), cr |-> PwCr(DefaultPw), raw |-> "unknown"]]
RunGenerate(w, ret) ==
    IF There(w, OutName) /\ w.dir[OutName].t = "dir"
    THEN Res(w, Unchanged(w, ret) /\ ret.end # "ok")
    ELSE LET l == {p \in Listing(ret) : p[1] = OutName}
         IN  IF ret.end # "ok" \/ Cardinality(l) # 1 THEN Res(w, FALSE)
             ELSE LET dig == (CHOOSE p \in l : TRUE)[2]
                      w2 == Put(w, OutName, NewFile(dig))
                  IN  Res(w2, Listing(ret) = Shown(w2) /\ dig \notin w.seen)

\* reading a generated file through the library
Look(w, o, ret) ==
    IF ~There(w, o.f) \/ w.dir[o.f].t # "kdbx" THEN Res(w, ret.end # "ok")
    ELSE LET x == w.dir[o.f] IN
         IF x.f.cr # Norm(o) THEN Res(w, ret.end = "not unlocked")
         ELSE IF ret.end # "ok" THEN Res(w, x.known /\ ~CanUnlock(x.f))
         ELSE IF x.known THEN Res(w, Canon(ret.obs.db) = x.f.db /\ RawOK(x.f.raw, ret.obs.raw))
         ELSE LET h == HdrOf(ret.obs.hdr)
                  f == [ver |-> <<4, 0>>, hdr |-> h, others |-> <<>>, inner |-> ret.obs.inner, db |-> x.f.db,
                        cr |-> x.f.cr, raw |-> ret.obs.raw]
              IN  Res([w EXCEPT !.dir = [@ EXCEPT ![o.f] = [x EXCEPT !.f = f, !.known = TRUE]]],
                      /\ Canon(ret.obs.db) = x.f.db
                      /\ ret.exact       \* nothing but what the format prescribes
                      /\ RawOK(x.f.raw, ret.obs.raw)
                      /\ <<ret.obs.ver[1], ret.obs.ver[2]>> = <<4, 0>>
                      /\ h.other = 0 /\ HdrOK(h) /\ InnerOK(ret.obs.inner.alg))

ToolStep(w, o, ret) ==
    CASE o.op = "put" -> Res(Put(w, o.f, [t |-> "kdbx", dig |-> ret.dig, known |-> TRUE, f |-> FileRec(o.d, ret.raw, 0)]), TRUE)
      [] o.op = "junk" -> Res(Put(w, o.f, [t |-> "junk", dig |-> ret.dig]), TRUE)
      [] o.op = "mkdir" -> Res(Put(w, o.f, [t |-> "dir", dig |-> "dir"]), TRUE)
      [] o.op = "look" -> Look(w, o, ret)
      [] o.op = "run" -> IF o.tool = "kdbx-generate" THEN RunGenerate(w, ret) ELSE RunRead(w, o, ret)
=============================================================================
