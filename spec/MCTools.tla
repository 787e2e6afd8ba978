------------------------------ MODULE MCTools -------------------------------
(***************************************************************************)
(* The specification of the tools, checked on its own: all sequences of    *)
(* runs in all small directories.  What is promised to users is stated     *)
(* over what was put into the directory, independently of ToolStep.        *)
(***************************************************************************)
EXTENDS ToolScen, IOUtils

MaxDepth == atoi(IOEnv.DEPTH)
Ops == Reads \o Generate \o << LookOp(OutName, CrDefault), LookOp(OutName, CrSecret) >>

\* results an operation could conceivably have
ListSeq(w) == SetToSeq({<<n, w.dir[n].dig>> : n \in DOMAIN w.dir})
Basic(end, out, msg, body, dir) == [end |-> end, out |-> out, msg |-> msg, body |-> body, whole |-> "*" \o body, dir |-> dir, usage |-> FALSE]
Printed(f) == [ver |-> f.ver, cipher |-> f.hdr.cipher, comp |-> f.hdr.comp, seed |-> f.hdr.seed, iv |-> f.hdr.iv,
               kdf |-> [uuid |-> f.hdr.kdf.uuid, p |-> SetToSeq(f.hdr.kdf.p)], others |-> f.others]
SomeHdr == HdrView(FileD4)
LookObs(db, raw) == [ver |-> <<4, 0>>, hdr |-> [SomeHdr EXCEPT !.other = 0, !.start = "none", !.kdf = [uuid |-> @.uuid, p |-> SetToSeq(@.p)]],
                inner |-> [alg |-> "03000000", key |-> "00", other |-> 0], db |-> db, raw |-> raw]
Bodies == {"raw" \o ToString(i) : i \in 1..Len(Descs)} \union {"rawG", "other"}
Dirs(w) == {ListSeq(w), Append(ListSeq(w), <<"xff", "new">>)}
Conceivable(w, o, n) ==
    IF o.op = "look" THEN {[end |-> e] : e \in {"not opened", "not unlocked", "no file"}}
                          \union {[end |-> "ok", obs |-> LookObs(db, b), exact |-> TRUE] : db \in {SampleDb, SmallDb}, b \in Bodies}
    ELSE IF o.tool = "kdbx-generate"
    THEN LET w2 == Put(w, OutName, NewFile("gen" \o ToString(n)))
         IN  {Basic("ok", 0, 0, "", d) : d \in {ListSeq(w2), ListSeq(w)}} \union {Basic("panic", 0, 9, "", ListSeq(w))}
    ELSE LET bad == {Basic(e, 0, 9, "", d) : e \in {"err", "panic"}, d \in Dirs(w)}
             usage == {[Basic("err", 9, 0, "", ListSeq(w)) EXCEPT !.usage = TRUE]}
         IN  bad \union usage \union
             (IF o.tool = "kdbx-decrypt" THEN {Basic("ok", 99, 0, b, d) : b \in Bodies, d \in Dirs(w)}
              ELSE IF o.tool = "kdbx-parse"
              THEN {[end |-> "ok", out |-> 99, msg |-> 0, body |-> b, whole |-> "*", dir |-> d, usage |-> FALSE, lib |-> "lib", absent |-> a] :
                       b \in {"lib", "other"}, d \in Dirs(w), a \in {0, 1}}
              ELSE {[end |-> "ok", out |-> 99, msg |-> 0, body |-> "h", whole |-> "*", dir |-> d, usage |-> FALSE, hdr |-> h] :
                       d \in Dirs(w),
                       h \in UNION {{Printed(w.dir[x].f), [Printed(w.dir[x].f) EXCEPT !.seed = @ \o "00"]} :
                                       x \in {y \in DOMAIN w.dir : w.dir[y].t = "kdbx" /\ w.dir[y].known}}
                                   \union {Printed([ver |-> <<4, 0>>, hdr |-> SomeHdr, others |-> <<>>])}})

VARIABLES w, pre, op, ret, depth,
          put           \* name -> credentials and origin of the file put or generated there
RunStart(s) == FoldLeft(LAMBDA x, o : ToolStep(x, o, IF o.op = "put" THEN [dig |-> "put" \o ToString(o.n), raw |-> "raw" \o ToString(o.n)]
                                                     ELSE [dig |-> "junk"]).w, NoDir, s)
Origin(s) == [n \in {s[i].f : i \in 1..Len(s)} |->
                 LET o == s[CHOOSE i \in 1..Len(s) : s[i].f = n /\ \A j \in (i + 1)..Len(s) : s[j].f # n]
                 IN  IF o.op = "put" THEN <<"file", Norm(o.d.cr), o.n, "raw" \o ToString(o.n)>> ELSE <<"other">>]

Init == /\ \E i \in 1..Len(Starts) : w = RunStart(Starts[i]) /\ put = Origin(Starts[i])
        /\ pre = NoDir /\ op = [op |-> "none"] /\ ret = [end |-> "none"] /\ depth = 0
Next == /\ depth < MaxDepth
        /\ \E k \in 1..Len(Ops) : \E r \in Conceivable(w, Ops[k], depth) :
             LET s == ToolStep(w, Ops[k], r)
             IN  /\ s.ok
                 /\ w' = s.w /\ pre' = w /\ op' = Ops[k] /\ ret' = r /\ depth' = depth + 1
                 /\ put' = IF op'.op = "run" /\ op'.tool = "kdbx-generate" /\ r.end = "ok"
                           THEN [n \in DOMAIN put \union {OutName} |-> IF n = OutName THEN <<"generated">> ELSE put[n]]
                           ELSE put

---------------------------------------------------------------------------
IsRun(t) == op.op = "run" /\ op.tool \in t
\* only kdbx-generate writes, and only its file
OnlyOutputWritten ==
    op.op = "run" => \A n \in (DOMAIN w.dir \union DOMAIN pre.dir) :
        \/ n \in DOMAIN w.dir /\ n \in DOMAIN pre.dir /\ w.dir[n].dig = pre.dir[n].dig
        \/ op.tool = "kdbx-generate" /\ n = OutName
\* contents are printed only to those who have the password, and then exactly
NothingForStrangers ==
    (IsRun({"kdbx-decrypt", "kdbx-parse"}) /\ ret.end = "ok" /\ op.args # <<>>) =>
        LET pw == IF Len(op.args) = 1 THEN DefaultPw ELSE op.args[2]
            p == put[op.args[1]]
        IN  \/ p[1] = "file" /\ p[2] = PwCr(pw) /\ p[3] # 7 /\ (op.tool = "kdbx-decrypt" => ret.body = p[4])
            \/ p[1] = "generated" /\ pw = DefaultPw
\* whoever has the password gets them
AlwaysForOwners ==
    (IsRun({"kdbx-decrypt", "kdbx-parse"}) /\ op.args # <<>> /\ op.args[1] \in DOMAIN put) =>
        LET pw == IF Len(op.args) = 1 THEN DefaultPw ELSE op.args[2]
            p == put[op.args[1]]
        IN  (\/ p[1] = "file" /\ p[2] = PwCr(pw) /\ p[3] # 7
             \/ p[1] = "generated" /\ pw = DefaultPw) => ret.end = "ok"
NeverPanics == IsRun(ReadTools) => ret.end \in {"ok", "err"}
\* one outcome for every operation
Determinate == \A k \in 1..Len(Ops) :
    Cardinality({r.end : r \in {x \in Conceivable(w, Ops[k], depth) : ToolStep(w, Ops[k], x).ok}}) = 1
        \/ (Ops[k].op = "look" /\ OutName \notin {n \in DOMAIN put : put[n][1] # "other"})
=============================================================================
