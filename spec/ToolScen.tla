------------------------------ MODULE ToolScen ------------------------------
(* Small directories and the runs of tools enumerated over them. *)
EXTENDS KdbxTools, ArchScen

NameX == "xc3a42062"                                 \* a name with a space and a letter outside ASCII
Missing == "x6d697373696e67"
Secret == "x736563726574"
CrDefault == [pw |-> DefaultPw, kf |-> "none"]
CrSecret == [pw |-> Secret, kf |-> "none"]
CrEmpty == [pw |-> "x", kf |-> "none"]

\* files of all kinds
D(d, cr) == [d EXCEPT !.cr = cr]
NoCipher(d) == [d EXCEPT !.fields = [i \in 1..Len(@) |-> IF @[i].id = 2 THEN [id |-> 2, data |-> S16("99")] ELSE @[i]]]
Descs == << D(FileD4, CrDefault), D(FileD4, CrSecret), D(FileD4, [pw |-> DefaultPw, kf |-> "0102"]), D(FileD4, CrEmpty),
            D(FileD3, CrDefault), D(FileD3, CrSecret), NoCipher(D(FileD4, CrDefault)) >>

Setup == [i \in 1..Len(Descs) |-> [op |-> "put", d |-> Descs[i], n |-> i]]
\* n: number of the description whose file is put
PutOp(i, f) == [op |-> "put", n |-> i, d |-> Descs[i], f |-> f]
JunkOp(h, f) == [op |-> "junk", hex |-> h, f |-> f]
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE s \o Times(s, n - 1)
Starts == << <<>> >>
          \o [i \in 1..Len(Descs) |-> << PutOp(i, NameX) >>]
          \o << << PutOp(1, OutName) >>, << PutOp(2, OutName) >>, << PutOp(2, NameX), PutOp(1, OutName) >>,
                << JunkOp("", NameX) >>, << JunkOp(Magic \o "01000400", OutName) >>, << JunkOp("ff00", OutName) >>,
                << JunkOp(Times(S32("5a"), 200), OutName) >>,
                << [op |-> "mkdir", f |-> OutName] >>, << [op |-> "mkdir", f |-> NameX] >> >>

Run(tool, args) == [op |-> "run", tool |-> tool, args |-> args]
PwArgs == << <<>>, <<DefaultPw>>, <<Secret>>, <<"x">>, <<DefaultPw, "x65787472">> >>
Names == << NameX, OutName, Missing >>
Reads == FlattenSeq([t \in 1..2 |->
             FlattenSeq([n \in 1..3 |->
                 [p \in 1..Len(PwArgs) |-> Run(<<"kdbx-decrypt", "kdbx-parse">>[t], <<Names[n]>> \o PwArgs[p])]])])
         \o [n \in 1..3 |-> Run("kdbx-dump-header", <<Names[n]>>)]
         \o << Run("kdbx-dump-header", <<NameX, Secret>>), Run("kdbx-decrypt", <<>>), Run("kdbx-parse", <<>>),
               Run("kdbx-dump-header", <<>>) >>
Generate == << Run("kdbx-generate", <<>>), Run("kdbx-generate", <<NameX>>) >>
LookOp(f, cr) == [op |-> "look", f |-> f, pw |-> cr.pw, kf |-> cr.kf]
=============================================================================
