------------------------------ MODULE GenTools ------------------------------
(* Scripts of the tools: every start followed by every run, runs around a  *)
(* generation, and files that get replaced.                                *)
EXTENDS ToolScen, IOUtils, Json

\* all single runs in every directory; those that write are followed by all reads of the result
Single == FlattenSeq([i \in 1..Len(Starts) |-> << Starts[i] \o Reads >>])
Around == FlattenSeq([i \in 1..Len(Starts) |->
              << Starts[i] \o << Generate[1], LookOp(OutName, CrSecret), LookOp(OutName, CrDefault) >>
                           \o << Run("kdbx-decrypt", <<OutName>>), Run("kdbx-parse", <<OutName, DefaultPw>>),
                                 Run("kdbx-dump-header", <<OutName>>), Run("kdbx-decrypt", <<OutName, Secret>>),
                                 Run("kdbx-parse", <<NameX>>) >> >>])
Again == << Generate \o Generate \o << Run("kdbx-decrypt", <<OutName>>), LookOp(OutName, CrDefault),
                                       Run("kdbx-dump-header", <<OutName>>), PutOp(2, OutName),
                                       Run("kdbx-decrypt", <<OutName>>), Run("kdbx-decrypt", <<OutName, Secret>>),
                                       Generate[2], LookOp(OutName, CrDefault) >> >>
VARIABLE done
Init == done = JsonSerialize(IOEnv.OUT, [d |-> Descs, scripts |-> Single \o Around \o Again])
Next == UNCHANGED done
=============================================================================
