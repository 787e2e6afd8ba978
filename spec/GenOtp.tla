------------------------------- MODULE GenOtp -------------------------------
(* All URLs with up to three parameters of the alphabet.                     *)
EXTENDS OtpScen, Json, IOUtils
Single == {<<p>> : p \in Alphabet}
Pairs == {<<p, q>> : p \in Alphabet, q \in Alphabet}
\* one parameter for each setting and an unknown one, in all orders
A(n, i) == CHOOSE p \in Alphabet : p[1] = n /\ p[2] /\ p[3] = (IF n = NSecret THEN Sec[i] ELSE Nums[i])
Full == {A(NSecret, 1), A(NPeriod, 1), A(NDigits, 3), P3(Issuer, TRUE, NSecret)}
Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]}
Orders == UNION {Perms(S) : S \in SUBSET Full} \union UNION {Perms((Full \ {A(NSecret, 1)}) \union {A(NSecret, 2)})}
Urls == {Url(Labels[1], ps) : ps \in Pairs \union {<<>>}}
        \union {Url(Labels[k], ps) : k \in 1..Len(Labels), ps \in Single \union Orders}
        \union {Prefix \o Labels[k] : k \in 1..Len(Labels)}
S == SetToSeq(Urls)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..Len(S) |-> Tok(Hex(S[i]))])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
