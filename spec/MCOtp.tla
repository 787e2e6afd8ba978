-------------------------------- MODULE MCOtp -------------------------------
(* Reading a URL gives the parameters it was made of, whatever their order.  *)
EXTENDS OtpScen, IOUtils
VARIABLES ps, lab
N == atoi(IOEnv.N)
Init == ps = <<>> /\ lab = 1
Next == \/ /\ Len(ps) < N
           /\ \E p \in Alphabet : ps' = Append(ps, p)
           /\ lab' = lab
        \/ /\ lab = 1 /\ lab' \in 2..Len(Labels) /\ ps' = ps
U == Url(Labels[lab], ps)
ReadsBack == ps # <<>> => Params(U) = ps
AnyOrder == \A n \in {NSecret, NPeriod, NDigits} :
                /\ Allowed(U, n, TextAllowed) = Allowed(Url(Labels[1], Reverse(ps)), n, TextAllowed)
                /\ Allowed(U, n, NumAllowed) = Allowed(Url(Labels[1], Reverse(ps)), n, NumAllowed)
Absent == \A n \in {NSecret, NPeriod, NDigits} :
              (\A i \in 1..Len(ps) : ps[i][1] # n) => Allowed(U, n, TextAllowed) = {"none"}
Settled == \A n \in {NPeriod, NDigits} :
              (Len(Given(U, n)) = 1 /\ ~Odd(Given(U, n)[1][3])) => Cardinality(Allowed(U, n, NumAllowed)) = 1
\* a new one reads back as given
New == \A i \in 1..2, p \in {"0", "30", "4294967295"}, d \in {"6", "0"} :
          OtpAllowed(UrlOf(Labels[lab], Sec[i], p, d), NewOtp(Tok(Hex(Sec[i])), p, d))
          /\ Cardinality(Allowed(UrlOf(Labels[lab], Sec[i], p, d), NSecret, TextAllowed)) = 1
=============================================================================
