------------------------------- MODULE KdbxOtp ------------------------------
(***************************************************************************)
(* One-time password settings, kept as a URL in the form of KeePassXC:     *)
(*   otpauth://totp/LABEL?name=value&name=value...                         *)
(* Everything after the first "?" is parameters, separated by "&"; a name  *)
(* ends at the first "=".  A URL is a sequence of bytes.                   *)
(***************************************************************************)
EXTENDS KdbxCodec

RECURSIVE Find(_, _, _)
\* first position of byte c at or after i, or 0
Find(b, c, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = c THEN i ELSE Find(b, c, i + 1)

RECURSIVE SplitBytes(_, _)
SplitBytes(b, c) ==
    LET i == Find(b, c, 1)
    IN  IF i = 0 THEN <<b>> ELSE <<SubSeq(b, 1, i - 1)>> \o SplitBytes(SubSeq(b, i + 1, Len(b)), c)

\* <<name, has a value, value>>
ParamOf(p) == LET i == Find(p, 61, 1)
              IN  IF i = 0 THEN <<p, FALSE, <<>>>> ELSE <<SubSeq(p, 1, i - 1), TRUE, SubSeq(p, i + 1, Len(p))>>
Params(url) ==
    LET q == Find(url, 63, 1)
    IN  IF q = 0 THEN <<>>
        ELSE LET ps == SplitBytes(SubSeq(url, q + 1, Len(url)), 38) IN [i \in 1..Len(ps) |-> ParamOf(ps[i])]

NSecret == <<115, 101, 99, 114, 101, 116>>
NPeriod == <<112, 101, 114, 105, 111, 100>>
NDigits == <<100, 105, 103, 105, 116, 115>>

Given(url, name) == SelectSeq(Params(url), LAMBDA p : p[1] = name)

MaxU32 == <<"4", "2", "9", "4", "9", "6", "7", "2", "9", "5">>
\* the digits of a number that fits 32 bits?
FitsU32(b) ==
    LET s == StripZeros(b)
        le[i \in 1..11] == IF i = 11 THEN TRUE
                           ELSE LET m == HexVal[MaxU32[i]] d == s[i] - 48
                                IN  IF d < m THEN TRUE ELSE IF d > m THEN FALSE ELSE le[i + 1]
    IN  IF Len(s) < 10 THEN TRUE ELSE IF Len(s) > 10 THEN FALSE ELSE le[1]
AllDigits(b) == b # <<>> /\ \A i \in 1..Len(b) : Digit(b[i])
Dec(b) == FoldLeft(LAMBDA acc, x : acc \o DigitOf[x], "", StripZeros(b))

\* forms of a number that some readers take and others do not
Odd(b) == \E i \in 1..Len(b) : b[i] \in {32, 9, 43, 37}

\* what may be reported for one occurrence of a number
NumAllowed(p) ==
    IF ~p[2] THEN {"none"}
    ELSE IF AllDigits(p[3]) THEN {IF FitsU32(p[3]) THEN Dec(p[3]) ELSE "none"}
    ELSE IF Odd(p[3])
    THEN {"none"} \union (LET d == SelectSeq(p[3], LAMBDA x : Digit(x)) IN IF AllDigits(d) THEN {Dec(d)} ELSE {})
    ELSE {"none"}

\* an occurrence without value, or with an empty one, may count as absent
TextAllowed(p) ==
    IF ~p[2] THEN {"none", "x"}
    ELSE IF p[3] = <<>> THEN {"none", "x"}
    ELSE {Tok(Hex(p[3]))}

\* which of several occurrences counts is not settled
Allowed(url, name, Op(_)) ==
    LET g == Given(url, name) IN IF g = <<>> THEN {"none"} ELSE UNION {Op(g[i]) : i \in 1..Len(g)}

\* o is ["some", secret, period, digits]
OtpAllowed(url, o) ==
    /\ o[1] = "some"
    /\ o[2] \in Allowed(url, NSecret, TextAllowed)
    /\ o[3] \in Allowed(url, NPeriod, NumAllowed)
    /\ o[4] \in Allowed(url, NDigits, NumAllowed)

\* a newly made one reports exactly what was given
NewOtp(secret, period, digits) == <<"some", secret, period, digits>>

\* the URL a new one is kept as
Prefix == Bytes("6f7470617574683a2f2f746f74702f")   \* otpauth://totp/
DecBytes(dec) == TokBytes(DecText(dec))
UrlOf(label, secret, period, digits) ==
    Prefix \o label \o <<63>> \o NSecret \o <<61>> \o secret \o <<38>> \o NPeriod \o <<61>> \o DecBytes(period)
    \o <<38>> \o NDigits \o <<61>> \o DecBytes(digits)
=============================================================================
