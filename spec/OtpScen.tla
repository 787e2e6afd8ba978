------------------------------- MODULE OtpScen ------------------------------
(* URLs from an alphabet of labels and parameters: all selections and        *)
(* orders up to N parameters.                                                *)
EXTENDS KdbxOtp, FiniteSets

P3(n, has, v) == <<n, has, v>>
Sec == << Bytes("4a4253575933445045"), Bytes("4d465247473d3d3d"), Bytes("6162633f64") >>      \* JBSWY3DPE  MFRGG===  abc?d
Nums == << Bytes("3330"), Bytes("3336303030"), Bytes("30"), Bytes("34323934393637323935"), Bytes("34323934393637323936"),
           Bytes("2d31"), Bytes("333073"), <<>>, Bytes("2b36"), Bytes("3033"), Bytes("362e30"), Bytes("78"), Bytes("2036") >>
Issuer == Bytes("697373756572")
Alphabet ==
    {P3(NSecret, TRUE, Sec[i]) : i \in 1..3} \union {P3(NSecret, TRUE, <<>>), P3(NSecret, FALSE, <<>>)}
    \union {P3(NPeriod, TRUE, Nums[i]) : i \in 1..Len(Nums)} \union {P3(NPeriod, FALSE, <<>>)}
    \union {P3(NDigits, TRUE, Nums[i]) : i \in {1, 3, 5, 7}}
    \union {P3(Issuer, TRUE, NSecret), P3(Issuer, FALSE, <<>>), P3(<<>>, FALSE, <<>>), P3(<<>>, TRUE, Bytes("61")),
            P3(NSecret \o <<115>>, TRUE, Bytes("6e6f")),                      \* "secrets"
            P3(<<120>> \o NPeriod, TRUE, Bytes("39")), P3(Bytes("446967697473"), TRUE, Bytes("39"))}   \* "xperiod" "Digits"
Labels == << <<>>, Bytes("413a6226633d64"), Bytes("7365637265743d6e6f"), Bytes("6b6462783a256133253346") >>

ParamBytes(p) == p[1] \o (IF p[2] THEN <<61>> \o p[3] ELSE <<>>)
RECURSIVE Joined(_)
Joined(ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ParamBytes(ps[1]) ELSE ParamBytes(ps[1]) \o <<38>> \o Joined(Tail(ps))
Url(label, ps) == Prefix \o label \o <<63>> \o Joined(ps)
=============================================================================
