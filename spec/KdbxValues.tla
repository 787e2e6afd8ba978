----------------------------- MODULE KdbxValues -----------------------------
(***************************************************************************)
(* What encoders and decoders of identifiers and timestamps may return.    *)
(* A text in the documented form has exactly one reading.  A text in a     *)
(* neighbouring form (other base64 padding, other ISO 8601 notations) may  *)
(* be refused, but not be read as something else.  Anything else is        *)
(* refused.                                                                *)
(***************************************************************************)
EXTENDS KdbxCodec, FiniteSets

None == <<"none">>
Some(v) == <<"some", v>>

---------------------------------------------------------------------------
(* base64 with white space, without padding, with the other alphabet, or   *)
(* with unused bits set                                                    *)
SixBit(c) == IF c \in B64Chars THEN B64Val[c] ELSE IF c = 45 THEN 62 ELSE IF c = 95 THEN 63 ELSE -1
RECURSIVE DropPad(_)
DropPad(b) == IF b = <<>> THEN b ELSE IF b[Len(b)] = 61 THEN DropPad(SubSeq(b, 1, Len(b) - 1)) ELSE b
RECURSIVE Bits(_)
Bits(v) == \* sextets to bytes
    IF Len(v) < 2 THEN <<>>
    ELSE IF Len(v) = 2 THEN <<v[1] * 4 + v[2] \div 16>>
    ELSE IF Len(v) = 3 THEN <<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4>>
    ELSE <<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4, (v[3] % 4) * 64 + v[4]>> \o Bits(SubSeq(v, 5, Len(v)))
LaxB64(b) ==
    LET d == DropPad(SelectSeq(b, LAMBDA c : c \notin WsBytes))
    IN  IF (\E i \in 1..Len(d) : SixBit(d[i]) = -1) \/ (Len(d) % 4) = 1 THEN None
        ELSE Some(Bits([i \in 1..Len(d) |-> SixBit(d[i])]))

---------------------------------------------------------------------------
(* Identifiers *)
IdAllowed(tok) ==
    LET b == TokBytes(tok)
        s == B64Dec(b)
        l == LaxB64(b)
    IN  IF s # None /\ Len(s[2]) = 16 THEN {Some(Hex(s[2]))}
        ELSE IF l # None /\ Len(l[2]) = 16 THEN {None, Some(Hex(l[2]))}
        ELSE {None}

---------------------------------------------------------------------------
(* Timestamps.  The last day there is a value for. *)
LastDay == DayNumber(262142, 12, 31)

\* result <<"some", token, civil>> for a time given by day and second
Civ(days, secs) == LET c == Civil(days) IN <<c[1], c[2], c[3], secs \div 3600, (secs \div 60) % 60, secs % 60>>
At(days, secs) == <<"some", TimeTok(days, secs), Civ(days, secs)>>

IsCut(t) == Len(t) > 17
\* without parts of a second
Cut(ret) == IF ret[1] = "some" THEN <<"some", SubSeq(ret[2], 1, 17), ret[3]>> ELSE ret

Negative(le) == le[8] >= 128
Large(le) == le[8] # 0 \/ le[7] # 0 \/ le[6] > 7

\* exact reading of 8 bytes
OfBytes(le) == LET ds == DaySec("t" \o Hex(le)) IN At(ds[1], ds[2])
B64Time(le, ret, must) ==
    IF Negative(le) THEN IF ret[1] = "some" THEN ret[2] = "t" \o Hex(le) ELSE ret = None
    ELSE IF Large(le) THEN ret = None
    ELSE LET x == OfBytes(le)
         IN  IF DaySec("t" \o Hex(le))[1] > LastDay THEN ret = None
             ELSE ret = x \/ (~must /\ ret = None)

(* ISO 8601 *)
RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE Num(SubSeq(b, 1, Len(b) - 1)) * 10 + (b[Len(b)] - 48)
Shift(y, m, d, secs) ==  \* seconds may be negative or beyond the day
    LET k == IF secs < 0 THEN -1 - ((-1 - secs) \div 86400) ELSE secs \div 86400
    IN  <<DayNumber(y, m, d) + k, secs - k * 86400>>

DateShape(b) == IF Len(b) < 10 THEN FALSE
                ELSE (\A i \in {1, 2, 3, 4, 6, 7, 9, 10} : Digit(b[i])) /\ b[5] = 45 /\ b[8] = 45
TimeShape(b) == IF Len(b) < 19 THEN FALSE
                ELSE (\A i \in {12, 13, 15, 16, 18, 19} : Digit(b[i])) /\ b[14] = 58 /\ b[17] = 58 /\ b[11] \in {84, 116, 32}
RECURSIVE SkipDigits(_, _)
SkipDigits(b, i) == IF i > Len(b) THEN i ELSE IF Digit(b[i]) THEN SkipDigits(b, i + 1) ELSE i
\* position after the fraction
AfterFraction(b) == IF Len(b) > 20 THEN IF b[20] \in {46, 44} /\ Digit(b[21]) THEN SkipDigits(b, 21) ELSE 20 ELSE 20
\* <<"some", minutes>> of a zone
ZoneOf(z) ==
    IF z \in {<<>>, <<90>>, <<122>>} THEN Some(0)
    ELSE IF z[1] \notin {43, 45} THEN None
    ELSE LET d == SelectSeq(Tail(z), LAMBDA x : Digit(x))
             colon == Len(z) = 6 /\ z[4] = 58
         IN  IF ~((Len(z) \in {3, 5} /\ Len(d) = Len(z) - 1) \/ (colon /\ Len(d) = 4)) THEN None
             ELSE LET h == Num(SubSeq(d, 1, 2))
                      m == IF Len(d) = 4 THEN Num(SubSeq(d, 3, 4)) ELSE 0
                  IN  Some((IF z[1] = 45 THEN -1 ELSE 1) * (h * 60 + m))
\* days and seconds a text in some ISO notation means; empty: not such a text
IsoMeans(b0) ==
    LET b == Trim(b0)
    IN  IF ~(DateShape(b) /\ TimeShape(b)) THEN {}
        ELSE LET z == ZoneOf(SubSeq(b, AfterFraction(b), Len(b)))
                 y == Num2(b, 1) * 100 + Num2(b, 3)
                 m == Num2(b, 6)
                 d == Num2(b, 9)
                 hh == Num2(b, 12)
                 mm == Num2(b, 15)
                 ss == Num2(b, 18)
                 at(s) == Shift(y, m, d, hh * 3600 + mm * 60 + s - z[2] * 60)
             IN  IF z = None \/ m \notin 1..12 \/ y < 1 THEN {}
                 ELSE IF d \notin 1..MonthDays(y, m) \/ hh > 24 \/ mm > 59 \/ ss > 60 \/ (hh = 24 /\ (mm # 0 \/ ss # 0)) THEN {}
                 ELSE IF ss = 60 THEN {at(59), at(60)} ELSE {at(ss)}
\* years before 1 are outside of the format
BeforeYear1(b0) == LET b == Trim(b0) IN DateShape(b) /\ (SubSeq(b, 1, 4) = <<48, 48, 48, 48>>)

TimeAllowed(tok, ret) ==
    LET b == TokBytes(tok)
        s == B64Dec(b)
        l == LaxB64(b)
        i == ReadIso(b)
        means == IsoMeans(b)
    IN  IF s # None
        THEN IF Len(s[2]) = 8 THEN B64Time(s[2], ret, TRUE)
             ELSE ret[1] \in {"some", "none"}          \* base64, but not of a timestamp
        ELSE IF i # None
        THEN LET x == CHOOSE q \in means : TRUE
             IN  IF x[1] < 0 THEN ret[1] \in {"some", "none"} ELSE ret = At(x[1], x[2])
        ELSE IF means # {}
        THEN IF ret = None THEN TRUE
             ELSE IF ret[1] # "some" THEN FALSE
             ELSE \E q \in means :
                    IF q[1] < 0 THEN TRUE
                    ELSE IF Cardinality(means) = 2 THEN SubSeq(ret[2], 1, 17) = TimeTok(q[1], q[2])
                    ELSE Cut(ret) = At(q[1], q[2])
        ELSE IF BeforeYear1(b) THEN ret[1] \in {"some", "none"}
        ELSE IF l # None THEN IF Len(l[2]) = 8 THEN B64Time(l[2], ret, FALSE) ELSE ret[1] \in {"some", "none"}
        ELSE ret = None

EncTime(v) == LET q == Shift(v[1], v[2], v[3], v[4] * 3600 + v[5] * 60 + v[6]) IN TimeText(TimeTok(q[1], q[2]))
=============================================================================
