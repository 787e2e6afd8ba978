------------------------------ MODULE KdbxCodec -----------------------------
(***************************************************************************)
(* Encodings used inside the format: hex (the notation of this             *)
(* specification), base64, identifiers, timestamps, numbers and booleans   *)
(* in XML text.  A byte string is a sequence of 0..255; a text token is    *)
(* "x<hex of the UTF-8 bytes>", or "r<length>:<seed>" / "a<length>:<hash>" *)
(* for long texts that stay opaque.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

HexChars == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexVal == [c \in {HexChars[i] : i \in 1..16} |-> CHOOSE v \in 0..15 : HexChars[v + 1] = c]

HexByte == [b \in 0..255 |-> HexChars[(b \div 16) + 1] \o HexChars[(b % 16) + 1]]
\* value of a pair of hex digits
PairVal == [p \in {HexByte[b] : b \in 0..255} |->
               HexVal[SubSeq(p, 1, 1)] * 16 + HexVal[SubSeq(p, 2, 2)]]

Bytes(hex) == [i \in 1..(Len(hex) \div 2) |-> PairVal[SubSeq(hex, 2 * i - 1, 2 * i)]]

Hex(bytes) == FoldLeft(LAMBDA acc, b : acc \o HexByte[b], "", bytes)

HexLen(hex) == Len(hex) \div 2

(* Text tokens *)
IsPlain(tok) == SubSeq(tok, 1, 1) = "x"
TokHex(tok) == SubSeq(tok, 2, Len(tok))
Tok(hex) == "x" \o hex

DecVal == [c \in {HexChars[i] : i \in 1..10} |-> HexVal[c]]
RECURSIVE DecNat(_)
DecNat(s) == IF s = "" THEN 0
             ELSE 10 * DecNat(SubSeq(s, 1, Len(s) - 1)) + DecVal[SubSeq(s, Len(s), Len(s))]

\* number of bytes of a text
TokLen(tok) == IF IsPlain(tok) THEN (Len(tok) - 1) \div 2 ELSE DecNat(SubSeq(tok, 2, 11))

---------------------------------------------------------------------------
(* base64, RFC 4648 section 4: padded, no other characters, unused bits 0 *)

B64Char(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4
              ELSE IF v = 62 THEN 43 ELSE 47
B64Enc3 == [v \in 0..63 |-> B64Char(v)]
B64Chars == {B64Enc3[v] : v \in 0..63}
B64Val == [c \in B64Chars |-> CHOOSE v \in 0..63 : B64Enc3[v] = c]

RECURSIVE B64Enc(_)
B64Enc(b) ==
    IF b = <<>> THEN <<>>
    ELSE IF Len(b) = 1 THEN <<B64Enc3[b[1] \div 4], B64Enc3[(b[1] % 4) * 16], 61, 61>>
    ELSE IF Len(b) = 2 THEN <<B64Enc3[b[1] \div 4], B64Enc3[(b[1] % 4) * 16 + b[2] \div 16],
                              B64Enc3[(b[2] % 16) * 4], 61>>
    ELSE <<B64Enc3[b[1] \div 4], B64Enc3[(b[1] % 4) * 16 + b[2] \div 16],
           B64Enc3[(b[2] % 16) * 4 + b[3] \div 64], B64Enc3[b[3] % 64]>>
         \o B64Enc(SubSeq(b, 4, Len(b)))

\* <<"some", bytes>> or <<"none">>
RECURSIVE B64Dec(_)
B64Dec(s) ==
    IF s = <<>> THEN <<"some", <<>>>>
    ELSE IF Len(s) < 4 THEN <<"none">>
    ELSE IF s[1] \notin B64Chars \/ s[2] \notin B64Chars THEN <<"none">>
    ELSE IF s[4] = 61 THEN
        IF Len(s) # 4 THEN <<"none">>
        ELSE IF s[3] = 61 THEN
            IF B64Val[s[2]] % 16 # 0 THEN <<"none">>
            ELSE <<"some", <<B64Val[s[1]] * 4 + B64Val[s[2]] \div 16>>>>
        ELSE IF s[3] \notin B64Chars THEN <<"none">>
        ELSE IF B64Val[s[3]] % 4 # 0 THEN <<"none">>
        ELSE <<"some", <<B64Val[s[1]] * 4 + B64Val[s[2]] \div 16,
                         (B64Val[s[2]] % 16) * 16 + B64Val[s[3]] \div 4>>>>
    ELSE IF s[3] \notin B64Chars \/ s[4] \notin B64Chars THEN <<"none">>
    ELSE LET rest == B64Dec(SubSeq(s, 5, Len(s)))
         IN  IF rest[1] = "none" THEN rest
             ELSE <<"some", <<B64Val[s[1]] * 4 + B64Val[s[2]] \div 16,
                              (B64Val[s[2]] % 16) * 16 + B64Val[s[3]] \div 4,
                              (B64Val[s[3]] % 4) * 64 + B64Val[s[4]]>> \o rest[2]>>

---------------------------------------------------------------------------
(* XML text of identifiers, timestamps, numbers and booleans *)

WsBytes == {9, 10, 13, 32}
RECURSIVE TrimL(_)
TrimL(b) == IF b = <<>> THEN b ELSE IF b[1] \in WsBytes THEN TrimL(Tail(b)) ELSE b
RECURSIVE TrimR(_)
TrimR(b) == IF b = <<>> THEN b ELSE IF b[Len(b)] \in WsBytes THEN TrimR(SubSeq(b, 1, Len(b) - 1)) ELSE b
Trim(b) == TrimL(TrimR(b))

TokBytes(tok) == Bytes(TokHex(tok))

IdText(id) == Tok(Hex(B64Enc(Bytes(id))))
TimeText(t) == Tok(Hex(B64Enc(Bytes(SubSeq(t, 2, 17)))))

\* <<"some", id>> or <<"none">>
ReadId(tok) ==
    LET d == B64Dec(Trim(TokBytes(tok)))
    IN  IF d[1] = "none" THEN d ELSE IF Len(d[2]) # 16 THEN <<"none">> ELSE <<"some", Hex(d[2])>>

---------------------------------------------------------------------------
(* Calendar: seconds since 0001-01-01 as <<days, second of the day>>, and  *)
(* as the 8 little-endian bytes stored in files.  Days fit TLC's integers, *)
(* seconds do not, so the product is formed byte by byte.                  *)

RECURSIVE LeDigits(_, _)
\* sequence of n base-256 digits of the digit polynomial b (carries resolved)
LeDigits(b, n) ==
    IF n = 0 THEN <<>>
    ELSE LET low == IF b = <<>> THEN 0 ELSE b[1]
             carry == low \div 256
             rest == IF b = <<>> THEN <<>> ELSE Tail(b)
             rest2 == IF carry = 0 THEN rest
                      ELSE IF rest = <<>> THEN <<carry>> ELSE [rest EXCEPT ![1] = @ + carry]
         IN  <<low % 256>> \o LeDigits(rest2, n - 1)

\* days * 86400 + secs, non-negative.  86400 = 128 + 256*81 + 65536
SecsLe(days, secs) ==
    LET d == LeDigits(<<days>>, 4)
        a == <<d[1] * 128 + (secs % 256), d[2] * 128 + d[1] * 81 + ((secs \div 256) % 256),
               d[3] * 128 + d[2] * 81 + d[1] + secs \div 65536,
               d[4] * 128 + d[3] * 81 + d[2], d[4] * 81 + d[3], d[4]>>
    IN  LeDigits(a, 8)

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                   ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE DaysBeforeMonth(_, _)
DaysBeforeMonth(y, m) == IF m = 1 THEN 0 ELSE DaysBeforeMonth(y, m - 1) + MonthDays(y, m - 1)
\* days from 0001-01-01 to y-m-d
DayNumber(y, m, d) ==
    LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400 + DaysBeforeMonth(y, m) + d - 1

TimeTok(days, secs) == "t" \o Hex(SecsLe(days, secs))

\* y-m-dTH:M:S at offset off (minutes east of Greenwich)
IsoTime(y, m, d, hh, mm, ss, off) ==
    LET total == hh * 3600 + mm * 60 + ss - off * 60
        shift == IF total < 0 THEN -1 ELSE IF total >= 86400 THEN 1 ELSE 0
    IN  TimeTok(DayNumber(y, m, d) + shift, total - shift * 86400)

(* and back, for years 1 to 9999 *)
DaySec(t) ==
    LET be == Reverse(Bytes(SubSeq(t, 2, 17)))
    IN  FoldLeft(LAMBDA acc, d : <<acc[1] * 256 + (acc[2] * 256 + d) \div 86400, (acc[2] * 256 + d) % 86400>>,
                 <<0, 0>>, be)
MinOf(a, b) == IF a < b THEN a ELSE b
\* <<year, month, day>> of a day number
Civil(days) ==
    LET n400 == days \div 146097
        r1 == days % 146097
        n100 == MinOf(3, r1 \div 36524)
        r2 == r1 - n100 * 36524
        n4 == r2 \div 1461
        r3 == r2 % 1461
        n1 == MinOf(3, r3 \div 365)
        doy == r3 - n1 * 365
        y == 400 * n400 + 100 * n100 + 4 * n4 + n1 + 1
        m == CHOOSE k \in 1..12 : DaysBeforeMonth(y, k) <= doy /\ doy < DaysBeforeMonth(y, k) + MonthDays(y, k)
    IN  <<y, m, doy - DaysBeforeMonth(y, m) + 1>>

Two(n) == <<48 + n \div 10, 48 + (n % 10)>>
\* "YYYY-MM-DDThh:mm:ss" of a day and second
IsoLocal(day, s) ==
    LET c == Civil(day)
    IN  Two(c[1] \div 100) \o Two(c[1] % 100) \o <<45>> \o Two(c[2]) \o <<45>> \o Two(c[3]) \o <<84>>
        \o Two(s \div 3600) \o <<58>> \o Two((s \div 60) % 60) \o <<58>> \o Two(s % 60)
\* and with the zone off minutes east of Greenwich, unless that is outside of years 1 to 9999
IsoBytes(t, off) ==
    LET ds == DaySec(t)
        total == ds[2] + off * 60
        shift == IF total < 0 THEN -1 ELSE IF total >= 86400 THEN 1 ELSE 0
        a == IF off < 0 THEN -off ELSE off
    IN  IF off = 0 \/ ds[1] + shift \notin 0..3652058 THEN IsoLocal(ds[1], ds[2]) \o <<90>>
        ELSE IsoLocal(ds[1] + shift, total - shift * 86400)
             \o <<IF off < 0 THEN 45 ELSE 43>> \o Two(a \div 60) \o <<58>> \o Two(a % 60)
IsoText(t, off) == Tok(Hex(IsoBytes(t, off)))

(* Reading a timestamp from text: ISO 8601 with zone, or base64 of 8 bytes *)
Digit(b) == b \in 48..57
Num2(b, i) == (b[i] - 48) * 10 + (b[i + 1] - 48)
IsoShape(b) ==
    IF Len(b) < 20 THEN FALSE
    ELSE /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} : Digit(b[i])
         /\ b[5] = 45 /\ b[8] = 45 /\ b[11] = 84 /\ b[14] = 58 /\ b[17] = 58
         /\ IF Len(b) = 20 THEN b[20] = 90
            ELSE /\ Len(b) = 25 /\ b[20] \in {43, 45} /\ b[23] = 58
                 /\ Digit(b[21]) /\ Digit(b[22]) /\ Digit(b[24]) /\ Digit(b[25])

ReadIso(b) ==
    IF ~IsoShape(b) THEN <<"none">>
    ELSE LET y == Num2(b, 1) * 100 + Num2(b, 3)
             m == Num2(b, 6)
             d == Num2(b, 9)
             hh == Num2(b, 12)
             mm == Num2(b, 15)
             ss == Num2(b, 18)
             oh == IF Len(b) = 20 THEN 0 ELSE Num2(b, 21)
             om == IF Len(b) = 20 THEN 0 ELSE Num2(b, 24)
             off == IF Len(b) = 20 THEN 0 ELSE (IF b[20] = 45 THEN -1 ELSE 1) * (oh * 60 + om)
         IN  IF m \notin 1..12 \/ y < 1 THEN <<"none">>
             ELSE IF d \notin 1..MonthDays(y, m) THEN <<"none">>
             ELSE IF hh > 23 \/ mm > 59 \/ ss > 59 \/ oh > 23 \/ om > 59 THEN <<"none">>
             ELSE <<"some", IsoTime(y, m, d, hh, mm, ss, off)>>

ReadTime(tok) ==
    LET b == Trim(TokBytes(tok))
    IN  IF \E i \in 1..Len(b) : b[i] = 45 THEN ReadIso(b)
        ELSE LET d == B64Dec(b)
             IN  IF d[1] = "none" THEN d
                 ELSE IF Len(d[2]) # 8 THEN <<"none">> ELSE <<"some", "t" \o Hex(d[2])>>

(* Decimal numbers: the text of digits *)
DigitOf == [b \in 48..57 |-> HexChars[b - 47]]
DecText(dec) == Tok(FoldLeft(LAMBDA acc, i : acc \o HexByte[48 + DecVal[SubSeq(dec, i, i)]], "",
                             [i \in 1..Len(dec) |-> i]))
RECURSIVE StripZeros(_)
StripZeros(b) == IF Len(b) <= 1 THEN b ELSE IF b[1] = 48 THEN StripZeros(Tail(b)) ELSE b
ReadDec(tok) ==
    LET b == Trim(TokBytes(tok))
    IN  IF b = <<>> THEN <<"some", "0">>
        ELSE IF \E i \in 1..Len(b) : ~Digit(b[i]) THEN <<"none">>
        ELSE <<"some", FoldLeft(LAMBDA acc, x : acc \o DigitOf[x], "", StripZeros(b))>>

TrueText == "x54727565"
FalseText == "x46616c7365"
BoolText(b) == IF b THEN TrueText ELSE FalseText
Lower(b) == [i \in 1..Len(b) |-> IF b[i] \in 65..90 THEN b[i] + 32 ELSE b[i]]
ReadBool(tok) == Lower(Trim(TokBytes(tok))) = <<116, 114, 117, 101>>

(* Characters XML 1.0 has a form for, decided on the UTF-8 bytes *)
XmlText(tok) ==
    IF ~IsPlain(tok) THEN TRUE
    ELSE LET b == TokBytes(tok)
         IN  \A i \in 1..Len(b) :
                /\ b[i] < 32 => b[i] \in {9, 10, 13}
                /\ (b[i] = 239 /\ i + 2 <= Len(b)) => ~(b[i + 1] = 191 /\ b[i + 2] \in {190, 191})
=============================================================================
