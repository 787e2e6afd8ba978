------------------------------ MODULE MCValues ------------------------------
(* The calendar counts every day exactly once; texts read back.              *)
EXTENDS KdbxValues, IOUtils
VARIABLES n, sec
Years == atoi(IOEnv.YEARS)
Marks == {0, 1, 59, 60, 3599, 3600, 43200, 86399}
\* days near the turn of each month of the first YEARS years, and far away
Starts == {DayNumber(y, m, 1) : y \in 1..Years, m \in {1, 3}} \union {DayNumber(y, m, 1) : y \in {1900, 2000, 2020, 2100, 9999, 262142}, m \in 1..12}
Init == n = 0 /\ sec = -1
Next == sec = -1 /\ \/ n = 0 /\ n' \in Starts /\ sec' = -1
                    \/ n' = n /\ sec' \in Marks
Succ(c) == IF c[3] < MonthDays(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
           ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>
Back == \A k \in {n - 1, n, n + 1} : k >= 0 => LET c == Civil(k) IN DayNumber(c[1], c[2], c[3]) = k /\ Civil(k + 1) = Succ(c)
T == TimeTok(n, sec)
Text == sec >= 0 => /\ DaySec(T) = <<n, sec>>
                    /\ TimeAllowed(TimeText(T), At(n, sec))
                    /\ ~TimeAllowed(TimeText(T), None)
                    /\ ~TimeAllowed(TimeText(T), At(n + 1, sec))
                    /\ B64Dec(TokBytes(TimeText(T))) = LaxB64(TokBytes(TimeText(T)))
ZoneText(off) == LET a == IF off < 0 THEN -off ELSE off
                 IN  <<IF off < 0 THEN 45 ELSE 43>> \o Two(a \div 60) \o <<58>> \o Two(a % 60)
Iso == (sec >= 0 /\ Civil(n)[1] < 10000) =>
          LET b == IsoBytes(T, 0)
              z == SubSeq(b, 1, 19)
              c == Civil(n)
          IN  /\ ReadIso(b) = <<"some", T>>
              /\ IsoMeans(b) = {<<n, sec>>}
              /\ \A off \in {0, 1, 90, 840, 1439, -1, -90, -720, -1439} :
                    LET q == CHOOSE x \in IsoMeans(z \o ZoneText(off)) : TRUE
                        t == IsoTime(c[1], c[2], c[3], sec \div 3600, (sec \div 60) % 60, sec % 60, off)
                    IN  /\ ReadIso(IsoBytes(T, off)) = <<"some", T>>
                        /\ (q[1] - n) * 86400 + q[2] = sec - off * 60
                        /\ q[1] >= 0 => TimeTok(q[1], q[2]) = t /\ ReadIso(z \o ZoneText(off)) = <<"some", t>>
=============================================================================
