----------------------------- MODULE Calendar -----------------------------
(* Times are <<day, second>>: days since 2000-01-01 (UTC, proleptic        *)
(* Gregorian calendar), and seconds of that day.                           *)
EXTENDS Integers, Sequences, Text, BigNum

IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysInMonth(y, m) ==
  CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
    [] m \in {4, 6, 9, 11} -> 30
    [] OTHER -> IF IsLeap(y) THEN 29 ELSE 28

\* days since 2000-01-01
DayNumber(y, m, d) ==
  LET y2  == IF m <= 2 THEN y - 1 ELSE y
      era == y2 \div 400
      yoe == y2 - era * 400
      mp  == IF m > 2 THEN m - 3 ELSE m + 9
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 730425

\* <<year, month, day>> of a day number
Civil(n0) ==
  LET n   == n0 + 730425
      era == n \div 146097
      doe == n - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN << yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1 >>

TimeLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
TimeLe(a, b) == a = b \/ TimeLt(a, b)

\* b - a, in seconds
Seconds(a, b) == Add(Mul(Num(b[1] - a[1]), Num(86400)), Num(b[2] - a[2]))

NoDate == <<>>   \* what is not a date

LOCAL Seps == {45, 46, 47, 58, 95}  \* - . / : _
LOCAL Unify(s) == [i \in DOMAIN s |-> IF s[i] \in Seps THEN 45 ELSE s[i]]

\* The time a text denotes, or NoDate
GetDate(s) ==
  LET f == SplitBy(Unify(s), 45)
      n == Len(f)
      v == [i \in 1..n |-> SmallNum(f[i])]
  IN IF ~(/\ n \in 3..6
          /\ \A i \in 1..n : AllDigits(f[i])
          /\ Len(f[1]) = 4 /\ Len(f[2]) = 2 /\ Len(f[3]) = 2
          /\ n >= 4 => Len(f[4]) \in 1..2
          /\ n >= 5 => Len(f[5]) = 2
          /\ n >= 6 => Len(f[6]) = 2) THEN NoDate
     ELSE IF ~(/\ v[2] \in 1..12
               /\ v[3] >= 1 /\ v[3] <= DaysInMonth(v[1], v[2])
               /\ n >= 4 => v[4] <= 23
               /\ n >= 5 => v[5] <= 59
               /\ n >= 6 => v[6] <= 59) THEN NoDate
     ELSE << DayNumber(v[1], v[2], v[3]),
             IF n = 3 THEN 43200
             ELSE 3600 * v[4] + (IF n >= 5 THEN 60 * v[5] ELSE 0) + (IF n >= 6 THEN v[6] ELSE 0) >>
=============================================================================
