----------------------------- MODULE MCCalendar ----------------------------
(* Days, one after another, as calendars are made: the numbers of days and  *)
(* the dates of numbers agree with that.                                    *)
EXTENDS Calendar, TLC, IOUtils
CONSTANTS First, Last
EnvFirst == atoi(IOEnv.FIRST)
EnvLast == atoi(IOEnv.LAST)
VARIABLES date, n
vars == <<date, n>>
Init == \E y \in First..Last : date = <<y, 1, 1>> /\ n = DayNumber(y, 1, 1)
LOCAL Length(y, m) == IF m = 2 THEN (IF y % 400 = 0 \/ (y % 4 = 0 /\ y % 100 # 0) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* up to the first day of the next year
Next ==
  /\ ~(n # DayNumber(date[1], 1, 1) /\ date[2] = 1 /\ date[3] = 1) /\ date[1] <= Last
  /\ date' = IF date[3] < Length(date[1], date[2]) THEN <<date[1], date[2], date[3] + 1>>
             ELSE IF date[2] < 12 THEN <<date[1], date[2] + 1, 1>> ELSE <<date[1] + 1, 1, 1>>
  /\ n' = n + 1
Spec == Init /\ [][Next]_vars

LOCAL Two(k) == <<48 + (k \div 10), 48 + (k % 10)>>
LOCAL Text(d) == Two(d[1] \div 100) \o Two(d[1] % 100) \o <<45>> \o Two(d[2]) \o <<45>> \o Two(d[3])
Right == /\ DayNumber(date[1], date[2], date[3]) = n /\ Civil(n) = date
         /\ date[1] <= 9999 => GetDate(Text(date)) = <<n, 43200>>
\* 2000-01-01 is day 0
Origin == date = <<2000, 1, 1>> => n = 0
NoMore == GetDate(Text(<<date[1] % 10000, date[2], Length(date[1], date[2]) + 1>>)) = NoDate
=============================================================================
