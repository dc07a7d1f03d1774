------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar.  Days are counted from 1970-01-01; an    *)
(* instant is [d |-> day, s |-> second of the day, n |-> nanosecond], in UTC. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
LeapYear(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF LeapYear(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* the number of leap years in 1..y
LeapsUpTo(y) == (y \div 4) - (y \div 100) + (y \div 400)
\* leap years in y1..(y2-1), counted negatively if y2 < y1
LeapsBetween(y1, y2) == LeapsUpTo(y2 - 1) - LeapsUpTo(y1 - 1)
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
YearDay(y, m, d) == CumDays[m] + d + IF m > 2 /\ LeapYear(y) THEN 1 ELSE 0
Epoch == 719162
DayOf(y, m, d) == (y - 1) * 365 + LeapsUpTo(y - 1) + YearDay(y, m, d) - 1 - Epoch
YearOf(day) ==
  LET n == day + Epoch               \* days since 0001-01-01
      g == n \div 146097
      r == n - g * 146097
      c == IF r \div 36524 > 3 THEN 3 ELSE r \div 36524
      q == (r - c * 36524) \div 1461
      a == (r - c * 36524 - q * 1461) \div 365
  IN g * 400 + c * 100 + q * 4 + (IF a > 3 THEN 3 ELSE a) + 1
DateOf(day) ==
  LET y == YearOf(day)
      k == day - DayOf(y, 1, 1) + 1
      m == CHOOSE m \in 1..12 : YearDay(y, m, 1) <= k /\ (m = 12 \/ k < YearDay(y, m + 1, 1))
  IN [y |-> y, m |-> m, d |-> k - YearDay(y, m, 1) + 1, yd |-> k]
\* 0 is Sunday
WeekDay(day) == (day + 4) % 7
\* ISO 8601: the year and week of the Thursday of the week
IsoOf(day) ==
  LET thursday == day + 3 - ((day + 3) % 7)
      t == DateOf(thursday)
  IN [y |-> t.y, w |-> ((t.yd - 1) \div 7) + 1]
\* an instant as seen with an offset (in seconds) from UTC
Local(t, off) == LET x == t.s + off IN [d |-> t.d + x \div 86400, s |-> x % 86400, n |-> t.n]
\* a - b in days and seconds, ignoring nanoseconds
Minus(a, b) == LET x == a.s - b.s IN [d |-> a.d - b.d + x \div 86400, s |-> x % 86400]
=============================================================================
