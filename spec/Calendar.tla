------------------------------ MODULE Calendar ------------------------------
(* Proleptic Gregorian calendar on day numbers (0 = 1970-01-01), and month    *)
(* tables.  Instants are [d |-> day number (int), s |-> seconds of the UTC     *)
(* day (R64 string)].                                                         *)
EXTENDS R64, Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MDays(y) == <<31, IF IsLeap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
YDays(y) == IF IsLeap(y) THEN 366 ELSE 365
\* days from 1970-01-01 to 1 January of year y
Jan1(y) == LET p == y - 1 IN 365 * (y - 1970) + ((p \div 4) - (p \div 100) + (p \div 400)) - 477
YearOf(d) == LET g == 1970 + ((d * 400) \div 146097)   \* within a year of the truth
             IN  CHOOSE y \in (g - 1)..(g + 1) : Jan1(y) <= d /\ d < Jan1(y + 1)
DoyOf(d) == d - Jan1(YearOf(d)) + 1
\* cumulated days before month m
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE Before(y, m - 1) + MDays(y)[m - 1]
MonthOf(d) == LET y == YearOf(d)  n == DoyOf(d) IN CHOOSE m \in 1..12 : Before(y, m) < n /\ n <= Before(y, m) + MDays(y)[m]
DomOf(d) == DoyOf(d) - Before(YearOf(d), MonthOf(d))
DayNum(y, m, dom) == Jan1(y) + Before(y, m) + dom - 1
\* 0 = Monday
Weekday(d) == (d + 3) % 7
=============================================================================
