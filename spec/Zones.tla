-------------------------------- MODULE Zones --------------------------------
(* UTC offsets of a few zones (years 2009-2037), as civil time rules.         *)
(* An instant is a UTC day number d and seconds s of that day (R64 string).   *)
EXTENDS Calendar
\* the n-th Sunday of a month, and the last one
NthSunday(y, m, n) == LET f == DayNum(y, m, 1) IN f + ((6 - Weekday(f)) % 7) + 7 * (n - 1)
LastSunday(y, m) == LET l == DayNum(y, m, MDays(y)[m]) IN l - ((Weekday(l) + 1) % 7)
\* seconds from 1970 as [day, seconds] comparison
Before2(d, s, day, secs) == d < day \/ (d = day /\ s \prec secs)
From(d, s, day, secs) == ~Before2(d, s, day, secs)
Fixed == [z \in {"UTC", "Etc/GMT+12", "Etc/GMT+7", "Etc/GMT+5", "Etc/GMT-5", "Etc/GMT-14", "Asia/Kolkata", "Asia/Kathmandu", "America/Phoenix", "Asia/Tokyo", "Pacific/Kiritimati"} |->
   CASE z = "UTC" -> 0 [] z = "Etc/GMT+12" -> -720 [] z = "Etc/GMT+7" -> -420 [] z = "Etc/GMT+5" -> -300 [] z = "Etc/GMT-5" -> 300 [] z = "Etc/GMT-14" -> 840
     [] z = "Asia/Kolkata" -> 330 [] z = "Asia/Kathmandu" -> 345 [] z = "America/Phoenix" -> -420 [] z = "Asia/Tokyo" -> 540 [] z = "Pacific/Kiritimati" -> 840]
DstZones == {"America/New_York", "Europe/Berlin", "Pacific/Auckland", "Australia/Lord_Howe"}
KnownZones == DOMAIN Fixed \cup DstZones
\* minutes east of UTC
OffsetMin(z, d, s) ==
  LET y == YearOf(d) IN
  CASE z \in DOMAIN Fixed -> Fixed[z]
    [] z = "America/New_York" ->   \* 2:00 standard, second Sunday of March, to 2:00 daylight, first Sunday of November
         IF From(d, s, NthSunday(y, 3, 2), "25200") /\ Before2(d, s, NthSunday(y, 11, 1), "21600") THEN -240 ELSE -300
    [] z = "Europe/Berlin" ->      \* 1:00 UTC, last Sundays of March and October
         IF From(d, s, LastSunday(y, 3), "3600") /\ Before2(d, s, LastSunday(y, 10), "3600") THEN 120 ELSE 60
    [] z = "Pacific/Auckland" ->   \* 14:00 UTC the day before the first Sunday of April and the last Sunday of September
         IF Before2(d, s, NthSunday(y, 4, 1) - 1, "50400") \/ From(d, s, LastSunday(y, 9) - 1, "50400") THEN 780 ELSE 720
    [] z = "Australia/Lord_Howe" ->  \* half an hour; 2:00 local, first Sundays of April and October
         IF Before2(d, s, NthSunday(y, 4, 1) - 1, "54000") \/ From(d, s, NthSunday(y, 10, 1) - 1, "55800") THEN 660 ELSE 630
Offset(z, d, s) == SOfInt(60 * OffsetMin(z, d, s))
\* instant and wall clock, both as [d, s]
Move(t, x) == LET a == t.s ++ x  k == RFloor(a // "86400") IN [d |-> t.d + RToInt(k), s |-> a -- (k ** "86400")]
Wall(z, t) == Move(t, Offset(z, t.d, t.s))
\* instants showing the wall clock w: none in a gap, two in a fold
Instants(z, w) == {t \in {Move(w, SOfInt(-60 * o)) : o \in {OffsetMin(z, w.d - 1, w.s), OffsetMin(z, w.d + 1, w.s)}} : LET v == Wall(z, t) IN RAbs((SOfInt(v.d - w.d) ** "86400") ++ (v.s -- w.s)) \preceq "1e-6"}
=============================================================================
