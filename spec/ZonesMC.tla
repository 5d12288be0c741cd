------------------------------ MODULE ZonesMC ------------------------------
(* The zone rules: offsets are one of two values, wall clocks and instants    *)
(* invert each other except in gaps and folds, which come once each per year. *)
EXTENDS Zones, Decomp, IOUtils, TLC, FiniteSets
CONSTANTS Years_
VARIABLES p, c
Init == c = [on |-> FALSE] /\ \E z \in KnownZones, y \in Years_ : p = [z |-> z, y |-> y]
Secs == {SOfInt(1800 * k) : k \in 0..47}
Next == ~c.on /\ UNCHANGED p /\ \E k \in 1..YDays(p.y) : c' = [on |-> TRUE, d |-> Jan1(p.y) + k - 1]
\* calendar functions on that day
CalendarOk == c.on => LET d == c.d IN
   /\ YearOf(d) = p.y /\ 1 <= DoyOf(d) /\ DoyOf(d) <= YDays(p.y)
   /\ DayNum(YearOf(d), MonthOf(d), DomOf(d)) = d
   /\ DomOf(d) <= MDays(p.y)[MonthOf(d)]
   /\ Weekday(d + 1) = (Weekday(d) + 1) % 7
RoundTrip == c.on => \A s \in {"0", "3600", "27000", "54000", "86399"} : LET t == [d |-> c.d, s |-> s] IN RNum(s) \doteq s /\ \E v \in Instants(p.z, Wall(p.z, t)) : v.d = t.d /\ v.s \doteq t.s
Changes == {s \in Secs : OffsetMin(p.z, c.d, s) # OffsetMin(p.z, Move([d |-> c.d, s |-> s], "-1800").d, Move([d |-> c.d, s |-> s], "-1800").s)}
\* a change happens only on documented Sundays (or the UTC day before), never in fixed zones, and once a day
ChangeDays == c.on => LET n == Cardinality(Changes) IN
   /\ n <= 1
   /\ (n = 1) <=> CASE p.z = "America/New_York" -> c.d \in {NthSunday(p.y, 3, 2), NthSunday(p.y, 11, 1)}
                    [] p.z = "Europe/Berlin" -> c.d \in {LastSunday(p.y, 3), LastSunday(p.y, 10)}
                    [] p.z = "Pacific/Auckland" -> c.d \in {NthSunday(p.y, 4, 1) - 1, LastSunday(p.y, 9) - 1}
                    [] p.z = "Australia/Lord_Howe" -> c.d \in {NthSunday(p.y, 4, 1) - 1, NthSunday(p.y, 10, 1) - 1}
                    [] OTHER -> FALSE
\* the extraterrestrial models stay within the orbit's eccentricity and meet at the year end
Orbit == c.on => \A f \in {Spencer(SOfInt(DoyOf(c.d)), "1366.1"), Asce(SOfInt(DoyOf(c.d)), "1366.1")} : "1318" \preceq f /\ f \preceq "1414.5"
Emit == ~(c.on /\ (Cardinality(Changes) = 1 \/ DoyOf(c.d) \in {1, 60, 61, 365, 366})) \/ VEmit(IOEnv.VOUT, [z |-> p.z, d |-> c.d, n |-> Cardinality(Changes)])
=============================================================================
