------------------------------- MODULE LocTz -------------------------------
(* A Location's timezone: the zone named by its views after every accepted or *)
(* rejected assignment.  A value v is [form, s, n]: a name, whole or broken   *)
(* hours, or an object of another kind.                                       *)
EXTENDS Zones, TLC
EtcName(n) == "Etc/GMT" \o (IF n <= 0 THEN "+" ELSE "-") \o SOfInt(IF n < 0 THEN -n ELSE n)
\* names standing for a fixed number of hours
Same0 == {"Etc/GMT+0", "Etc/GMT-0", "Etc/GMT0", "Etc/GMT", "GMT", "UTC", "Etc/UTC"}
HourNames(n) == IF n = 0 THEN Same0 ELSE {EtcName(n)}
Names == KnownZones \cup {EtcName(n) : n \in -12..14} \cup Same0 \cup {"US/Arizona", "MST", "EST", "America/Santiago", "Europe/London"}
\* the zones v may denote; {} when it has to be refused
Denotes(v) ==
  CASE v.form \in {"str", "zoneinfo", "pytz"} -> IF v.s \in Names THEN {v.s} ELSE {}
    [] v.form \in {"int", "float", "npfloat"} -> IF -12 <= v.n /\ v.n <= 14 THEN HourNames(v.n) ELSE {}
    [] v.form = "utc" -> Same0
    [] OTHER -> {}
\* fixed-offset objects without a name are refused or taken as the zone with that offset
MayDenote(v) == IF v.form = "timezone" /\ -12 <= v.n /\ v.n <= 14 THEN HourNames(v.n) ELSE Denotes(v)
MustAccept(v) == Denotes(v) # {}
\* new state set for an assignment
After(tz, v) == Denotes(v) \cup (IF MustAccept(v) THEN {} ELSE {tz} \cup MayDenote(v))
\* minutes east of UTC of a named zone at an instant; 9999 = not specified here
Minutes(z, d, s) ==
  CASE z \in KnownZones -> OffsetMin(z, d, s)
    [] z \in Same0 -> 0
    [] z \in {"US/Arizona", "MST"} -> -420
    [] z = "EST" -> -300
    [] \E n \in -12..14 : z = EtcName(n) -> 60 * (CHOOSE n \in -12..14 : z = EtcName(n))
    [] OTHER -> 9999
=============================================================================
