------------------------------ MODULE LocTzMC ------------------------------
(* Every sequence of assignments: the zone is always a known one, refused     *)
(* assignments leave it, whole hours have that offset.                        *)
EXTENDS LocTz, IOUtils, FiniteSets
CONSTANTS Depth_
V(f, s, n) == [form |-> f, s |-> s, n |-> n]
Values == {V("str", "America/New_York", 0), V("str", "Etc/GMT+7", 0), V("str", "US/Arizona", 0), V("str", "UTC", 0), V("str", "Mars/Base", 0), V("str", "", 0), V("str", "Etc/GMT+13", 0),
           V("int", "", -12), V("int", "", -5), V("int", "", 0), V("int", "", 14), V("int", "", 15), V("int", "", -13), V("float", "", -7), V("float", "", 9), V("float", "", 40), V("npfloat", "", 3),
           V("fraction", "5.5", 0), V("fraction", "NaN", 0), V("fraction", "Infinity", 0), V("zoneinfo", "Asia/Kolkata", 0), V("pytz", "Europe/Berlin", 0), V("utc", "", 0), V("timezone", "", 6),
           V("half", "", 330), V("none", "", 0), V("list", "", 0), V("bytes", "UTC", 0)}
VARIABLES tz, hist
Init == tz = "UTC" /\ hist = <<>>
Next == Len(hist) < Depth_ /\ \E v \in Values : tz' \in After(tz, v) /\ hist' = Append(hist, v)
TypeOk == tz \in Names
Refused == [][\A v \in Values : (hist' = Append(hist, v) /\ MayDenote(v) = {}) => tz' = tz]_<<tz, hist>>
Hours == (hist # <<>> /\ hist[Len(hist)].form \in {"int", "float", "npfloat"} /\ MustAccept(hist[Len(hist)])) => Minutes(tz, 18000, "0") = 60 * hist[Len(hist)].n
Distinct == \A n, m \in -12..14 : EtcName(n) = EtcName(m) => n = m
Emit == Len(hist) < Depth_ \/ VEmit(IOEnv.VOUT, hist)
=============================================================================
