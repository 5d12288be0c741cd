---------------------------- MODULE CalendarObs ----------------------------
(* Observations of calendar quantities: extraterrestrial irradiance, equation *)
(* of time, declination, hour angle, Dublin Julian days, localization.        *)
EXTENDS SunEventsOps, Decomp, Zones
\* an item is a day of year (number) or an instant
Doy(x, e) == IF x.doy # "" THEN x.doy ELSE SOfInt(DoyOf(x.d))
\* day of year as an instant of the epoch year
Inst(x, e) == IF x.doy = "" THEN [d |-> x.d, s |-> x.s]
              ELSE LET k == RFloor(x.doy) IN [d |-> Jan1(e.epoch) + RToInt(k) - 1, s |-> (x.doy -- k) ** "86400"]
ExtraMethods == {"asce", "spencer", "nrel", "pyephem"}
Extra(e, x) == LET m == SLower(e.method) t == Inst(x, e) IN
   CASE m = "asce" -> Asce(Doy(x, e), e.constant)
     [] m = "spencer" -> Spencer(Doy(x, e), e.constant)
     [] OTHER -> e.constant // (Radius(t.d, t.s, IF e.delta_t = "None" THEN DeltaT(YearOf(t.d), MonthOf(t.d)) ELSE e.delta_t) ^^ "2")
ExtraClauses(e) ==
  IF SLower(e.method) \notin ExtraMethods THEN Clause("extra.unknown-method-accepted", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"extra.raised-" \o e.exc}
  ELSE Clause("extra.form@" \o e.form, e.shape)
       \cup Clause("extra." \o SLower(e.method) \o "@" \o e.form, Len(e.out) = Len(e.x) /\ \A i \in 1..Len(e.x) :
              RClose(e.out[i], Extra(e, e.x[i]), IF SLower(e.method) = "pyephem" THEN "1e-4" ELSE "1e-8", "0"))
\* functions of the day of year
Cooper(doy) == Rad("23.45" ** RSin((("2" ** Pi) // "365") ** (doy ++ "284")))
DeclSpencer(doy) == LET b == DayAngle(doy, "1") IN
   RSum(<<"0.006918", "-0.399912" ** RCos(b), "0.070257" ** RSin(b), "-0.006758" ** RCos("2" ** b), "0.000907" ** RSin("2" ** b), "-0.002697" ** RCos("3" ** b), "0.00148" ** RSin("3" ** b)>>)
EotSpencer(doy) == LET b == DayAngle(doy, "1") IN
   ("720" // Pi) ** RSum(<<"0.0000075", "0.001868" ** RCos(b), "-0.032077" ** RSin(b), "-0.014615" ** RCos("2" ** b), "-0.040849" ** RSin("2" ** b)>>)
EotPvcdrom(doy) == LET b == (("2" ** Pi) // "365") ** (doy -- "81") IN
   RSum(<<"9.87" ** RSin("2" ** b), "-7.53" ** RCos(b), "-1.5" ** RSin(b)>>)
DoyFn(fn, doy) == CASE fn = "equation_of_time_spencer71" -> EotSpencer(doy) [] fn = "equation_of_time_pvcdrom" -> EotPvcdrom(doy)
                    [] fn = "declination_spencer71" -> DeclSpencer(doy) [] fn = "declination_cooper69" -> Cooper(doy)
\* Dublin Julian day: days since 1899-12-31 12:00 UTC
Djd(t) == (SOfInt(t.d - DayNum(1899, 12, 31)) -- "0.5") ++ (t.s // "86400")
SameInstant(a, b, x) == RAbs(Between(a, b)) \preceq x
Step(e) ==
  CASE e.kind = "extra" -> ExtraClauses(e)
    [] e.kind = "doy" -> IF e.exc # "" THEN {e.fn \o ".raised-" \o e.exc} ELSE
          Clause(e.fn \o "@" \o e.form, Len(e.out) = Len(e.doy) /\ \A i \in 1..Len(e.doy) : RClose(e.out[i], DoyFn(e.fn, e.doy[i]), "1e-9", "1e-9"))
          \cup Clause(e.fn \o ".form", e.shape)
    \* the same time in any representation gives the same result
    [] e.kind = "reps" -> IF e.exc # "" THEN {e.fn \o ".raised-" \o e.exc} ELSE
          Clause(e.fn \o ".representation", \A i \in 2..Len(e.outs) : RSeqClose(e.outs[i], e.outs[1], "1e-12", "1e-12"))
    [] e.kind = "djd" -> Clause("djd.forward", RClose(e.djd, Djd(e.t), "0", "1e-9")) \cup Clause("djd.back", SameInstant(e.back, e.t, "1e-4"))
          \cup Clause("djd.zone", SameInstant(e.wall, Wall(e.zone, e.t), "1e-3"))
    \* wall clock read in the location's zone, aware times only converted
    [] e.kind = "utc" -> IF e.exc # "" THEN {"localize.raised-" \o e.exc} ELSE
          Clause("localize.utc", \A i \in 1..Len(e.out) :
             IF e.aware THEN SameInstant(e.out[i], e.t[i], "0")
             ELSE \E v \in Instants(e.zone, e.t[i]) : SameInstant(e.out[i], v, "1e-6"))
          \cup Clause("localize.values-kept", e.kept)
    [] e.kind = "hour" -> IF e.exc # "" THEN {"hour-angle.raised-" \o e.exc} ELSE
          Clause("hour-angle.index", Len(e.rows) = e.n) \cup
          UNION {LET r == e.rows[i]
                     t == [d |-> r.d, s |-> r.s]
                     w == Wall(e.zone, t)
                 IN  Clause("hour-angle.value", RClose(r.ha, HourAngle(t, w.d, e.lon, r.eot), "1e-9", "1e-6"))
                     \cup Clause("hour-angle.hours", r.hours = "skip" \/ RClose(r.hours, w.s // "3600", "1e-9", "1e-8"))
                     \cup Clause("hour-angle.round-trip", r.back.s = "skip" \/ SameInstant(r.back, t, "0.001"))
                 : i \in 1..Len(e.rows)}
SInit(m) == "x"
SStep(m, st, e) == <<st, Step(e)>>
=============================================================================
