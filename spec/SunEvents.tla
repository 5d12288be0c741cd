------------------------------ MODULE SunEvents ------------------------------
(* Observations of sun_rise_set_transit_* and of hour-angle conversions.      *)
EXTENDS SunEventsOps, FiniteSets
Same(a, b) == IF Missing(a) \/ Missing(b) THEN Missing(a) /\ Missing(b) ELSE a = b
About(a, b, x) == IF Missing(a) \/ Missing(b) THEN Missing(a) /\ Missing(b) ELSE RAbs(Between(a, b)) \preceq x
\* one row of the SPA method: r has ld (local date), sunrise, transit, sunset, tld (local date of the transit)
SpaClauses(e, r) ==
  LET dt == IF e.delta_t = "None" THEN DeltaT(YearOf(r.d), MonthOf(r.d)) ELSE e.delta_t
      \* days whose transit lies at the very end of the UTC day may be counted for either
      edge == RMin(r.transit.s, "86400" -- r.transit.s) \preceq "120"
              \/ RMin(r.tls, "86400" -- r.tls) \preceq "120"
      hi == Highest(r.transit, dt, e.lat, e.lon)
      lo == Lowest(r.transit, dt, e.lat, e.lon)
      \* SPA solves for the crossing within the UTC day of the transit and moves it by whole days
      Rises(t, dir) == \E k \in {"0", "86400", "-86400"} : Crosses(Shift(t, k), dt, e.lat, e.lon, Horizon, dir, Slack)
      grazing == (RAbs(hi -- Horizon) \preceq "0.7") \/ (RAbs(lo -- Horizon) \preceq "0.7")
  IN  IF Missing(r.transit) THEN {"rise.transit-missing"} ELSE
      Clause("rise.transit-date", edge \/ r.tld = r.ld)
      \cup Clause("rise.transit-noon", RAbs(Ha(Sun(r.transit, dt, e.lat, e.lon))) \preceq "0.05")
      \cup Clause("rise.missing-together", Missing(r.sunrise) <=> Missing(r.sunset))
      \cup (IF Missing(r.sunrise) \/ Missing(r.sunset)
            THEN Clause("rise.missing-without-cause", hi \preceq (Horizon ++ "0.5") \/ (Horizon -- "0.5") \preceq lo)
            ELSE Clause("rise.reported-on-polar-day", (Horizon -- "0.5") \preceq hi /\ lo \preceq (Horizon ++ "0.5"))
                 \cup Clause("rise.order", LET a == Between(r.sunrise, r.transit) b == Between(r.transit, r.sunset)
                        IN "0" \preceq a /\ a \preceq "43800" /\ "0" \preceq b /\ b \preceq "43800")
                 \cup Clause("rise.sunrise-horizon", grazing \/ Rises(r.sunrise, "1"))
                 \cup Clause("rise.sunset-horizon", grazing \/ Rises(r.sunset, "-1")))
GeoClauses(e, r) ==
  LET h == SunsetAngle(e.lat, r.dec)
      w(ha) == IF IsNaN(ha) THEN [d |-> 0, s |-> "NaN"] ELSE FromHourAngle(r.ld, ha, e.lon, r.eot)
  IN  Clause("rise.geometric", About(r.transit, w("0"), "0.001") /\ About(r.sunrise, w(RNeg(h)), "0.001") /\ About(r.sunset, w(h), "0.001"))
\* PyEphem: the events next to (after or before) the time itself; the upper limb touches the horizon
EphemClauses(e, r) ==
  LET t == [d |-> r.d, s |-> r.s]
      sg == IF SLower(e.next) = "next" THEN "1" ELSE "-1"
      gap(x) == sg ** Between(t, x)
      limb(x, y) == LET w == SunAt(Shift(x, y).d, Shift(x, y).s, "67", e.lat, e.lon, e.altitude, e.pressure, e.temperature, "3")
                        el == IF e.pressure \doteq "0" THEN w.elevation ELSE w.apparent_elevation
                    IN  (el ++ "0.2666") -- e.horizon
      \* PyEphem's refraction differs from SPA's low in the sky: an elevation tolerance there
      meets(x, dir) == IF e.pressure \doteq "0"
                       THEN (dir ** limb(x, "-15")) \prec "0" /\ "0" \prec (dir ** limb(x, "15"))
                       ELSE RAbs(limb(x, "0")) \preceq "0.5" /\ (dir ** limb(x, "-300")) \prec (dir ** limb(x, "300"))
  IN  Clause("rise.ephem-side", \A x \in {r.sunrise, r.transit, r.sunset} : "-0.01" \preceq gap(x) /\ gap(x) \preceq "88200")
      \cup Clause("rise.ephem-transit", RAbs(Ha(Sun(r.transit, "67", e.lat, e.lon))) \preceq "0.02")
      \cup Clause("rise.ephem-sunrise", meets(r.sunrise, "1"))
      \cup Clause("rise.ephem-sunset", meets(r.sunset, "-1"))
RiseClauses(e) ==
  IF e.bad # "" THEN Clause("rise.bad-input-accepted@" \o e.bad, e.exc = "ValueError")
  ELSE IF e.exc # "" THEN
       \* PyEphem refuses days without rising or setting
       Clause("rise.raised-" \o e.exc, e.method = "pyephem" /\ e.exc \in {"AlwaysUpError", "NeverUpError"} /\
              \E r \in {e.rows[i] : i \in 1..Len(e.rows)} : RAbs(e.lat) \succ "60")
  ELSE Clause("rise.index", e.index) \cup Clause("rise.zone", e.zone)
       \cup Clause("rise.same-date-same-answer", e.method = "pyephem" \/ e.method = "geometric" \/ e.delta_t = "None" \/ \A i, j \in 1..Len(e.rows) :
              e.rows[i].ld = e.rows[j].ld => Same(e.rows[i].sunrise, e.rows[j].sunrise) /\ Same(e.rows[i].transit, e.rows[j].transit) /\ Same(e.rows[i].sunset, e.rows[j].sunset))
       \cup UNION {CASE e.method = "spa" -> SpaClauses(e, e.rows[i])
                     [] e.method = "geometric" -> GeoClauses(e, e.rows[i])
                     [] e.method = "pyephem" -> EphemClauses(e, e.rows[i]) : i \in 1..Len(e.rows)}
\* hour angle of local times, and its inverses
HaClauses(e) ==
  IF e.bad THEN Clause("hour-angle.bad-input-accepted", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"hour-angle.raised-" \o e.exc}
  ELSE UNION {LET r == e.rows[i] t == [d |-> r.d, s |-> r.s]
              IN  Clause("hour-angle.value", RClose(r.ha, HourAngle(t, r.ld, e.lon, r.eot), "1e-9", "1e-6"))
                  \* wall-clock hours since local midnight
                  \cup Clause("hour-angle.hours", RClose(r.hours, r.wall // "3600", "1e-9", "1e-8"))
                  \cup Clause("hour-angle.round-trip", About(r.back, t, "0.001"))
              : i \in 1..Len(e.rows)}
SInit(m) == "x"
SStep(m, st, e) == <<st, IF e.kind = "rise" THEN RiseClauses(e) ELSE HaClauses(e)>>
=============================================================================
