------------------------------ MODULE SolarPos ------------------------------
(* Observations of pvlib.solarposition.get_solarposition and its methods.     *)
EXTENDS SolarOps, FiniteSets

Alt(e) == IF e.altitude = "None" THEN (IF e.pressure = "None" THEN "0" ELSE PresToAlt(e.pressure)) ELSE e.altitude
Pres(e) == IF e.pressure = "None" THEN (IF e.altitude = "None" THEN "101325" ELSE AltToPres(e.altitude)) ELSE e.pressure
Dt(e, i) == IF e.delta_t = "None" THEN DeltaT(YearOf(e.d[i]), MonthOf(e.d[i])) ELSE e.delta_t
Hor(e) == IF e.atmos_refract = "None" THEN "0.5667" ELSE e.atmos_refract
N(e) == Len(e.d)
Undefined(e, i) == e.s[i] = "NaN"     \* missing time

Near90(x, y) == RClose(x ++ y, "90", "0", "1e-9")
Common(e) ==
  LET o == e.out IN
  UNION {IF Undefined(e, i) THEN {} ELSE
     Clause("pos.zenith-elevation", Near90(o.zenith[i], o.elevation[i]) /\ Near90(o.apparent_zenith[i], o.apparent_elevation[i]))
     \cup Clause("pos.azimuth-range", "0" \preceq o.azimuth[i] /\ o.azimuth[i] \preceq "360")
     \cup Clause("pos.refraction-sign", (o.elevation[i] -- "0.0001") \preceq o.apparent_elevation[i])
     : i \in 1..N(e)}

SpaRow(e, i) ==
  LET o == e.out IN
  IF Undefined(e, i) THEN Clause("pos.missing-time", IsNaN(o.zenith[i]) /\ IsNaN(o.azimuth[i]))
  ELSE LET g == Geocentric(e.d[i], e.s[i], Dt(e, i))
           w == Topo(g, e.lat, e.lon, Alt(e), Pres(e), e.temperature, Hor(e))
           \* the refraction switch is not decided within rounding of the horizon
           edge == RAbs(w.elevation ++ ("0.26667" ++ Hor(e))) \preceq "1e-5"
       IN  Clause("pos.place@" \o SOfInt(i), Apart(o.elevation[i], o.azimuth[i], w.elevation, w.azimuth) \preceq "5e-6")
           \cup Clause("pos.apparent@" \o SOfInt(i), edge \/ RClose(o.apparent_elevation[i], w.apparent_elevation, "0", "1e-5"))
           \cup (IF "equation_of_time" \in DOMAIN o THEN Clause("pos.equation-of-time@" \o SOfInt(i), RClose(o.equation_of_time[i], w.equation_of_time, "0", "5e-6")) ELSE {})

EphRow(e, i) ==
  LET o == e.out IN
  IF Undefined(e, i) THEN Clause("pos.missing-time", IsNaN(o.zenith[i]) /\ IsNaN(o.azimuth[i]))
  ELSE LET w == Ephem(e.d[i], e.s[i], e.lat, e.lon)
           r == EphRefraction(o.elevation[i], Pres(e), e.temperature)
       IN  Clause("pos.place@" \o SOfInt(i), Apart(o.elevation[i], o.azimuth[i], w.elevation, w.azimuth) \preceq "3e-4")
           \cup Clause("pos.apparent@" \o SOfInt(i), RClose(o.apparent_elevation[i] -- o.elevation[i], r, "1e-6", "1e-9"))
           \cup Clause("pos.solar-time@" \o SOfInt(i), LET x == RMod(o.solar_time[i] -- w.solar_time, "24") IN RMin(x, "24" -- x) \preceq "1e-4")
EphemRow(e, i) ==
  LET o == e.out
      w == SunAt(e.d[i], e.s[i], "67", e.lat, e.lon, Alt(e), Pres(e), e.temperature, "0.5667")
  IN  Clause("pos.place@" \o SOfInt(i), Apart(o.elevation[i], o.azimuth[i], w.elevation, w.azimuth) \preceq "0.01")
      \cup Clause("pos.apparent@" \o SOfInt(i), IF o.elevation[i] \succ "0" THEN RClose(o.apparent_elevation[i], w.apparent_elevation, "0", IF o.elevation[i] \succ "10" THEN "0.012" ELSE "0.2")
                                               ELSE (o.apparent_elevation[i] \preceq (o.elevation[i] ++ "3")))  \* PyEphem's own model below the horizon
      \* two refraction models, of the same pressure and temperature
      \cup Clause("pos.refraction@" \o SOfInt(i), o.elevation[i] \preceq "0" \/ RClose(o.apparent_elevation[i] -- o.elevation[i], w.apparent_elevation -- w.elevation, "0.08", "2e-4"))
      \cup Clause("pos.apparent-azimuth@" \o SOfInt(i), LET x == RMod(o.apparent_azimuth[i] -- o.azimuth[i], "360") IN (RMin(x, "360" -- x) ** CosD(o.elevation[i])) \preceq "0.01")
\* the C extension is replaced by a recorder: what it is asked to compute
SpaCRow(e, i) ==
  LET a == e.asked[i] IN
  Clause("pos.spa_c-time@" \o SOfInt(i), DayNum(a.year, a.month, a.day) = e.d[i] /\
         RClose(RSum(<<SOfInt(3600 * a.hour), SOfInt(60 * a.minute), a.second>>), e.s[i], "0", "2e-6") /\ a.time_zone \doteq "0")
  \cup Clause("pos.spa_c-arguments", /\ a.latitude \doteq e.lat /\ a.longitude \doteq e.lon /\ RClose(a.elevation, Alt(e), "1e-9", "1e-9")
         /\ RClose(a.pressure, Pres(e) // "100", "1e-9", "0") /\ a.temperature \doteq e.temperature /\ a.delta_t \doteq Dt(e, i))
Methods == {"nrel_numpy", "nrel_numba", "pyephem", "ephemeris", "nrel_c"}
PosClauses(e) ==
  LET m == SLower(e.method) IN
  IF m \notin Methods THEN Clause("pos.unknown-method-accepted", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"pos.raised-" \o e.exc}
  ELSE IF Len(e.out.zenith) # N(e) THEN {"pos.rows"}
  ELSE Clause("pos.index", e.index)
       \cup Common(e)
       \cup UNION {CASE m \in {"nrel_numpy", "nrel_numba"} -> SpaRow(e, i)
                     [] m = "ephemeris" -> EphRow(e, i)
                     [] m = "pyephem" -> EphemRow(e, i)
                     [] m = "nrel_c" -> SpaCRow(e, i) : i \in 1..N(e)}

OtherClauses(e) ==
  CASE e.kind = "distance" -> IF e.exc # "" THEN {"distance.raised-" \o e.exc} ELSE
          Clause("distance." \o e.how, Len(e.out) = N(e) /\ \A i \in 1..N(e) : RClose(e.out[i], Radius(e.d[i], e.s[i], Dt(e, i)), "0", IF e.how = "pyephem" THEN "5e-5" ELSE "1e-9"))
          \cup Clause("distance.index", e.index)
    [] e.kind = "deltat" -> Clause("deltat", Len(e.out) = Len(e.year) /\ \A i \in 1..Len(e.year) : RClose(e.out[i], DeltaT(e.year[i], e.month[i]), "1e-9", "1e-6"))
    [] e.kind = "jd" -> Clause("julian-day", RClose(e.out, RSum(<<SOfInt(DayNum(e.y, e.m, e.dom)), "2440587.5", e.secs // "86400">>), "0", "2e-9"))
    \* the sun has the requested altitude / azimuth at the time found
    [] e.kind = "calc_time" -> IF e.exc # "" THEN {"calc_time.raised-" \o e.exc} ELSE
          LET w == SunAt(e.d[1], e.s[1], "67", e.lat, e.lon, e.altitude, e.pressure, e.temperature, "0.5667")
          IN  Clause("calc_time.attribute", IF e.attribute = "alt" THEN RClose(w.apparent_elevation, Deg(e.value), "0", IF Deg(e.value) \succ "10" THEN "0.02" ELSE "0.2")
                                          ELSE LET x == RMod(w.azimuth -- Deg(e.value), "360") IN RMin(x, "360" -- x) \preceq "0.02")
              \cup Clause("calc_time.bounds", e.inside)
    [] e.kind = "zenith_analytical" -> Clause("zenith_analytical@" \o e.form, e.exc = "" /\ Len(e.out) = Len(e.lat) /\ \A i \in 1..Len(e.lat) :
          RClose(RCos(e.out[i]), RCos(ZenithAnalytical(e.lat[i], e.ha[i], e.dec[i])), "0", "1e-9"))
    [] e.kind = "azimuth_analytical" -> Clause("azimuth_analytical@" \o e.form, e.exc = "" /\ Len(e.out) = Len(e.lat) /\ \A i \in 1..Len(e.lat) :
          LET w == AzimuthTrue(e.lat[i], e.ha[i], e.dec[i])
              z == ZenithAnalytical(e.lat[i], e.ha[i], e.dec[i])
              d == e.out[i] -- w
          IN  \* undefined at the poles and with the sun in the zenith or nadir
              IF IsNaN(e.lat[i]) \/ IsNaN(e.ha[i]) \/ IsNaN(e.dec[i]) THEN IsNaN(e.out[i]) ELSE
              \/ RAbs(RCos(e.lat[i])) \preceq "1e-6" \/ RAbs(RSin(z)) \preceq "1e-5"
              \/ ("-1e-9" \preceq e.out[i] /\ e.out[i] \preceq (("2" ** Pi) ++ "1e-9") /\
                  RAbs(RSin(d // "2")) \preceq ("0.0002" // RSin(z))))
SInit(m) == "x"
SStep(m, st, e) == <<st, IF e.kind = "pos" THEN PosClauses(e) ELSE OtherClauses(e)>>
=============================================================================
