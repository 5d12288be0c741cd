------------------------------ MODULE ClearSky ------------------------------
(* Observations of pvlib.clearsky models, lookups, Location.get_clearsky.      *)
EXTENDS ClearSkyOps, FiniteSets

G(a, k, c, dflt) == IF c \in DOMAIN a THEN a[c] ELSE IF c \in DOMAIN k THEN k[c] ELSE dflt
Val(fn, a, k) ==
  CASE fn = "ineichen" -> Ineichen(a.apparent_zenith, a.airmass_absolute, a.linke_turbidity, G(a, k, "altitude", "0"), G(a, k, "dni_extra", "1364"), k.enh)
    [] fn = "haurwitz" -> [ghi |-> IF IsNaN(a.apparent_zenith) THEN "?" ELSE Haurwitz(a.apparent_zenith)]
    [] fn = "simplified_solis" -> Solis(a.apparent_elevation, G(a, k, "aod700", "0.1"), G(a, k, "precipitable_water", "1"), G(a, k, "pressure", "101325"), G(a, k, "dni_extra", "1364"))
    [] fn = "bird" -> Bird(a.zenith, a.airmass_relative, a.aod380, a.aod500, a.precipitable_water, G(a, k, "ozone", "0.3"), G(a, k, "pressure", "101325"),
                           G(a, k, "dni_extra", "1364"), G(a, k, "asymmetry", "0.85"), G(a, k, "albedo", "0.2"))
Tol(fn) == <<"1e-8", "1e-8">>

\* e.days: UTC day number of each time; the grid holds (13 r + 7 c + 17 m) % 251
GridVal(r, c, m) == SOfInt((13 * r + 7 * c + 17 * m) % 251)
LinkeOK(e, r, c) == LET lt == [m \in 1..12 |-> GridVal(r, c, m)]
                    IN  Len(e.out) = Len(e.days) /\ \A i \in 1..Len(e.days) : RClose(e.out[i], Linke(lt, e.days[i], e.interp), "1e-9", "1e-9")
LinkeClauses(e) ==
  IF ~OnGlobe(e.lat, e.lon) THEN Clause("linke.accepted-off-globe", e.exc # "")
  ELSE IF e.exc # "" THEN {"linke.raised-" \o e.exc}
  ELSE Clause("linke.value", \E r \in RowsOf(e.lat), c \in ColsOf(e.lon) : LinkeOK(e, r, c))
       \cup Clause("linke.index", e.index)
AltClauses(e) ==
  IF ~OnGlobe(e.lat, e.lon) THEN Clause("altitude.accepted-off-globe", e.exc # "")
  ELSE IF e.exc # "" THEN {"altitude.raised-" \o e.exc}
  ELSE Clause("altitude.value", \E r \in RowsOf(e.lat), c \in ColsOf(e.lon) :
         \E i \in 1..Len(e.cells) : e.cells[i][1] = r /\ e.cells[i][2] = c /\ e.out \doteq AltitudeOf(e.cells[i][3]))

\* Location.get_clearsky: each time's row from its own solar position
LocRow(e, i) ==
  LET z == e.zen[i]  el == e.el[i]
      p == IF e.pressure = "None" THEN AltToPres(e.altitude) ELSE e.pressure
      am == IF e.airmass # "None" THEN e.airmass ELSE AbsAirmass(RelAirmass(z, "kastenyoung1989"), AltToPres(e.altitude))
      i0 == e.extra[i]
  IN  CASE e.model = "ineichen" -> Ineichen(z, am, e.linke[i], e.altitude, i0, e.enh)
        [] e.model = "haurwitz" -> [ghi |-> Haurwitz(z)]
        [] e.model = "simplified_solis" -> Solis(el, e.aod, e.pw, p, i0)
LocClauses(e) ==
  IF e.model \notin {"ineichen", "haurwitz", "simplified_solis"} THEN Clause("location.bad-model-accepted", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"location.raised-" \o e.exc}
  ELSE LET want == [i \in 1..Len(e.zen) |-> LocRow(e, i)]
           cols == DOMAIN want[1]
       IN  Clause("location.columns", DOMAIN e.out = cols)
           \cup UNION {Clause("location." \o e.model \o "." \o c, c \in DOMAIN e.out => RSeqClose(e.out[c], [i \in 1..Len(e.zen) |-> want[i][c]], "1e-7", "1e-7")) : c \in cols}
           \cup Clause("location.index", e.index)
SInit(m) == "x"
SStep(m, st, e) ==
  <<st, CASE e.fn = "linke" -> LinkeClauses(e)
          [] e.fn = "altitude" -> AltClauses(e)
          [] e.fn = "location" -> LocClauses(e)
          [] OTHER -> PointClauses(e, Val, Tol)>>
=============================================================================
