---------------------------- MODULE SolarPosMC ----------------------------
(* The specified methods agree within their documented accuracy and obey the  *)
(* geometric identities, over a grid of instants and places.                  *)
EXTENDS SolarPos, IOUtils
CONSTANT Days_
VARIABLES p, c
Lats == {"-90", "-66.6", "-23.4", "0", "10", "35", "51.5", "71", "90"}
Lons == {"-180", "-105", "0", "13.4", "139", "179.9"}
Secs == {"0", "1800", "21600", "35000", "43200", "64801.5", "86399.999"}
Init == c = [on |-> FALSE] /\ \E d \in Days_, s \in Secs : p = [d |-> d, s |-> s]
Next == ~c.on /\ UNCHANGED p /\ \E lat \in Lats, lon \in Lons : c' = [on |-> TRUE, lat |-> lat, lon |-> lon]
G == Geocentric(p.d, p.s, "67")
W == Topo(G, c.lat, c.lon, "0", "101325", "12", "0.5667")
E == Ephem(p.d, p.s, c.lat, c.lon)
Agree == c.on => LET w == W e == E IN Apart(w.elevation, w.azimuth, e.elevation, e.azimuth) \preceq "0.02"
Ranges == c.on => LET w == W IN /\ "0" \preceq w.azimuth /\ w.azimuth \prec "360" /\ RAbs(w.elevation) \preceq "90"
                                /\ RAbs(w.equation_of_time) \prec "17.5" /\ (w.elevation -- "0.0001") \preceq w.apparent_elevation
Orbit == LET r == Radius(p.d, p.s, "67") IN "0.983" \prec r /\ r \prec "1.017"
Obliquity == LET g == G IN RAbs(g.delta) \preceq "23.46"
\* a full turn of longitude changes nothing; 15 degrees of longitude is an hour of time
Turn == c.on => LET w == W v == Topo(G, c.lat, c.lon ++ "360", "0", "101325", "12", "0.5667") IN Apart(w.elevation, w.azimuth, v.elevation, v.azimuth) \preceq "1e-6"
Emit == ~c.on \/ VEmit(IOEnv.VOUT, [d |-> p.d, s |-> p.s, lat |-> c.lat, lon |-> c.lon])
=============================================================================
