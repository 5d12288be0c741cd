---------------------------- MODULE SunEventsMC ----------------------------
(* The specified geometric events are events: the hour angle at each is the   *)
(* one asked for, the sun of the specified SPA crosses the horizon near them, *)
(* and hour angles and instants invert each other.                            *)
EXTENDS SunEventsOps, IOUtils
CONSTANT Days_
VARIABLES p, c
Lats == {"-75", "-66.3", "-50", "-23.4", "0", "10", "35", "51.5", "64", "71", "89"}
Lons == {"-179.9", "-105", "0", "13.4", "139", "178"}
Init == c = [on |-> FALSE] /\ \E d \in Days_ : p = d
Next == ~c.on /\ UNCHANGED p /\ \E lat \in Lats, lon \in Lons : c' = [on |-> TRUE, lat |-> lat, lon |-> lon]
W == Sun([d |-> p, s |-> "43200"], "67", c.lat, c.lon)
G == Geocentric(p, "43200", "67")
Eot == G.eot
Tr == FromHourAngle(p, "0", c.lon, Eot)
Set == SunsetAngle(c.lat, Rad(G.delta))
Invert == c.on => \A h \in {"-170", "-30.5", "0", "95"} : RClose(HourAngle(FromHourAngle(p, h, c.lon, Eot), p, c.lon, Eot), h, "0", "1e-7")
NoonIsNoon == c.on => RAbs(Ha(Sun(Tr, "67", c.lat, c.lon))) \preceq "0.15"
\* without refraction and disc: the sun's centre crosses elevation 0 within the day's drift of declination
Horizontal == (c.on /\ ~IsNaN(Set) /\ RAbs(c.lat) \preceq "51.5") =>
     /\ Crosses(FromHourAngle(p, Set, c.lon, Eot), "67", c.lat, c.lon, "0", "-1", "180")
     /\ Crosses(FromHourAngle(p, RNeg(Set), c.lon, Eot), "67", c.lat, c.lon, "0", "1", "180")
Polar == c.on => (IsNaN(Set) => (Highest(Tr, "67", c.lat, c.lon) \preceq "0.5" \/ "-0.5" \preceq Lowest(Tr, "67", c.lat, c.lon)))
Emit == ~c.on \/ VEmit(IOEnv.VOUT, [d |-> p, lat |-> c.lat, lon |-> c.lon])
=============================================================================
