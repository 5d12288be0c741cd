---------------------------- MODULE SunEventsOps ----------------------------
(* Sunrise, transit and sunset, and local solar time.  Instants are UTC day   *)
(* number and seconds of that day; a local date is a day number.              *)
EXTENDS SolarOps
\* seconds by which a reported event may be early or late
Slack == "60"
Horizon == "-0.8333"
\* instant moved by x seconds
Shift(t, x) == LET a == t.s ++ x  k == RFloor(a // "86400") IN [d |-> t.d + RToInt(k), s |-> a -- (k ** "86400")]
\* seconds from a to b
Between(a, b) == (SOfInt(b.d - a.d) ** "86400") ++ (b.s -- a.s)
Sun(t, dt, lat, lon) == SunAt(t.d, t.s, dt, lat, lon, "0", "101325", "12", "0.5667")
\* hour angle in (-180, 180]
Ha(w) == LET h == RMod(w.ha, "360") IN IF h \succ "180" THEN h -- "360" ELSE h
Missing(t) == t.s = "NaN"
\* the sun crosses elevation h upwards (dir "1") or downwards ("-1") within x seconds of t
Crosses(t, dt, lat, lon, h, dir, x) ==
  LET a == Sun(Shift(t, RNeg(x)), dt, lat, lon).elevation -- h
      b == Sun(Shift(t, x), dt, lat, lon).elevation -- h
  IN  (a ** dir) \preceq "0" /\ "0" \preceq (b ** dir)
\* highest and lowest sun around the transit at t
Highest(t, dt, lat, lon) == Sun(t, dt, lat, lon).elevation
Lowest(t, dt, lat, lon) == RMin(Sun(Shift(t, "-43200"), dt, lat, lon).elevation, Sun(Shift(t, "43200"), dt, lat, lon).elevation)
\* geometric events for local date ld: hour angle to instant
FromHourAngle(ld, ha, lon, eot) == Shift([d |-> ld, s |-> "43200"], (((ha -- lon) -- (eot // "4")) // "15") ** "3600")
HourAngle(t, ld, lon, eot) == RSum(<<"15" ** (Between([d |-> ld, s |-> "43200"], t) // "3600"), lon, eot // "4">>)
SunsetAngle(lat, dec) == LET x == RNeg(RTan(dec) ** TanD(lat)) IN IF RAbs(x) \succ "1" THEN "NaN" ELSE Deg(RAcos(x))
=============================================================================
