------------------------------ MODULE SolarGeometry ------------------------------
(* Sun and surface orientation as unit vectors (east, north, up): angle of   *)
(* incidence, projected zenith, tracker normals and slope geometry.          *)
EXTENDS Point

\* direction with the given zenith (or surface tilt) and compass azimuth
Dir(zen, az) == <<SinD(zen) ** SinD(az), SinD(zen) ** CosD(az), CosD(zen)>>
Dot(u, v) == ((u[1] ** v[1]) ++ (u[2] ** v[2])) ++ (u[3] ** v[3])
Cross(u, v) == <<(u[2] ** v[3]) -- (u[3] ** v[2]), (u[3] ** v[1]) -- (u[1] ** v[3]), (u[1] ** v[2]) -- (u[2] ** v[1])>>
Norm(u) == RSqrt(Dot(u, u))
Comb(a, u, b, v) == <<(a ** u[1]) ++ (b ** v[1]), (a ** u[2]) ++ (b ** v[2]), (a ** u[3]) ++ (b ** v[3])>>

Projection(tilt, saz, zen, az) == RClip(Dot(Dir(tilt, saz), Dir(zen, az)), "-1", "1")
Aoi(tilt, saz, zen, az) == Deg(RAcos(Projection(tilt, saz, zen, az)))
Beam(tilt, saz, zen, az, dni) == RMax(dni ** Projection(tilt, saz, zen, az), "0")

\* tracker frame: y along the axis (its azimuth end is the lower one for a
\* positive axis tilt), x horizontal and 90 degrees clockwise, z upward
AxX(axaz) == <<CosD(axaz), RNeg(SinD(axaz)), "0">>
AxZ(axt, axaz) == Dir(axt, axaz)
AxY(axt, axaz) == Cross(AxZ(axt, axaz), AxX(axaz))
PSZA(zen, az, axt, axaz) == LET s == Dir(zen, az) IN Deg(RAtan2(Dot(s, AxX(axaz)), Dot(s, AxZ(axt, axaz))))
TrackerNormal(theta, axt, axaz) == Comb(CosD(theta), AxZ(axt, axaz), SinD(theta), AxX(axaz))
\* angles are compared through sine and cosine, so 0 and 360 are the same
AngleCols(x, c, s) == LET v == c // RSqrt((c ** c) ++ (s ** s)) w == s // RSqrt((c ** c) ++ (s ** s)) IN <<v, w>>
\* |horizontal part| below which the surface azimuth is arbitrary
Flat(n) == RSqrt((n[1] ** n[1]) ++ (n[2] ** n[2]))
Orientation(theta, axt, axaz) ==
  LET n == TrackerNormal(theta, axt, axaz)  h == Flat(n)
      tilt == Deg(RAtan2(h, n[3]))
      level == (theta \doteq "0" /\ axt \doteq "0")
  IN  [surface_tilt |-> tilt,
       az_sin |-> IF level THEN SinD(axaz -- "90") ELSE IF h \prec "1e-6" THEN "?" ELSE n[1] // h,
       az_cos |-> IF level THEN CosD(axaz -- "90") ELSE IF h \prec "1e-6" THEN "?" ELSE n[2] // h,
       az_range |-> IF IsNaN(theta) THEN "?" ELSE "1"]
AxisTilt(saz, slope, axaz) ==  \* axis lying in the slope: its unit vector is orthogonal to the slope normal
  Deg(RAtan2(CosD(axaz -- saz) ** SinD(slope), CosD(slope)))
\* line common to the slope and the plane perpendicular to the axis; positive
\* when the slope falls toward the tracker's x direction
CrossTilt(saz, slope, axaz, axt) ==
  LET v == Cross(AxY(axt, axaz), Dir(slope, saz))
      x == Dot(v, AxX(axaz))  z == Dot(v, AxZ(axt, axaz))
  IN  Deg(RNeg(RAsin(z // Norm(v))))
=============================================================================
