------------------------------ MODULE Geometry ------------------------------
(* Observations of the geometry functions (operators in SolarGeometry).      *)
EXTENDS SolarGeometry

Val(fn, a, k) ==
  CASE fn = "aoi" -> [y |-> Aoi(a.surface_tilt, a.surface_azimuth, a.solar_zenith, a.solar_azimuth)]
    [] fn = "aoi_projection" -> [y |-> Projection(a.surface_tilt, a.surface_azimuth, a.solar_zenith, a.solar_azimuth)]
    [] fn = "beam_component" -> [y |-> Beam(a.surface_tilt, a.surface_azimuth, a.solar_zenith, a.solar_azimuth, a.dni)]
    [] fn = "projected_solar_zenith_angle" ->
        LET s == Dir(a.solar_zenith, a.solar_azimuth)
            x == Dot(s, AxX(a.axis_azimuth)) z == Dot(s, AxZ(a.axis_tilt, a.axis_azimuth))
            h == RSqrt((x ** x) ++ (z ** z))
        IN  IF h \prec "1e-6" THEN [y_sin |-> "?", y_cos |-> "?", y_range |-> "1"]
            ELSE [y_sin |-> x // h, y_cos |-> z // h, y_range |-> IF IsNaN(h) THEN "?" ELSE "1"]
    [] fn = "calc_surface_orientation" -> Orientation(a.tracker_theta, k.axis_tilt, k.axis_azimuth)
    [] fn = "calc_axis_tilt" -> [y |-> AxisTilt(a.slope_azimuth, a.slope_tilt, a.axis_azimuth)]
    [] fn = "calc_cross_axis_tilt" -> [y |-> CrossTilt(a.slope_azimuth, a.slope_tilt, a.axis_azimuth, a.axis_tilt)]
    [] fn = "cosd" -> [y |-> CosD(a.angle)] [] fn = "sind" -> [y |-> SinD(a.angle)] [] fn = "tand" -> [y |-> TanD(a.angle)]
    [] fn = "acosd" -> [y |-> Deg(RAcos(a.number))] [] fn = "asind" -> [y |-> Deg(RAsin(a.number))] [] fn = "atand" -> [y |-> Deg(RAtan(a.number))]
Tol(fn) == IF fn \in {"aoi", "calc_surface_orientation"} THEN <<"1e-8", "3e-6">> ELSE <<"1e-8", "1e-8">>

SInit(m) == "x"
SStep(m, st, e) ==
  LET nan == {c \in DOMAIN (IF e.exc = "" THEN e.out ELSE <<>>) :
               \E i \in 1..Len(e.out[c]) : IsNaN(e.out[c][i]) /\ \A x \in DOMAIN e.a : RIsFinite(e.a[x][i])}
  IN  <<st, PointClauses(e, Val, Tol) \cup {e.fn \o ".nan-for-finite-input" : c \in nan}>>
=============================================================================
