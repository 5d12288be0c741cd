----------------------------- MODULE GeometryMC -----------------------------
EXTENDS Geometry, IOUtils
VARIABLE c
Tilts == {"0", "20", "90", "135", "180"}
Azs == {"0", "77.5", "180", "270", "360", "-90"}
Zens == {"0", "33.3", "89.9999", "90", "120", "180"}
SunAzs == {"0", "77.5", "180", "257.5", "450"}
AxTs == {"0", "15", "-30", "90"}
Thetas == {"0", "30", "-45", "90", "-90", "180"}
Init ==
  \/ \E t \in Tilts, g \in Azs, z \in Zens, s \in SunAzs, f \in {"aoi", "aoi_projection"} :
      c = [fn |-> f, a |-> [surface_tilt |-> t, surface_azimuth |-> g, solar_zenith |-> z, solar_azimuth |-> s], k |-> <<>>]
  \/ \E t \in {"0", "40", "90"}, g \in {"0", "180"}, z \in Zens, s \in {"0", "77.5"}, d \in {"0", "800", "-1"} :
      c = [fn |-> "beam_component", a |-> [surface_tilt |-> t, surface_azimuth |-> g, solar_zenith |-> z, solar_azimuth |-> s, dni |-> d], k |-> <<>>]
  \/ \E z \in Zens, s \in SunAzs, t \in AxTs, g \in Azs :
      c = [fn |-> "projected_solar_zenith_angle", a |-> [solar_zenith |-> z, solar_azimuth |-> s, axis_tilt |-> t, axis_azimuth |-> g], k |-> <<>>]
  \/ \E t \in AxTs, g \in Azs, th \in Thetas :
      c = [fn |-> "calc_surface_orientation", a |-> [tracker_theta |-> th], k |-> [axis_tilt |-> t, axis_azimuth |-> g]]
  \/ \E s \in SunAzs, g \in Azs, t \in {"0", "10", "35"} :
      \/ c = [fn |-> "calc_axis_tilt", a |-> [slope_azimuth |-> s, slope_tilt |-> t, axis_azimuth |-> g], k |-> <<>>]
      \/ \E b \in {AxisTilt(s, t, g), "0", "20"} :
          c = [fn |-> "calc_cross_axis_tilt", a |-> [slope_azimuth |-> s, slope_tilt |-> t, axis_azimuth |-> g, axis_tilt |-> b], k |-> <<>>]
  \/ \E x \in {"0", "30", "-90", "180", "360", "725.5"}, f \in {"cosd", "sind"} : c = [fn |-> f, a |-> [angle |-> x], k |-> <<>>]
  \/ \E x \in {"0", "30", "-45", "60"} : c = [fn |-> "tand", a |-> [angle |-> x], k |-> <<>>]
  \/ \E x \in {"0", "0.5", "-1", "1"}, f \in {"acosd", "asind", "atand"} : c = [fn |-> f, a |-> [number |-> x], k |-> <<>>]
Next == UNCHANGED c
A == c.a
IsP == c.fn = "aoi_projection"
P(t, g, z, s) == Projection(t, g, z, s)
Eq(x, y) == RClose(x, y, "1e-9", "1e-9")
Bounded == IsP => LET p == P(A.surface_tilt, A.surface_azimuth, A.solar_zenith, A.solar_azimuth) IN "-1" \preceq p /\ p \preceq "1"
FullTurn == IsP => \A d \in {"360", "-360", "720"} :
   Eq(P(A.surface_tilt, A.surface_azimuth, A.solar_zenith, A.solar_azimuth), P(A.surface_tilt, A.surface_azimuth ++ d, A.solar_zenith, A.solar_azimuth))
CommonTurn == IsP => \A d \in {"33", "-120"} :
   Eq(P(A.surface_tilt, A.surface_azimuth, A.solar_zenith, A.solar_azimuth), P(A.surface_tilt, A.surface_azimuth ++ d, A.solar_zenith, A.solar_azimuth ++ d))
Swap == IsP => Eq(P(A.surface_tilt, A.surface_azimuth, A.solar_zenith, A.solar_azimuth), P(A.solar_zenith, A.solar_azimuth, A.surface_tilt, A.surface_azimuth))
Facing == IsP => Eq(P(A.solar_zenith, A.solar_azimuth, A.solar_zenith, A.solar_azimuth), "1")
Level == IsP => Eq(P("0", A.surface_azimuth, A.solar_zenith, A.solar_azimuth), CosD(A.solar_zenith))
\* the projected zenith is the rotation that brings the surface closest to the sun
Ideal == c.fn = "projected_solar_zenith_angle" =>
   LET th == PSZA(A.solar_zenith, A.solar_azimuth, A.axis_tilt, A.axis_azimuth)
       s == Dir(A.solar_zenith, A.solar_azimuth)
       best == Dot(TrackerNormal(th, A.axis_tilt, A.axis_azimuth), s)
   IN  \A d \in Thetas : Dot(TrackerNormal(d, A.axis_tilt, A.axis_azimuth), s) \preceq (best ++ "1e-9")
UnitNormal == c.fn = "calc_surface_orientation" =>
   LET n == TrackerNormal(A.tracker_theta, c.k.axis_tilt, c.k.axis_azimuth) o == Orientation(A.tracker_theta, c.k.axis_tilt, c.k.axis_azimuth)
   IN  Eq(Norm(n), "1") /\ Eq(CosD(o.surface_tilt), CosD(A.tracker_theta) ** CosD(c.k.axis_tilt))
InSlope == c.fn = "calc_axis_tilt" =>
   Eq(Dot(AxY(AxisTilt(A.slope_azimuth, A.slope_tilt, A.axis_azimuth), A.axis_azimuth), Dir(A.slope_tilt, A.slope_azimuth)), "0")
Emit == VEmit(IOEnv.VOUT, c)
=============================================================================
