----------------------------- MODULE BifacialMC -----------------------------
EXTENDS Bifacial, IOUtils
VARIABLES p, c
Gcr == {"0.15", "0.4", "0.7", "0.95"}
Rot == {"-160", "-90", "-60", "-25", "0", "5", "30", "60", "90", "125", "180"}
Xs == {"0", "0.25", "0.5", "0.8", "1"}
Phis == {"-84", "-60", "-20", "0", "10", "45", "70", "84.9", "85.1"}
Fns == {"ground_angle", "masking_angle", "masking_angle_passias", "sky_diffuse_passias", "shaded_fraction1d", "direct_martinez",
        "power_mismatch_deline", "vf_row_sky_2d", "vf_row_ground_2d", "vf_row_sky_2d_integ", "vf_row_ground_2d_integ",
        "vf_ground_sky_2d", "vf_ground_sky_2d_integ", "unshaded_ground_fraction"}
P(f, a, k) == [fn |-> f, a |-> a, k |-> k]
Init == p = "go" /\ c \in [fn : Fns, g : Gcr]
\* rows always stand clear of the ground
Hp(g) == (g // "2") ++ "0.3"
Next == p = "go" /\ p' = "done" /\ LET f == c.fn  g == c.g IN
  \/ f \in {"ground_angle", "masking_angle"} /\ \E r \in {"0", "1", "20", "45", "90", "120", "180"}, x \in Xs :
       c' = P(f, [surface_tilt |-> r, gcr |-> g, slant_height |-> x], [none |-> 0])
  \/ f = "masking_angle_passias" /\ \E r \in {"0", "1e-3", "1", "20", "45", "89.999", "90", "90.001", "120", "179"} : c' = P(f, [surface_tilt |-> r], [gcr |-> g])
  \/ f = "sky_diffuse_passias" /\ g = "0.4" /\ \E m \in {"0", "5", "20", "90", "NaN"} : c' = P(f, [masking_angle |-> m], [none |-> 0])
  \/ f = "shaded_fraction1d" /\ \E z \in {"0", "30", "60", "80", "89"}, az \in {"90", "180", "270"}, r \in {"0", "30", "-30", "60"},
       th \in {"0", "45", "-30"}, of \in {"0", "0.1"}, sl \in {"0", "8", "-8"} :
       c' = P(f, [solar_zenith |-> z, solar_azimuth |-> az, axis_azimuth |-> "180", shaded_row_rotation |-> r, shading_row_rotation |-> th,
                  collector_width |-> "2", pitch |-> "2" // g, axis_tilt |-> "0", surface_to_axis_offset |-> of, cross_axis_slope |-> sl], [none |-> 0])
  \/ f = "direct_martinez" /\ g = "0.4" /\ \E d \in {"0", "500"}, s \in {"0", "0.3", "1"}, b \in {"0", "1", "1.2", "3"} :
       c' = P(f, [poa_global |-> "700", poa_direct |-> d, shaded_fraction |-> s, shaded_blocks |-> b, total_blocks |-> "3"], [none |-> 0])
  \/ f = "power_mismatch_deline" /\ g = "0.4" /\ \E r \in {"0", "0.01", "0.08", "NaN"}, ff \in {"None", "0.6", "0.79"} :
       c' = P(f, [rmad |-> r], [c |-> <<"0", "0.142", "3.2">>, ff |-> ff, ffref |-> "0.79"])
  \/ f \in {"vf_row_sky_2d", "vf_row_ground_2d"} /\ \E r \in Rot, x \in Xs : r \succeq "0" /\ c' = P(f, [surface_tilt |-> r, x |-> x], [gcr |-> g])
  \/ f = "vf_row_sky_2d_integ" /\ \E r \in Rot, e \in {<<"0", "1">>, <<"0", "0.4">>, <<"0.4", "1">>, <<"0.5", "0.5">>} :
       c' = P(f, [surface_tilt |-> r], [gcr |-> g, x0 |-> e[1], x1 |-> e[2]])
  \/ f = "vf_row_ground_2d_integ" /\ \E r \in Rot, e \in {<<"0", "1">>, <<"0.5", "1">>}, s \in {<<"0", "1">>, <<"0.2", "0.6">>} : (e[1] = "0" => s[1] = "0") /\
       c' = P(f, [surface_tilt |-> r], [gcr |-> g, hp |-> Hp(g), x0 |-> e[1], x1 |-> e[2], g0 |-> s[1], g1 |-> s[2], rows |-> 12, n |-> 12])
  \/ f = "vf_ground_sky_2d" /\ \E r \in Rot, x \in {"0", "0.001", "0.3", "0.5", "0.9", "1"} : c' = P(f, [x |-> x], [rotation |-> r, gcr |-> g, hp |-> Hp(g), rows |-> 12])
  \/ f = "vf_ground_sky_2d_integ" /\ \E r \in Rot, s \in {<<"0", "1">>, <<"0.2", "0.6">>} :
       c' = P(f, [tracker_rotation |-> r], [gcr |-> g, hp |-> Hp(g), g0 |-> s[1], g1 |-> s[2], rows |-> 12, n |-> 8])
  \/ f = "unshaded_ground_fraction" /\ \E r \in Rot, ph \in Phis, s \in {<<"0", "1">>, <<"0", "0.5">>, <<"0.2", "0.6">>} :
       c' = P(f, [tracker_rotation |-> r, phi |-> ph], [gcr |-> g, hp |-> Hp(g), g0 |-> s[1], g1 |-> s[2], rows |-> 12])
Done == p = "done"
V == Val(c.fn, c.a, c.k)
UnitInterval == Done /\ c.fn \in UnitFns => V.y = "?" \/ InUnit(V.y)
\* the three things a row sees from any point make up its whole view
RowComplement == Done /\ c.fn = "vf_row_sky_2d" =>
  (RowSky(c.a.surface_tilt, c.k.gcr, c.a.x) ++ RowGround(c.a.surface_tilt, c.k.gcr, c.a.x)) \preceq "1.000000001"
\* light balance per pitch of ground, front and back of the row together
Conservation == Done /\ c.fn = "vf_ground_sky_2d_integ" /\ c.k.g0 = "0" =>
  LET r == c.a.tracker_rotation  g == c.k.gcr  b == Wrap(r ++ "180")
      gg(q) == RowGroundSegMean(q, g, c.k.hp, "0", "1", "0", "1", 30, 12)
      ss(q) == RowSkyMean(q, g, "0", "1")
  IN  /\ RClose(V.y ++ (g ** (gg(r) ++ gg(b))), "1", "3e-3", "0")
      /\ RClose(V.y ++ (g ** (ss(r) ++ ss(b))), "1", "3e-3", "0")
SegmentsAdd == Done /\ c.fn = "unshaded_ground_fraction" /\ c.k.g0 = "0" /\ c.k.g1 = "1" =>
  LET L(u, v) == Lit(c.a.tracker_rotation, c.a.phi, c.k.gcr, c.k.hp, u, v, 12)
  IN  RClose(V.y, (L("0", "0.3") ** "0.3") ++ (L("0.3", "1") ** "0.7"), "1e-9", "1e-9")
Unshaded == Done /\ c.fn = "direct_martinez" => ((c.a.shaded_fraction = "0" /\ c.a.shaded_blocks = "0") \/ c.a.poa_direct = "0" => Near(V.y, "0"))
NoShadeAtNoon == Done /\ c.fn = "shaded_fraction1d" /\ c.a.solar_zenith = "0" /\ c.a.shaded_row_rotation = c.a.shading_row_rotation => V.y = "?" \/ V.y \doteq "0"
MaskMonotone == Done /\ c.fn = "masking_angle" /\ c.a.slant_height \prec "1" => V.y = "?" \/
   V.y \succeq (RMax("0", MaskAngle(c.a.surface_tilt, c.a.gcr, "1") -- "1e-9"))
Emit == ~Done \/ VEmit(IOEnv.VOUT, c)
=============================================================================
