-------------------------- MODULE TranspositionMC --------------------------
EXTENDS Transposition, IOUtils
VARIABLES p, c
Tilts == {"0", "30", "90", "150", "180"}
SunZ == {"0", "30", "60", "84", "87", "89.5", "90", "95"}
Az == {"180", "30"}
\* <<dni, dhi, ghi>>: overcast .. clear, including the exact bin limits 1.5 and 4.5 at zenith 0
Sky == {<<"0", "0", "0">>, <<"0", "300", "300">>, <<"10", "300", "310">>, <<"40", "300", "330">>, <<"100", "250", "340">>,
        <<"150", "200", "340">>, <<"250", "180", "400">>, <<"400", "150", "500">>, <<"600", "120", "650">>, <<"900", "80", "850">>,
        <<"50", "100", "150">>, <<"350", "100", "450">>, <<"500", "0", "500">>, <<"NaN", "100", "200">>, <<"300", "NaN", "500">>, <<"1500", "60", "900">>}
W(t, z, g, s) == [surface_tilt |-> t, surface_azimuth |-> g, solar_zenith |-> z, solar_azimuth |-> "180",
                  dni |-> s[1], ghi |-> s[3], dhi |-> s[2], dni_extra |-> "1400"]
Drop(w, X) == [n \in DOMAIN w \ X |-> w[n]]
Keep(w, X) == [n \in X |-> w[n]]
Geo == {"surface_tilt", "surface_azimuth", "solar_zenith", "solar_azimuth"}
Cm == {"yes", "no"}
Init == p \in Tilts \X SunZ \X Az \X Sky /\ c = [fn |-> "none"]
Next == /\ c.fn = "none" /\ p' = p
 /\ LET t == p[1] z == p[2] g == p[3] s == p[4] IN
   LET w == W(t, z, g, s) m == KastenYoung(z) IN
   \/ g = "180" /\ z = "0" /\ \E cm \in Cm : c' = [fn |-> "isotropic", a |-> Keep(w, {"surface_tilt", "dhi"}), k |-> [comp |-> cm]]
   \/ c' = [fn |-> "klucher", a |-> Drop(w, {"dni", "dni_extra"}), k |-> [comp |-> "no"]]
   \/ \E cm \in Cm : \/ c' = [fn |-> "haydavies", a |-> Drop(w, {"ghi"}), k |-> [comp |-> cm]]
                     \/ c' = [fn |-> "reindl", a |-> w, k |-> [comp |-> cm]]
                     \/ c' = [fn |-> "perez_driesse", a |-> Drop(w, {"ghi"}), k |-> [comp |-> cm]]
                     \/ c' = [fn |-> "perez_driesse", a |-> Drop(w, {"ghi"}) @@ [airmass |-> m], k |-> [comp |-> cm]]
                     \/ c' = [fn |-> "perez", a |-> Drop(w, {"ghi"}) @@ [airmass |-> m], k |-> [comp |-> cm, model |-> "allsitescomposite1990"]]
   \/ z = "60" /\ \E r \in {"0", "0.5", "3"}, cm \in Cm : g = "180" /\ c' = [fn |-> "haydavies_ratio", a |-> Drop(w, (Geo \ {"surface_tilt"}) \cup {"ghi"}) @@ [projection_ratio |-> r], k |-> [comp |-> cm]]
   \/ g = "180" /\ \E md \in DOMAIN PerezTable : z \in {"30", "87"} /\ t \in {"30", "90"} /\ c' = [fn |-> "perez", a |-> Drop(w, {"ghi"}) @@ [airmass |-> m], k |-> [comp |-> "no", model |-> md]]
   \/ g = "180" /\ c' = [fn |-> "king", a |-> Keep(w, {"surface_tilt", "dhi", "ghi", "solar_zenith"}), k |-> [comp |-> "no"]]
   \/ g = "180" /\ z = "0" /\ \E st \in {"None", "snow", "sea"} \cup (IF s[2] = "300" THEN DOMAIN Albedos ELSE {}), al \in {"0", "0.6", "d"} :
        c' = [fn |-> "get_ground_diffuse", a |-> Keep(w, {"surface_tilt", "ghi"}) @@ (IF al = "d" THEN <<>> ELSE [albedo |-> al]), k |-> [surface_type |-> st]]
   \/ g = "180" /\ t = "30" /\ s[2] = "NaN" /\ \E sc \in {"None", "bogus"} \cup DOMAIN Waters, cc \in {"None", "0.2"}, wr \in {"None", "0.7"} :
        c' = [fn |-> "inland_water_dvoracek", a |-> [solar_elevation |-> "90" -- z], k |-> [surface_condition |-> sc, color_coeff |-> cc, wave_roughness_coeff |-> wr]]
   \/ g = "30" /\ \E sky \in {"0", "80"}, gd \in {"0", "12"} : t = "30" /\ c' = [fn |-> "poa_components", a |-> [aoi |-> z, dni |-> s[1], poa_sky_diffuse |-> sky, poa_ground_diffuse |-> gd], k |-> [comp |-> "no"]]
   \/ t = "30" /\ g = "30" /\ z \in {"30", "87", "95"} /\ s[1] \in {"10", "600"} /\
      \E md \in SkyModels \cup {"Perez", "PEREZ-DRIESSE", "bogus", ""}, cm \in Cm, ex \in {"y", "n"}, f \in {"get_sky_diffuse", "get_total_irradiance"}, am \in {"y", "n"} :
        LET v == (IF ex = "n" THEN Drop(w, {"dni_extra"}) ELSE w) @@ (IF am = "y" THEN [airmass |-> m] ELSE <<>>) IN
        c' = [fn |-> f, a |-> v, k |-> [model |-> md, comp |-> cm, model_perez |-> "france1988", surface_type |-> "None"]]
P == CASE c.fn = "haydavies" -> HayDavies(c.a) [] c.fn = "reindl" -> Reindl(c.a) [] c.fn = "perez" -> Perez(c.a, c.k.model)
       [] c.fn = "perez_driesse" -> PerezDriesse(WithAm(c.a)) [] c.fn = "klucher" -> Klucher(c.a) [] c.fn = "isotropic" -> Isotropic(c.a) [] OTHER -> [total |-> "0"]
Known == c.fn # "none" /\ P.total # "?" /\ ~IsNaN(P.total)
PartsAdd == (Known /\ "iso" \in DOMAIN P) => LET pc == PartCols(P) IN
   RClose(P.total, RSum(<<P.iso, IF "circ" \in DOMAIN P THEN P.circ ELSE "0", IF "horizon" \in DOMAIN P THEN P.horizon ELSE "0">>), "1e-9", "1e-9")
\* a horizontal surface sees the horizontal diffuse (Hay-Davies and Reindl away from the horizon limit, not Klucher, Perez before zenith 85)
Flat0 == (Known /\ c.fn \in {"isotropic", "haydavies", "reindl", "perez", "perez_driesse"} /\ c.a.surface_tilt = "0"
          /\ ("solar_zenith" \in DOMAIN c.a => c.a.solar_zenith \preceq "84") /\ ("dni" \in DOMAIN c.a => c.a.dni \preceq "1400"))
         => RClose(P.total, c.a.dhi, "1e-9", "1e-9")
NonNegative == (Known /\ ("dni" \in DOMAIN c.a => c.a.dni \preceq "1400")) => "0" \preceq P.total
\* the spline is continuous at every knot
SplineCont == (c.fn = "isotropic" /\ c.a.dhi = "0") => \A j \in 1..6, i \in 4..10 : RClose(Spline(j, Knots[i] -- "1e-9"), Spline(j, Knots[i]), "1e-6", "1e-6")
SumsUp == (c.fn = "get_total_irradiance" /\ Val(c.fn, c.a, c.k) # [raise |-> "raise"]) =>
   LET v == Val(c.fn, c.a, c.k) IN ("poa_global" \in DOMAIN v) => RClose(v.poa_global, v.poa_direct ++ v.poa_diffuse, "1e-12", "1e-9")
\* water reflects no less near the horizon, and never everything
WaterFalls == (c.fn = "inland_water_dvoracek" /\ Val(c.fn, c.a, c.k) # [raise |-> "raise"]) =>
   LET y(h) == Val(c.fn, [solar_elevation |-> h], c.k).y IN
   "0" \prec y(c.a.solar_elevation) /\ y(c.a.solar_elevation) \prec "1" /\ y(c.a.solar_elevation) \preceq y(c.a.solar_elevation -- "5")
Emit == c.fn = "none" \/ VEmit(IOEnv.VOUT, c)
=============================================================================
