-------------------------- MODULE DecompositionMC --------------------------
EXTENDS Decomposition, IOUtils, TLC
VARIABLES p, c
Zs == {"0", "30", "60", "80", "85", "87", "87.5", "88", "89.9", "95", "NaN"}
\* clearness targets; global irradiance is derived from them
Kts == {"-0.05", "0", "0.1", "0.219", "0.221", "0.3", "0.349", "0.351", "0.5", "0.599", "0.601", "0.7", "0.749", "0.751", "0.791", "0.793", "0.799", "0.801", "0.95", "1.2", "2.5", "NaN"}
Doys == {"1", "100.5", "366"}
Fns == {"erbs", "erbs_driesse", "orgill_hollands", "boland", "louche", "disc", "misc"}
Init == p \in Fns \X Zs \X Kts \X Doys /\ c = [fn |-> "none"]
G(z, kt, d) == kt ** (I0(d) ** RMax(CosD(z), "0.065"))
Next ==
 /\ c.fn = "none" /\ p' = p
 /\ LET f == p[1] z == p[2] kt == p[3] d == p[4] g == G(z, kt, d) IN
  \/ f \in {"erbs", "erbs_driesse", "orgill_hollands"} /\ \E v \in {<<"0.065", "87">>, <<"0.2", "80">>} :
       \/ c' = [fn |-> f, a |-> [ghi |-> g, zenith |-> z, doy |-> d], k |-> [min_cos_zenith |-> v[1], max_zenith |-> v[2]]]
       \/ d = "1" /\ f # "erbs" /\ c' = [fn |-> f, a |-> [ghi |-> g, zenith |-> z, dni_extra |-> "1340"], k |-> [min_cos_zenith |-> v[1], max_zenith |-> v[2]]]
  \/ f = "erbs_driesse" /\ d = "1" /\ z = "60" /\ c' = [fn |-> f, a |-> [ghi |-> g, zenith |-> z], k |-> [min_cos_zenith |-> "0.065", max_zenith |-> "87"]]
  \/ f = "boland" /\ \E v \in {<<"8.645", "0.613", "87">>, <<"7.997", "0.586", "80">>} :
       c' = [fn |-> f, a |-> [ghi |-> g, solar_zenith |-> z, doy |-> d], k |-> [a_coeff |-> v[1], b_coeff |-> v[2], min_cos_zenith |-> "0.065", max_zenith |-> v[3]]]
  \/ f = "louche" /\ \E v \in {"90", "87"} : c' = [fn |-> f, a |-> [ghi |-> g, solar_zenith |-> z, doy |-> d], k |-> [max_zenith |-> v]]
  \/ f = "disc" /\ \E v \in {<<"101325", "87", "12">>, <<"None", "87", "12">>, <<"80000", "80", "5">>} :
       c' = [fn |-> f, a |-> [ghi |-> g, solar_zenith |-> z, doy |-> d], k |-> [pressure |-> v[1], min_cos_zenith |-> "0.065", max_zenith |-> v[2], max_airmass |-> v[3]]]
  \/ f = "misc" /\ d = "1" /\
     \/ \E cap \in {"2", "1"} :
         \/ c' = [fn |-> "clearness_index", a |-> [ghi |-> g, solar_zenith |-> z, extra_radiation |-> "1400"], k |-> [min_cos_zenith |-> "0.065", cap |-> cap]]
         \/ \E am \in {"1", "5"} : z = "0" /\ c' = [fn |-> "clearness_index_zenith_independent", a |-> [clearness_index |-> kt, airmass |-> am], k |-> [cap |-> cap]]
         \/ \E cs \in {"0", "500", "NaN", "Infinity"} : z = "30" /\ c' = [fn |-> "clearsky_index", a |-> [ghi |-> g, ghi_clear |-> cs], k |-> [cap |-> cap]]
     \/ \E tau \in {"0.3", "0.75"}, pr \in {"101325", "80000"} : kt = "0.5" /\ c' = [fn |-> "campbell_norman", a |-> [zenith |-> z, transmittance |-> tau, pressure |-> pr, dni_extra |-> "1400"], k |-> <<>>]
     \/ kt = "0.5" /\ \E tau \in {"0.3", "0.75"} : c' = [fn |-> "campbell_norman", a |-> [zenith |-> z, transmittance |-> tau], k |-> <<>>]
     \/ \E dhi \in {"0", "100", "5", "NaN"} :
         \/ \E v \in {<<"1.1", "88", "80">>, <<"1", "85", "60">>}, cl \in {"None", "300"} :
             c' = [fn |-> "dni", a |-> [ghi |-> g, dhi |-> dhi, zenith |-> z] @@ (IF cl = "None" THEN <<>> ELSE [dni_clear |-> cl]), k |-> [tol |-> v[1], z0 |-> v[2], zc |-> v[3]]]
         \/ \E s \in SUBSET {"ghi", "dhi", "dni"}, cl \in {"None", "300"} :
             c' = [fn |-> "complete_irradiance", a |-> [n \in s |-> CASE n = "ghi" -> g [] n = "dhi" -> dhi [] OTHER -> "400"] @@ [solar_zenith |-> z] @@ (IF cl = "None" THEN <<>> ELSE [dni_clear |-> cl]), k |-> <<>>]
     \/ \E fr \in {"0", "0.3", "0.8", "1"} : kt = "0.5" /\ c' = [fn |-> "diffuse_par_spitters", a |-> [daily_solar_zenith |-> z, global_diffuse_fraction |-> fr], k |-> <<>>]
V == Val(c.fn, c.a, c.k)
Sep == c.fn \in Separates /\ V # [raise |-> "raise"]
SpecClosure == (Sep /\ ~IsNaN(Zen(c.a)) /\ ~IsNaN(c.a.ghi) /\ c.a.ghi \succeq "0") =>
   /\ RClose(V.dhi ++ (V.dni ** CosD(Zen(c.a))), c.a.ghi, "1e-9", "1e-6") /\ "0" \preceq V.dni /\ "-1e-9" \preceq V.dhi
KtCaps == (c.fn \in {"clearness_index", "clearness_index_zenith_independent", "clearsky_index"} /\ ~IsNaN(V.y)) => "0" \preceq V.y /\ V.y \preceq c.k.cap
NoNightBeam == (c.fn = "disc" /\ c.a.solar_zenith \succ c.k.max_zenith) => V.dni = "0"
FractionBound == (c.fn = "diffuse_par_spitters" /\ ~IsNaN(V.y)) => "0" \preceq V.y /\ V.y \preceq "1.3"
Emit == c.fn = "none" \/ VEmit(IOEnv.VOUT, c)
=============================================================================
