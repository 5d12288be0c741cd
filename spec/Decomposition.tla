--------------------------- MODULE Decomposition ---------------------------
(* Observations of the decomposition and closure functions.                  *)
EXTENDS Decomp
Ext(a, k) == IF "dni_extra" \in DOMAIN a THEN a.dni_extra ELSE I0(a.doy)
Zen(a) == IF "zenith" \in DOMAIN a THEN a.zenith ELSE a.solar_zenith
Val(fn, a, k) ==
  CASE fn = "clearsky_index" -> [y |-> CsIndex(a.ghi, a.ghi_clear, k.cap)]
    [] fn = "clearness_index" -> [y |-> Kt(a.ghi, a.solar_zenith, a.extra_radiation, k.min_cos_zenith, k.cap)]
    [] fn = "clearness_index_zenith_independent" -> [y |-> KtPrime(a.clearness_index, a.airmass, k.cap)]
    [] fn = "disc" -> Disc(a.ghi, a.solar_zenith, a.doy, IF "pressure" \in DOMAIN a THEN a.pressure ELSE k.pressure, k.min_cos_zenith, k.max_zenith, k.max_airmass)
    [] fn = "erbs" -> LET t == Kt(a.ghi, a.zenith, Ext(a, k), k.min_cos_zenith, "1") IN Split(a.ghi, a.zenith, ErbsDf(t), t, k.max_zenith)
    [] fn = "erbs_driesse" -> IF "dni_extra" \notin DOMAIN a /\ "doy" \notin DOMAIN a THEN [raise |-> "raise"]
          ELSE LET g == RMax("0", a.ghi) t == Kt(g, a.zenith, Ext(a, k), k.min_cos_zenith, "1") IN Split(g, a.zenith, DriesseDf(t), t, k.max_zenith)
    [] fn = "orgill_hollands" -> LET t == Kt(a.ghi, a.zenith, Ext(a, k), k.min_cos_zenith, "1") IN Split(a.ghi, a.zenith, OrgillDf(t), t, k.max_zenith)
    [] fn = "boland" -> LET t == Kt(a.ghi, a.solar_zenith, Ext(a, k), k.min_cos_zenith, "1") IN Split(a.ghi, a.solar_zenith, BolandDf(t, k.a_coeff, k.b_coeff), t, k.max_zenith)
    [] fn = "louche" -> Louche(a.ghi, a.solar_zenith, I0(a.doy), k.max_zenith)
    [] fn = "campbell_norman" -> CampbellNorman(a.zenith, a.transmittance, IF "pressure" \in DOMAIN a THEN a.pressure ELSE "101325", IF "dni_extra" \in DOMAIN a THEN a.dni_extra ELSE "1367")
    [] fn = "dni" -> [y |-> BeamFrom(a.ghi, a.dhi, a.zenith, IF "dni_clear" \in DOMAIN a THEN a.dni_clear ELSE "None", k.tol, k.z0, k.zc)]
    [] fn = "complete_irradiance" ->
        LET z == a.solar_zenith  h == DOMAIN a \cap {"ghi", "dhi", "dni"}
            cl == IF "dni_clear" \in DOMAIN a THEN a.dni_clear ELSE "None"
        IN  IF h = {"ghi", "dhi"} THEN [ghi |-> a.ghi, dhi |-> a.dhi, dni |-> BeamFrom(a.ghi, a.dhi, z, cl, "1.1", "88", "80")]
            ELSE IF h = {"dni", "dhi"} THEN [ghi |-> a.dhi ++ (a.dni ** CosD(z)), dhi |-> a.dhi, dni |-> a.dni]
            ELSE IF h = {"ghi", "dni"} THEN [ghi |-> a.ghi, dhi |-> a.ghi -- (a.dni ** CosD(z)), dni |-> a.dni]
            ELSE [raise |-> "raise"]
    [] fn = "diffuse_par_spitters" -> [y |-> ParDiffuse(a.daily_solar_zenith, a.global_diffuse_fraction)]
Tol(fn) == <<"1e-9", "1e-7">>
SInit(m) == "x"
\* the observed parts must close, and be non-negative where global irradiance is
Separates == {"erbs", "erbs_driesse", "orgill_hollands", "boland", "louche"}
Closure(e) ==
  IF e.fn \notin Separates \/ e.exc # "" \/ ~({"dni", "dhi"} \subseteq DOMAIN e.out) THEN {}
  ELSE UNION {LET z == Zen(Row(e, i)) g == Row(e, i).ghi IN
         IF IsNaN(z) \/ IsNaN(g) \/ g \prec "0" THEN {}
         ELSE Clause(e.fn \o ".closure", RClose(e.out.dhi[i] ++ (e.out.dni[i] ** CosD(z)), g, "1e-9", "1e-6"))
              \cup Clause(e.fn \o ".negative", "0" \preceq e.out.dni[i] /\ "-1e-9" \preceq e.out.dhi[i])
              \cup Clause(e.fn \o ".beam-beyond-limit", z \preceq e.k.max_zenith \/ e.out.dni[i] \doteq "0")
       : i \in 1..e.n}
SStep(m, st, e) == <<st, PointClauses(e, Val, Tol) \cup Closure(e)>>
=============================================================================
