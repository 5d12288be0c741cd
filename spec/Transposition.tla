---------------------------- MODULE Transposition ----------------------------
(* Observations of the transposition functions (operators in SkyDiffuse).    *)
EXTENDS SkyDiffuse, FiniteSets

Val(fn, a, k) ==
  CASE fn = "isotropic" -> Comps(Isotropic(a), k.comp)
    [] fn = "klucher" -> [y |-> Klucher(a).total]
    [] fn = "haydavies" -> Comps(HayDavies(a), k.comp)
    [] fn = "haydavies_ratio" -> Comps(HayDaviesRb(a, a.projection_ratio), k.comp)
    [] fn = "reindl" -> Comps(Reindl(a), k.comp)
    [] fn = "king" -> [y |-> King(a).total]
    [] fn = "perez" -> Comps(Perez(a, k.model), k.comp)
    [] fn = "perez_driesse" -> Comps(PerezDriesse(WithAm(a)), k.comp)
    [] fn = "get_ground_diffuse" -> [y |-> Ground(a.surface_tilt, a.ghi, IF k.surface_type # "None" THEN Albedos[k.surface_type] ELSE IF "albedo" \in DOMAIN a THEN a.albedo ELSE "0.25")]
    [] fn = "inland_water_dvoracek" ->
        LET given == {n \in {"color_coeff", "wave_roughness_coeff"} : k[n] # "None"}
            wat(c, r) == [y |-> c ^^ ((r ** SinD(RMax(a.solar_elevation, "0"))) ++ "1")]
        IN  IF k.surface_condition # "None"
            THEN IF given # {} \/ k.surface_condition \notin DOMAIN Waters THEN [raise |-> "raise"]
                 ELSE wat(Waters[k.surface_condition][1], Waters[k.surface_condition][2])
            ELSE IF Cardinality(given) = 2 THEN wat(k.color_coeff, k.wave_roughness_coeff) ELSE [raise |-> "raise"]
    [] fn = "poa_components" -> Total(Direct(a.aoi, a.dni), a.poa_sky_diffuse, a.poa_ground_diffuse)
    [] fn = "get_sky_diffuse" ->
        LET m == SLower(k.model) IN
        IF Rejected(m, a, k.comp) THEN [raise |-> "raise"] ELSE Comps(SkyParts(m, a, k.model_perez), k.comp)
    [] fn = "get_total_irradiance" ->
        LET m == SLower(k.model)
            g == Ground(a.surface_tilt, a.ghi, IF k.surface_type # "None" THEN Albedos[k.surface_type] ELSE IF "albedo" \in DOMAIN a THEN a.albedo ELSE "0.25")
            d == Beam(a.surface_tilt, a.surface_azimuth, a.solar_zenith, a.solar_azimuth, a.dni)
        IN  IF Rejected(m, a, k.comp) THEN [raise |-> "raise"]
            ELSE LET p == SkyParts(m, a, k.model_perez) IN Total(d, p.total, g) @@ (IF k.comp = "yes" THEN PartCols(p) ELSE <<>>)
Tol(fn) == <<"1e-6", "2e-5">>

SInit(m) == "x"
\* the observed columns must add up among themselves, whatever the model
SumOk(o, n) ==
  (("poa_global" \in DOMAIN o /\ "poa_sky_diffuse" \in DOMAIN o /\ \A x \in DOMAIN o : Len(o[x]) = n) => \A i \in 1..n :
      /\ RClose(o.poa_global[i], o.poa_direct[i] ++ o.poa_diffuse[i], "1e-9", "1e-9")
      /\ RClose(o.poa_diffuse[i], o.poa_sky_diffuse[i] ++ o.poa_ground_diffuse[i], "1e-9", "1e-9"))
SStep(m, st, e) ==
  <<st, PointClauses(e, Val, Tol) \cup (IF e.exc = "" THEN Clause(e.fn \o ".columns-do-not-add-up", SumOk(e.out, e.n)) ELSE {})>>
=============================================================================
