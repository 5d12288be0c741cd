----------------------------- MODULE Atmosphere -----------------------------
(* Observations of pvlib.atmosphere and Location.get_airmass pieces.         *)
EXTENDS Atmos
Val(fn, a, k) ==
  CASE fn = "pres2alt" -> [y |-> PresToAlt(a.pressure)]
    [] fn = "alt2pres" -> [y |-> AltToPres(a.altitude)]
    [] fn = "get_absolute_airmass" -> [y |-> AbsAirmass(a.airmass_relative, IF "pressure" \in DOMAIN a THEN a.pressure ELSE "101325")]
    [] fn = "get_relative_airmass" -> IF SLower(k.model) \notin AirmassModels THEN [raise |-> "raise"] ELSE [y |-> RelAirmass(a.zenith, SLower(k.model))]
    [] fn = "gueymard94_pw" -> [y |-> Pwat(a.temp_air, a.relative_humidity)]
    [] fn = "rh_from_tdew" -> [y |-> RhFromTdew(a.temp_air, a.temp_dew, k.coeff)]
    [] fn = "tdew_from_rh" -> [y |-> TdewFromRh(a.temp_air, a.relative_humidity, k.coeff)]
    [] fn = "bird_hulstrom80_aod_bb" -> [y |-> AodBB(a.aod380, a.aod500)]
    [] fn = "kasten96_lt" -> [y |-> KastenLt(a.airmass_absolute, a.precipitable_water, a.aod_bb)]
    [] fn = "angstrom_aod_at_lambda" -> [y |-> AodAt(a.aod0, a.lambda0, k.alpha, k.lambda1)]
    [] fn = "angstrom_alpha" -> [y |-> Alpha(a.aod1, k.lambda1, a.aod2, k.lambda2)]
    [] fn = "windspeed_powerlaw" ->
        IF (k.exponent = "None") = (k.surface_type = "None") THEN [raise |-> "raise"]
        ELSE IF k.surface_type # "None" /\ k.surface_type \notin DOMAIN Hellmann THEN [raise |-> "raise"]
        ELSE [y |-> WindAt(a.wind_speed_reference, k.height_reference, k.height_desired, IF k.exponent = "None" THEN Hellmann[k.surface_type] ELSE k.exponent)]
Tol(fn) == <<"1e-9", "1e-9">>
SInit(m) == "x"
\* round trips observed on the code itself
SStep(m, st, e) ==
  <<st, IF e.fn = "roundtrip" THEN Clause("roundtrip." \o e.what, RSeqClose(e.back, e.x, e.rtol, e.atol)) ELSE PointClauses(e, Val, Tol)>>
=============================================================================
