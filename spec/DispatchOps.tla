---------------------------- MODULE DispatchOps ----------------------------
(* How a PVSystem method is to be carried out: which stand-alone function, fed *)
(* with which of the i-th array's own parameters and which inputs.            *)
(*   per    inputs given per array; wide: one value may serve all arrays      *)
(*   common inputs that are the same for all arrays                           *)
(*   par    <<parameter key, argument name, where it is kept, required>>       *)
EXTENDS R64, Sequences, Integers, FiniteSets, TLC
Strict(a) == [i \in 1..Len(a) |-> [arg |-> a[i], wide |-> FALSE]]
Wide(a) == [i \in 1..Len(a) |-> [arg |-> a[i], wide |-> TRUE]]
Req(src, ks) == [i \in 1..Len(ks) |-> <<ks[i], ks[i], src, TRUE>>]
Opt(src, ks) == [i \in 1..Len(ks) |-> <<ks[i], ks[i], src, FALSE>>]
M(fn, per, common, par) == [fn |-> fn, fnmany |-> "", per |-> per, common |-> common, par |-> par, whole |-> "", orient |-> FALSE, model |-> "", kw |-> "model"]
Mo(m, r) == [m EXCEPT !.model = r]
Cell(fn, name, ins, par) == Mo(M(fn, Strict(<<"poa_global">>) \o Wide(<<"temp_air", "wind_speed", "effective_irradiance", "longwave_down">>), <<>>, par), name) @@ [uses |-> ins]
Iam(name, par) == [M("pvlib.iam." \o name, Strict(<<"aoi">>), <<>>, par) EXCEPT !.model = name, !.kw = "iam_model"]
Ops ==
  ("get_aoi" :> [M("pvlib.irradiance.aoi", <<>>, <<"solar_zenith", "solar_azimuth">>, <<>>) EXCEPT !.orient = TRUE])
  @@ ("get_irradiance" :> [M("pvlib.irradiance.get_total_irradiance", Wide(<<"dni", "ghi", "dhi", "albedo">>), <<"solar_zenith", "solar_azimuth", "dni_extra", "airmass">>, <<>>) EXCEPT !.orient = TRUE])
  @@ ("iam.ashrae" :> Iam("ashrae", Opt("module", <<"b">>)))
  @@ ("iam.physical" :> Iam("physical", Opt("module", <<"n", "K", "L", "n_ar">>)))
  @@ ("iam.martin_ruiz" :> Iam("martin_ruiz", Opt("module", <<"a_r">>)))
  @@ ("iam.schlick" :> Iam("schlick", <<>>))
  @@ ("iam.interp" :> Iam("interp", Req("module", <<"theta_ref", "iam_ref">>) \o Opt("module", <<"method", "normalize">>)))
  @@ ("iam.sapm" :> [Iam("sapm", Req("module", <<"B0", "B1", "B2", "B3", "B4", "B5">>)) EXCEPT !.whole = "module"])
  @@ ("cell.sapm" :> Cell("pvlib.temperature.sapm_cell", "sapm", <<"poa_global", "temp_air", "wind_speed">>, Req("temp", <<"a", "b", "deltaT">>) \o Opt("temp", <<"irrad_ref">>)))
  @@ ("cell.pvsyst" :> Cell("pvlib.temperature.pvsyst_cell", "pvsyst", <<"poa_global", "temp_air", "wind_speed">>, Opt("temp", <<"u_c", "u_v">>) \o Opt("module", <<"module_efficiency", "alpha_absorption">>)))
  @@ ("cell.faiman" :> Cell("pvlib.temperature.faiman", "faiman", <<"poa_global", "temp_air", "wind_speed">>, Opt("temp", <<"u0", "u1">>)))
  @@ ("cell.faiman_rad" :> Cell("pvlib.temperature.faiman_rad", "faiman_rad", <<"poa_global", "temp_air", "wind_speed", "longwave_down">>, Opt("temp", <<"u0", "u1", "sky_view", "emissivity">>)))
  @@ ("cell.ross" :> Cell("pvlib.temperature.ross", "ross", <<"poa_global", "temp_air">>, Req("temp", <<"noct">>)))
  @@ ("cell.ross_k" :> Cell("pvlib.temperature.ross", "ross", <<"poa_global", "temp_air">>, Req("temp", <<"k">>)))
  @@ ("cell.fuentes" :> Cell("pvlib.temperature.fuentes", "fuentes", <<"poa_global", "temp_air", "wind_speed">>, Req("temp", <<"noct_installed">>)
        \o Opt("temp", <<"wind_height", "emissivity", "absorption", "surface_tilt", "module_width", "module_length">>) \o Opt("mount", <<"module_height">>)))
  @@ ("cell.noct_sam" :> Cell("pvlib.temperature.noct_sam", "noct_sam", <<"poa_global", "temp_air", "wind_speed", "effective_irradiance">>,
        Req("temp", <<"noct", "module_efficiency">>) \o Opt("temp", <<"transmittance_absorptance", "array_height", "mount_standoff">>)))
  @@ ("calcparams_desoto" :> M("pvlib.pvsystem.calcparams_desoto", Strict(<<"effective_irradiance", "temp_cell">>), <<>>,
        Req("module", <<"a_ref", "I_L_ref", "I_o_ref", "R_sh_ref", "R_s", "alpha_sc">>) \o Opt("module", <<"EgRef", "dEgdT", "irrad_ref", "temp_ref">>)))
  @@ ("calcparams_cec" :> M("pvlib.pvsystem.calcparams_cec", Strict(<<"effective_irradiance", "temp_cell">>), <<>>,
        Req("module", <<"a_ref", "I_L_ref", "I_o_ref", "R_sh_ref", "R_s", "alpha_sc", "Adjust">>) \o Opt("module", <<"EgRef", "dEgdT", "irrad_ref", "temp_ref">>)))
  @@ ("calcparams_pvsyst" :> M("pvlib.pvsystem.calcparams_pvsyst", Strict(<<"effective_irradiance", "temp_cell">>), <<>>,
        Req("module", <<"gamma_ref", "mu_gamma", "I_L_ref", "I_o_ref", "R_sh_ref", "R_sh_0", "R_s", "alpha_sc", "cells_in_series">>) \o Opt("module", <<"R_sh_exp", "EgRef", "irrad_ref", "temp_ref">>)))
  @@ ("sapm" :> [M("pvlib.pvsystem.sapm", Strict(<<"effective_irradiance", "temp_cell">>), <<>>,
        Req("module", <<"C0", "C1", "C2", "C3", "Isco", "Impo", "Voco", "Vmpo", "Aisc", "Aimp", "Bvoco", "Mbvoc", "Bvmpo", "Mbvmp", "N", "Cells_in_Series">>)
        \o Opt("module", <<"IXO", "IXXO", "C4", "C5", "C6", "C7">>)) EXCEPT !.whole = "module"])
  @@ ("sapm_spectral_loss" :> [M("pvlib.spectrum.spectral_factor_sapm", <<>>, <<"airmass_absolute">>, Req("module", <<"A0", "A1", "A2", "A3", "A4">>)) EXCEPT !.whole = "module"])
  @@ ("sapm_effective_irradiance" :> [M("pvlib.pvsystem.sapm_effective_irradiance", Strict(<<"poa_direct", "poa_diffuse", "aoi">>), <<"airmass_absolute">>,
        Req("module", <<"A0", "A1", "A2", "A3", "A4", "B0", "B1", "B2", "B3", "B4", "B5", "FD">>)) EXCEPT !.whole = "module"])
  @@ ("first_solar_spectral_loss" :> M("pvlib.spectrum.spectral_factor_firstsolar", Wide(<<"pw">>), <<"airmass_absolute">>, <<>>))
  @@ ("pvwatts_dc" :> M("pvlib.pvsystem.pvwatts_dc", Strict(<<"effective_irradiance", "temp_cell">>), <<>>, Req("module", <<"pdc0", "gamma_pdc">>) \o Opt("module", <<"temp_ref", "k", "cap_adjustment">>)))
  @@ ("scale_voltage_current_power" :> M("pvlib.pvsystem.scale_voltage_current_power", Strict(<<"data">>), <<>>,
        << <<"modules_per_string", "voltage", "array", TRUE>>, <<"strings", "current", "array", TRUE>> >>))
  @@ ("dc_ohms_from_percent" :> M("pvlib.pvsystem.dc_ohms_from_percent", <<>>, <<>>, << <<"modules_per_string", "modules_per_string", "array", TRUE>>, <<"strings", "strings", "array", TRUE>>,
        <<"dc_ohmic_percent", "dc_ohmic_percent", "losses", TRUE>> >>))
  @@ ("ac.sandia" :> [Mo(M("pvlib.inverter.sandia", Strict(<<"p_dc", "v_dc">>), <<>>, <<>>), "sandia") EXCEPT !.fnmany = "pvlib.inverter.sandia_multi", !.whole = "inverter"])
  @@ ("ac.adr" :> [Mo(M("pvlib.inverter.adr", Strict(<<"p_dc", "v_dc">>), <<>>, <<>>), "adr") EXCEPT !.fnmany = "none", !.whole = "inverter"])
  @@ ("ac.pvwatts" :> [Mo(M("pvlib.inverter.pvwatts", Strict(<<"p_dc">>), <<>>, Req("inverter", <<"pdc0">>) \o Opt("inverter", <<"eta_inv_nom", "eta_inv_ref">>)), "pvwatts") EXCEPT !.fnmany = "pvlib.inverter.pvwatts_multi"])
  @@ ("pvwatts_losses" :> M("pvlib.pvsystem.pvwatts_losses", <<>>, <<>>, Opt("sysloss", <<"soiling", "shading", "snow", "mismatch", "wiring", "connections", "lid", "nameplate_rating", "age", "availability">>)))
SystemLevel == {"ac.sandia", "ac.adr", "ac.pvwatts", "pvwatts_losses"}
\* reference voltage and current of a module for ohmic losses, by preference
RefPoint(K) == IF {"V_mp_ref", "I_mp_ref"} \subseteq K THEN <<"V_mp_ref", "I_mp_ref">> ELSE IF {"Vmpo", "Impo"} \subseteq K THEN <<"Vmpo", "Impo">>
   ELSE IF {"Vmpp", "Impp"} \subseteq K THEN <<"Vmpp", "Impp">> ELSE <<>>
CellType == ("Multi-c-Si" :> "multisi") @@ ("Mono-c-Si" :> "monosi") @@ ("Thin Film" :> "cigs") @@ ("a-Si/nc" :> "asi") @@ ("CIS" :> "cigs") @@ ("CIGS" :> "cigs")
  @@ ("1-a-Si" :> "asi") @@ ("CdTe" :> "cdte") @@ ("a-Si" :> "asi") @@ ("HIT-Si" :> "monosi") @@ ("mc-Si" :> "multisi") @@ ("c-Si" :> "multisi")
  @@ ("Si-Film" :> "asi") @@ ("EFG mc-Si" :> "multisi") @@ ("a-Si / mono-Si" :> "monosi") @@ ("2-a-Si" :> "None") @@ ("3-a-Si" :> "None") @@ ("GaAs" :> "None")
\* form: per input "each" (a tuple, one value per array), "one" (a single value), "short"/"long" (a tuple of another length)
BadForm(b, n, form) == \E i \in 1..Len(b.per) : LET f == form[i] IN f \in {"short", "long"} \/ (f = "one" /\ n > 1 /\ ~b.per[i].wide)
Container(s) == IF s.method \in SystemLevel THEN "bare" ELSE IF s.n = 1 /\ s.unwrap THEN "bare" ELSE "tuple" \o SOfInt(s.n)
\* albedo of the ground under an array
Albedos == [urban |-> "0.18", grass |-> "0.2", soil |-> "0.17", sand |-> "0.4", snow |-> "0.65", asphalt |-> "0.12", concrete |-> "0.3", aluminum |-> "0.85", copper |-> "0.74", sea |-> "0.06"]
  @@ ("fresh grass" :> "0.26") @@ ("fresh snow" :> "0.75") @@ ("fresh steel" :> "0.35") @@ ("dirty steel" :> "0.08")
ArrayAlbedo(given, surface) == IF given # "None" THEN given ELSE IF surface \in DOMAIN Albedos THEN Albedos[surface] ELSE "0.25"
TempSets == ("open_rack_glass_glass" :> [a |-> "-3.47", b |-> "-0.0594", deltaT |-> "3"]) @@ ("close_mount_glass_glass" :> [a |-> "-2.98", b |-> "-0.0471", deltaT |-> "1"])
  @@ ("open_rack_glass_polymer" :> [a |-> "-3.56", b |-> "-0.075", deltaT |-> "3"]) @@ ("insulated_back_glass_polymer" :> [a |-> "-2.81", b |-> "-0.0455", deltaT |-> "0"])
PvsystSets == [freestanding |-> [u_c |-> "29", u_v |-> "0"], insulated |-> [u_c |-> "15", u_v |-> "0"], semi_integrated |-> [u_c |-> "20", u_v |-> "0"]]
ArrayTemp(racking, type) == LET k == racking \o "_" \o type IN
  IF k \in DOMAIN TempSets THEN TempSets[k] ELSE IF racking \in DOMAIN PvsystSets THEN PvsystSets[racking] ELSE [none |-> "none"]
=============================================================================
