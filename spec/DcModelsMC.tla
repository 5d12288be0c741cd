----------------------------- MODULE DcModelsMC -----------------------------
EXTENDS DcModels, IOUtils, TLC
VARIABLES p, c
Gs == {"0", "1e-3", "0.5", "199.999", "200", "200.001", "999.999", "1000", "1000.001", "1400", "-5", "NaN"}
Ts == {"25", "-20", "60.5", "NaN"}
Mods == <<
 [C0 |-> "1.01", C1 |-> "-0.01", C2 |-> "0.29", C3 |-> "-4.7", C4 |-> "0.99", C5 |-> "0.01", C6 |-> "1.07", C7 |-> "-0.07", IXO |-> "4.97", IXXO |-> "3.18",
  Isco |-> "5.09", Impo |-> "4.54", Voco |-> "59.2", Vmpo |-> "48.3", Aisc |-> "0.0004", Aimp |-> "0.00018", Bvoco |-> "-0.213", Mbvoc |-> "0", Bvmpo |-> "-0.2", Mbvmp |-> "0.01", N |-> "1.41", Cells_in_Series |-> "96"],
 [C0 |-> "1.0", C1 |-> "0.0", C2 |-> "-0.11", C3 |-> "-7.9", Isco |-> "8.1", Impo |-> "7.5", Voco |-> "36.2", Vmpo |-> "29.3", Aisc |-> "0.0006", Aimp |-> "-0.0002", Bvoco |-> "-0.13", Mbvoc |-> "0.002", Bvmpo |-> "-0.14", Mbvmp |-> "0", N |-> "1.05", Cells_in_Series |-> "60"],
 [C0 |-> "1.02", C1 |-> "-0.02", C2 |-> "0.2", C3 |-> "0", C4 |-> "0.99", C5 |-> "0.01", IXO |-> "4.97", Isco |-> "5.09", Impo |-> "4.54", Voco |-> "59.2", Vmpo |-> "48.3", Aisc |-> "0.0004", Aimp |-> "0.00018", Bvoco |-> "-0.213", Mbvoc |-> "0", Bvmpo |-> "-0.2", Mbvmp |-> "0.01", N |-> "1.41", Cells_in_Series |-> "96"] >>
Adr == [k_a |-> "99.5", k_d |-> "-5.85", tc_d |-> "0.0194", k_rs |-> "0.069", k_rsh |-> "0.21"]
Ds == [v_mp |-> "31.7", i_mp |-> "8.2", v_oc |-> "38.9", i_sc |-> "8.7", alpha_sc |-> "0.0046", beta_voc |-> "-0.125"]
Des == [alpha_sc |-> "0.0046", a_ref |-> "1.9", I_L_ref |-> "8.75", I_o_ref |-> "1.2e-9", R_sh_ref |-> "420", R_s |-> "0.31"]
DesX == [alpha_sc |-> "0.0046", a_ref |-> "1.9", I_L_ref |-> "8.75", I_o_ref |-> "1.2e-9", R_sh_ref |-> "420", R_s |-> "0.31", EgRef |-> "1.475", dEgdT |-> "-0.0003", irrad_ref |-> "900", temp_ref |-> "20"]
Cec == [alpha_sc |-> "0.0046", a_ref |-> "1.9", I_L_ref |-> "8.75", I_o_ref |-> "1.2e-9", R_sh_ref |-> "420", R_s |-> "0.31", Adjust |-> "8.7"]
Pvs == [alpha_sc |-> "0.0046", gamma_ref |-> "1.05", mu_gamma |-> "-0.0003", I_L_ref |-> "8.75", I_o_ref |-> "1.2e-9", R_sh_ref |-> "420", R_sh_0 |-> "1700", R_s |-> "0.31", cells_in_series |-> "60"]
PvsX == [alpha_sc |-> "0.0046", gamma_ref |-> "1.05", mu_gamma |-> "-0.0003", I_L_ref |-> "8.75", I_o_ref |-> "1.2e-9", R_sh_ref |-> "5", R_sh_0 |-> "1700", R_s |-> "0.31", cells_in_series |-> "72", R_sh_exp |-> "4", EgRef |-> "1.2", irrad_ref |-> "900", temp_ref |-> "20"]
Init == p \in Gs \X Ts /\ c = [fn |-> "none"]
GT == [effective_irradiance |-> p[1], temp_cell |-> p[2]]
C(fn, a, k) == [fn |-> fn, a |-> a, k |-> k]
Next == /\ c.fn = "none" /\ p' = p
  /\ \/ \E k \in {"None", "0.01", "-0.005", "0"}, cap \in BOOLEAN, tr \in {"25", "20"} :
          c' = C("pvwatts_dc", GT, [pdc0 |-> "250", gamma_pdc |-> "-0.004", temp_ref |-> tr, k |-> k, cap_adjustment |-> cap])
     \/ \E i \in 1..3, tr \in {"25", "20"}, gr \in {"1000", "800"} : c' = C("sapm", GT, [module |-> Mods[i], temperature_ref |-> tr, irradiance_ref |-> gr])
     \/ \E am \in {"1", "0.8", "4.5", "30", "NaN"}, aoi \in {"0", "45", "89", "120", "-10", "NaN"}, fd \in {"1", "0.2"} : p[2] = "25" /\
          c' = C("sapm_effective_irradiance", [poa_direct |-> p[1], poa_diffuse |-> "120", airmass_absolute |-> am, aoi |-> aoi],
                 [module |-> [A |-> <<"0.928", "0.07", "-0.0128", "0.0011", "-3.6e-5">>, B |-> <<"1", "-0.002438", "3.103e-4", "-1.246e-5", "2.112e-7", "-1.359e-9">>, FD |-> fd]])
     \/ \E ct \in {"csi", "CdTe", "cis", "None", "bogus"}, v \in {"pvgis5", "PVGIS6", "pvgis7"} :
          c' = C("huld", [effective_irradiance |-> p[1], temp_mod |-> p[2]], [pdc0 |-> "100", cell_type |-> ct, k_version |-> v])
     \/ c' = C("huld", [effective_irradiance |-> p[1], temp_mod |-> p[2]], [pdc0 |-> "100", k |-> <<"-1.7", "-4", "-0.5", "0.01", "0.02", "0.0005">>])
     \/ c' = C("pvefficiency_adr", GT, Adr)
     \/ c' = C("batzelis", GT, Ds)
     \/ \E m \in {Des, DesX} : c' = C("calcparams_desoto", GT, m)
     \/ c' = C("calcparams_cec", GT, Cec)
     \/ \E m \in {Pvs, PvsX} : c' = C("calcparams_pvsyst", GT, m)
     \/ p[2] = "25" /\ \E io \in {"1e-10", "1e-7"}, rs \in {"0", "0.3"}, rsh \in {"300", "Infinity"}, a \in {"0.6", "1.9"} :
          c' = C("sd_batzelis", [photocurrent |-> RMax("0", p[1] // "100"), saturation_current |-> io, resistance_series |-> rs, resistance_shunt |-> rsh, nNsVth |-> a], [none |-> 0]) /\ ~IsNaN(p[1])
     \/ p[2] = "25" /\ \E nl \in {"0", "0.002", "0.02"}, ll \in {"0", "0.005", "0.03"}, r \in {"1000", "250"} :
          c' = C("simple_efficiency", [input_power |-> p[1]], [no_load_loss |-> nl, load_loss |-> ll, transformer_rating |-> r])
On == c.fn # "none"
G == c.a.effective_irradiance
V == Val(c.fn, c.a, c.k)
\* model lemmas
\* facing the sun under the reference spectrum nothing is lost of the beam
Facing == (c.fn = "sapm_effective_irradiance" /\ c.a.aoi = "0" /\ c.a.airmass_absolute # "NaN" /\ ~IsNaN(c.a.poa_direct)) =>
   RClose(V.y, SapmPoly(c.a.airmass_absolute, c.k.module.A) ** (c.a.poa_direct ++ (c.k.module.FD ** "120")), "1e-12", "1e-12") \/ SapmPoly(c.a.airmass_absolute, c.k.module.A) \prec "0"
NoLight == On /\ c.fn \in {"sapm", "batzelis"} /\ G = "0" /\ ~IsNaN(c.a.temp_cell) => (V.p_mp \doteq "0") /\ (V.v_oc \doteq "0")
Rated == On /\ c.fn = "pvwatts_dc" /\ G = "1000" /\ c.a.temp_cell = c.k.temp_ref => Near(V.y, c.k.pdc0)
CapFlat == On /\ c.fn = "pvwatts_dc" /\ c.k.cap_adjustment /\ c.k.k # "None" /\ "1000" \preceq G =>
   (Near(V.y, PvwDc(G, c.a.temp_cell, c.k.pdc0, c.k.gamma_pdc, c.k.temp_ref, "None", FALSE)))
Marion200 == On /\ c.fn = "pvwatts_dc" /\ G = "200" /\ c.k.k # "None" /\ c.a.temp_cell = c.k.temp_ref => Near(V.y, (("0.2" -- c.k.k) ** c.k.pdc0))
\* the transformer output, pushed back through the loss model, is the input
Inverse == On /\ c.fn = "simple_efficiency" /\ ~IsNaN(V.y) => RClose(TransformerIn(V.y, c.k.no_load_loss, c.k.load_loss, c.k.transformer_rating), c.a.input_power, "1e-9", "1e-6")
DesotoRef == On /\ c.fn = "calcparams_desoto" /\ G = "1000" /\ c.a.temp_cell = "25" /\ "EgRef" \notin DOMAIN c.k =>
   Near(V.IL, c.k.I_L_ref) /\ Near(V.I0, c.k.I_o_ref) /\ Near(V.Rsh, c.k.R_sh_ref) /\ Near(V.nNsVth, c.k.a_ref)
ShuntBand == On /\ c.fn = "calcparams_pvsyst" /\ G = "0" => Near(V.Rsh, c.k.R_sh_0)
AdrRef == On /\ c.fn = "pvefficiency_adr" /\ G = "1000" /\ c.a.temp_cell = "25" => Near(V.y, c.k.k_a)
BatzRef == On /\ c.fn = "batzelis" /\ G = "1000" /\ c.a.temp_cell = "25" => Near(V.v_mp, c.k.v_mp) /\ Near(V.i_sc, c.k.i_sc)
Emit == ~On \/ VEmit(IOEnv.VOUT, c)
=============================================================================
