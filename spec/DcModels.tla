------------------------------ MODULE DcModels ------------------------------
(* Observations of the DC-side functions of pvsystem, pvarray, singlediode   *)
(* and transformer.                                                          *)
EXTENDS DcOps, Point
Opt(a, k, f, d) == IF f \in DOMAIN a THEN a[f] ELSE IF f \in DOMAIN k THEN k[f] ELSE d
Ref(k, cec) == [f \in DOMAIN k \cup {"EgRef", "dEgdT", "irrad_ref", "temp_ref"} |-> IF f \in DOMAIN k THEN k[f]
   ELSE CASE f = "EgRef" -> "1.121" [] f = "dEgdT" -> "-0.0002677" [] f = "irrad_ref" -> "1000" [] OTHER -> "25"]
RefP(k) == [f \in DOMAIN k \cup {"EgRef", "R_sh_exp", "irrad_ref", "temp_ref"} |-> IF f \in DOMAIN k THEN k[f]
   ELSE CASE f = "EgRef" -> "1.121" [] f = "R_sh_exp" -> "5.5" [] f = "irrad_ref" -> "1000" [] OTHER -> "25"]
LossNames == <<"soiling", "shading", "snow", "mismatch", "wiring", "connections", "lid", "nameplate_rating", "age", "availability">>
LossDef == <<"2", "3", "0", "2", "2", "0.5", "1.5", "1", "0", "3">>
Val(fn, a, k) ==
  CASE fn = "pvwatts_dc" -> [y |-> PvwDc(a.effective_irradiance, a.temp_cell, Opt(a, k, "pdc0", "?"), Opt(a, k, "gamma_pdc", "?"),
                                         Opt(a, k, "temp_ref", "25"), Opt(a, k, "k", "None"), Opt(a, k, "cap_adjustment", FALSE))]
    [] fn = "sapm" -> Sapm(a.effective_irradiance, a.temp_cell, k.module, Opt(a, k, "temperature_ref", "25"), Opt(a, k, "irradiance_ref", "1000"))
    [] fn = "sapm_effective_irradiance" -> [y |-> SapmEe(a.poa_direct, a.poa_diffuse, a.airmass_absolute, a.aoi, k.module)]
    [] fn = "huld" -> LET noK == "k" \notin DOMAIN k ct == Opt(a, k, "cell_type", "None") ver == SLower(Opt(a, k, "k_version", "pvgis5")) IN
         IF noK /\ ct = "None" THEN [raise |-> "raise"]
         ELSE IF noK /\ (ver \notin DOMAIN HuldK \/ SLower(ct) \notin {"csi", "cis", "cdte"}) THEN [raise |-> "raise"]
         ELSE [y |-> Huld(a.effective_irradiance, a.temp_mod, k.pdc0, IF noK THEN HuldKOf(ver, SLower(ct), k.pdc0) ELSE k.k)]
    [] fn = "pvefficiency_adr" -> LET q == IF "k_a" \in DOMAIN a THEN a ELSE k IN [y |-> AdrEta(a.effective_irradiance, a.temp_cell, q.k_a, q.k_d, q.tc_d, q.k_rs, q.k_rsh)]
    [] fn = "batzelis" -> BatzDs(a.effective_irradiance, a.temp_cell, k)
    [] fn = "sd_batzelis" -> BatzSd(a.photocurrent, a.saturation_current, a.resistance_series, a.resistance_shunt, a.nNsVth)
    [] fn = "calcparams_desoto" -> DesotoPar(a.effective_irradiance, a.temp_cell, Ref(k, 0))
    [] fn = "calcparams_cec" -> CecPar(a.effective_irradiance, a.temp_cell, Ref(k, 1))
    [] fn = "calcparams_pvsyst" -> PvsystPar(a.effective_irradiance, a.temp_cell, RefP(k))
    [] fn = "pvwatts_losses" -> [y |-> PvwLosses([i \in 1..10 |-> Opt(a, k, LossNames[i], LossDef[i])])]
    [] fn = "dc_ohms_from_percent" -> [y |-> OhmsFromPercent(a.vmp_ref, a.imp_ref, a.dc_ohmic_percent, Opt(a, k, "modules_per_string", "1"), Opt(a, k, "strings", "1"))]
    [] fn = "dc_ohmic_losses" -> [y |-> OhmicLoss(a.resistance, a.current)]
    [] fn = "simple_efficiency" -> [y |-> Transformer(a.input_power, Opt(a, k, "no_load_loss", "?"), Opt(a, k, "load_loss", "?"), Opt(a, k, "transformer_rating", "?"))]
Tol(fn) == <<"1e-8", "1e-10">>

\* scale_voltage_current_power: voltages by v, currents by i, power by both,
\* columns in their original order
ScaleOf(e) == Clause("scale.input-or-index", e.kept) \cup Clause("scale.columns", e.outcols = e.cols) \cup UNION {
   Clause("scale." \o e.cols[j], \A i \in 1..Len(e.data[j]) : RClose(e.out[j][i], e.data[j][i] **
       (CASE e.cols[j] \in {"v_mp", "v_oc"} -> e.voltage [] e.cols[j] = "p_mp" -> e.voltage ** e.current [] OTHER -> e.current), "1e-12", "0")) : j \in 1..Len(e.cols)}
\* combine_loss_factors: the most recent (next, nearest) value of each series
LastAt(t, s) == LET c == {j \in 1..Len(s.t) : s.t[j] <= t} IN IF c = {} THEN NaN ELSE s.v[CHOOSE j \in c : \A x \in c : s.t[x] <= s.t[j]]
NextAt(t, s) == LET c == {j \in 1..Len(s.t) : s.t[j] >= t} IN IF c = {} THEN NaN ELSE s.v[CHOOSE j \in c : \A x \in c : s.t[x] >= s.t[j]]
Abs(x) == IF x < 0 THEN -x ELSE x
NearAt(t, s) == s.v[CHOOSE j \in 1..Len(s.t) : \A x \in 1..Len(s.t) : Abs(s.t[j] - t) <= Abs(s.t[x] - t)]
At(t, s, m) == CASE m = "ffill" -> LastAt(t, s) [] m = "bfill" -> NextAt(t, s) [] OTHER -> NearAt(t, s)
CombineOf(e) == Clause("combine.inputs-changed", e.kept) \cup Clause("combine.index", e.outt = e.t) \cup
   Clause("combine.value", \A i \in 1..Len(e.t) : RClose(e.out[i], "1" -- KeepF([j \in 1..Len(e.series) |-> At(e.t[i], e.series[j], e.method)], 1), "1e-10", "1e-12"))
SInit(m) == "x"
SStep(m, st, e) ==
  <<st, CASE e.fn = "scale" -> (IF e.exc # "" THEN {"scale.raised-" \o e.exc} ELSE ScaleOf(e))
          [] e.fn = "combine" -> (IF e.exc # "" THEN {"combine.raised-" \o e.exc} ELSE CombineOf(e))
          [] OTHER -> PointClauses(e, Val, Tol)>>
=============================================================================
