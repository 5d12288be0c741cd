------------------------------- MODULE Chain -------------------------------
(* One ModelChain run: the documented pipeline, array by array and time by    *)
(* time.  Every stage is recomputed from the OBSERVED results of the earlier  *)
(* stages of the same array, so a stage that uses another array's data, an    *)
(* older result or the wrong input is seen at that stage.                     *)
(* meta m: kind, names (as given by the user), arrays, inv, sysloss.          *)
(* event e (one time): loc (sun and airmass of a stand-alone Location), x[i]  *)
(* (input row of array i), r[i] (observed results of array i), ac, losses.    *)
EXTENDS DcOps, ModelSel, SpectralOps
Sky == INSTANCE SkyDiffuse
Iamm == INSTANCE Iam
Tmp == INSTANCE Temperature
Trk == INSTANCE Tracker
Dio == INSTANCE Diode
Inv == INSTANCE Inverter
Dec == INSTANCE Decomp

Get(rec, f, d) == IF f \in DOMAIN rec THEN rec[f] ELSE d
Has(rec, f) == f \in DOMAIN rec
Cl(x, y) == RClose(x, y, "1e-7", "1e-6")
Same(name, x, y) == Clause(name, y = "?" \/ Cl(x, y))

\* ---- selected models
PKeys(m) == Common([i \in 1..Len(m.arrays) |-> DOMAIN m.arrays[i].module])
TKeys(m) == Common([i \in 1..Len(m.arrays) |-> DOMAIN m.arrays[i].temp])
Sel(m) == [dc |-> Dc(m.names.dc, PKeys(m)), ac |-> Ac(m.names.ac, DOMAIN m.inv, Len(m.arrays)),
           aoi |-> Aoi(m.names.aoi, PKeys(m)), spectral |-> Spectral(m.names.spectral),
           temp |-> Temp(m.names.temp, TKeys(m)), ohmic |-> Ohmic(m.names.ohmic), losses |-> Losses(m.names.losses)]

\* ---- data precedence
WithDefaults(x) == [f \in DOMAIN x \cup {"wind_speed", "temp_air"} |->
     IF f \in DOMAIN x THEN x[f] ELSE IF f = "wind_speed" THEN "0" ELSE "20"]
AlbedoOf(a) == IF a.albedo # "None" THEN a.albedo ELSE Get(Sky!Albedos, a.surface_type, "0.25")
\* a column of the input wins when every array's input has it
AlbedoIn(m, e, i) == IF Has(e.x[i], "albedo") THEN e.x[i].albedo ELSE AlbedoOf(m.arrays[i])
TempSource(x, model) ==
  IF Has(x, "cell_temperature") THEN "given"
  ELSE IF Has(x, "module_temperature") /\ model = "sapm" THEN "module" ELSE "model"

\* ---- orientation
Orient(a, zen, az) ==
  IF a.mount.type = "fixed" THEN [tilt |-> a.mount.tilt, az |-> a.mount.az, n |-> Trk!Dir(a.mount.tilt, a.mount.az), nan |-> FALSE]
  ELSE LET k == a.mount
           th == Trk!Rotation(zen, az, k.axt, k.axaz, k.bt, k.gcr, k.cross, RNeg(k.max), k.max)
           n == Trk!TrackerNormal(th, k.axt, k.axaz)
       IN  [tilt |-> Deg(RAtan2(Trk!Flat(n), n[3])), az |-> Deg(RAtan2(n[1], n[2])), n |-> n, nan |-> IsNaN(th)]
AoiDeg(o, zen, az) == IF o.nan THEN NaN ELSE Deg(RAcos(RClip(Trk!Dot(o.n, Trk!Dir(zen, az)), "-1", "1")))

AoiClauses(m, e, i) ==
  LET o == Orient(m.arrays[i], e.loc.apparent_zenith, e.loc.azimuth)
  IN  Clause("aoi", RClose(CosD(e.r[i].aoi), CosD(AoiDeg(o, e.loc.apparent_zenith, e.loc.azimuth)), "1e-7", "1e-7"))

PoaClauses(m, e, i) ==
  LET o == Orient(m.arrays[i], e.loc.apparent_zenith, e.loc.azimuth)
      x == e.x[i]
      w == [surface_tilt |-> o.tilt, surface_azimuth |-> o.az, solar_zenith |-> e.loc.apparent_zenith, solar_azimuth |-> e.loc.azimuth,
            dni |-> x.dni, ghi |-> x.ghi, dhi |-> x.dhi, dni_extra |-> Dec!I0(e.loc.doy), airmass |-> e.loc.am_rel]
      p == Sky!SkyParts(m.transposition, w, "allsitescomposite1990")
      t == Sky!Total(Sky!Beam(o.tilt, o.az, w.solar_zenith, w.solar_azimuth, x.dni), p.total,
                     Sky!Ground(o.tilt, x.ghi, AlbedoIn(m, e, i)))
      \* where the tracker rests (NaN) there is no orientation
  IN  IF o.nan THEN UNION {Clause("poa-at-night." \o c, IsNaN(e.r[i][c])) : c \in {"poa_direct", "poa_ground_diffuse", "poa_global"}}
      ELSE UNION {Clause(c, RClose(e.r[i][c], t[c], "1e-6", "2e-5")) : c \in DOMAIN t}
           \cup Clause("albedo", Cl(e.r[i].albedo, AlbedoIn(m, e, i)))

\* ---- incidence angle modifier with the array's own parameters
IamPar(model, p) ==
  CASE model = "ashrae" -> [b |-> Get(p, "b", "0.05")]
    [] model = "physical" -> [n |-> Get(p, "n", "1.526"), K |-> Get(p, "K", "4"), L |-> Get(p, "L", "0.002"), n_ar |-> Get(p, "n_ar", "None")]
    [] model = "martin_ruiz" -> [a_r |-> Get(p, "a_r", "0.16")]
    [] model = "sapm" -> [B |-> <<p.B0, p.B1, p.B2, p.B3, p.B4, p.B5>>, upper |-> "None"]
    [] model = "interp" -> [theta |-> p.theta_ref, iam |-> p.iam_ref, normalize |-> TRUE]
    [] OTHER -> [none |-> "0"]
IamOf(model, p, aoi) == IF model = "no_loss" THEN "1" ELSE Iamm!Direct(model, aoi, IamPar(model, p))

CellType == ("Multi-c-Si" :> "multisi") @@ ("Mono-c-Si" :> "monosi") @@ ("Thin Film" :> "cigs") @@ ("a-Si/nc" :> "asi") @@ ("CIS" :> "cigs") @@ ("CIGS" :> "cigs")
  @@ ("1-a-Si" :> "asi") @@ ("CdTe" :> "cdte") @@ ("a-Si" :> "asi") @@ ("HIT-Si" :> "monosi") @@ ("mc-Si" :> "multisi") @@ ("c-Si" :> "multisi")
  @@ ("Si-Film" :> "asi") @@ ("EFG mc-Si" :> "multisi") @@ ("a-Si / mono-Si" :> "monosi")
FsCoefOf(p) == IF Has(p, "first_solar_spectral_coefficients") THEN p.first_solar_spectral_coefficients
               ELSE FSCoef[CellType[IF Has(p, "Technology") THEN p.Technology ELSE p.Material]]
SpectralOf(model, p, e, x) ==
  CASE model = "no_loss" -> "1"
    [] model = "sapm" -> SapmF1(e.loc.am_abs, <<p.A0, p.A1, p.A2, p.A3, p.A4>>)
    [] model = "first_solar" -> FirstSolar(x.precipitable_water, e.loc.am_abs, FsCoefOf(p), "0.1", "8", "0.58", "10")

\* ---- cell temperature
CellOf(model, a, g, x, eff, e, i) ==
  LET t == a.temp p == a.module IN
  CASE model = "sapm" -> Tmp!SapmCell(g, x.temp_air, x.wind_speed, [a |-> t.a, b |-> t.b, deltaT |-> t.deltaT, irrad_ref |-> Get(t, "irrad_ref", "1000")])
    [] model = "pvsyst" -> Tmp!Pvsyst(g, x.temp_air, x.wind_speed, t.u_c, t.u_v, Get(p, "module_efficiency", "0.1"), Get(p, "alpha_absorption", "0.9"))
    [] model = "faiman" -> Tmp!Faiman(g, x.temp_air, x.wind_speed, t.u0, t.u1)
    [] model = "noct_sam" -> IF g \doteq "0" THEN "?" ELSE Tmp!NoctSam(g, x.temp_air, x.wind_speed, eff,
          [noct |-> t.noct, module_efficiency |-> t.module_efficiency, transmittance_absorptance |-> Get(t, "transmittance_absorptance", "0.9"),
           array_height |-> Get(t, "array_height", "1"), mount_standoff |-> Get(t, "mount_standoff", "4")])
    [] model = "fuentes" -> e.fuentes[i]
PoaForTemp(m, e, i) == IF \A j \in 1..Len(m.arrays) : Has(e.r[j], "poa_global") THEN e.r[i].poa_global ELSE e.r[i].effective_irradiance
CellClauses(m, e, i, sel) ==
  LET x == WithDefaults(e.x[i])  g == PoaForTemp(m, e, i)  src == TempSource(e.x[i], sel.temp)
      want == CASE src = "given" -> x.cell_temperature
                [] src = "module" -> Tmp!CellFromModule(x.module_temperature, g, m.arrays[i].temp.deltaT, "1000")
                [] OTHER -> CellOf(sel.temp, m.arrays[i], g, x, e.r[i].effective_irradiance, e, i)
  IN  Same("cell_temperature-" \o src, e.r[i].cell_temperature, want)

\* ---- DC
Volts == {"v_mp", "v_oc"}
Amps == {"i_sc", "i_mp", "i_x", "i_xx"}
Scale(c, v, a) == v ** (IF c \in Volts THEN a.mps ELSE IF c \in Amps THEN a.strings ELSE a.mps ** a.strings)
LossFrac(m) == LET s == m.sysloss names == <<"soiling", "shading", "snow", "mismatch", "wiring", "connections", "lid", "nameplate_rating", "age", "availability">>
                   def == <<"2", "3", "0", "2", "2", "0.5", "1.5", "1", "0", "3">>
               IN  ("100" -- PvwLosses([j \in 1..10 |-> Get(s, names[j], def[j])])) // "100"
LossOf(m, sel) == IF sel.losses = "no_loss" THEN "1" ELSE LossFrac(m)
Vref(p) == IF {"V_mp_ref", "I_mp_ref"} \subseteq DOMAIN p THEN <<p.V_mp_ref, p.I_mp_ref>>
           ELSE IF {"Vmpo", "Impo"} \subseteq DOMAIN p THEN <<p.Vmpo, p.Impo>> ELSE <<p.Vmpp, p.Impp>>
Rw(a) == OhmsFromPercent(Vref(a.module)[1], Vref(a.module)[2], a.dcpct, a.mps, a.strings)
RefD(k) == [f \in DOMAIN k \cup {"EgRef", "dEgdT", "irrad_ref", "temp_ref", "R_sh_exp"} |-> IF f \in DOMAIN k THEN k[f]
   ELSE CASE f = "EgRef" -> "1.121" [] f = "dEgdT" -> "-0.0002677" [] f = "irrad_ref" -> "1000" [] f = "R_sh_exp" -> "5.5" [] OTHER -> "25"]
DiodePar(dc, p, g, t) ==
  CASE dc = "desoto" -> DesotoPar(g, t, RefD(p)) [] dc = "cec" -> CecPar(g, t, RefD(p)) [] OTHER -> PvsystPar(g, t, RefD(p))
DcCols(dc, p) == CASE dc = "pvwatts" -> {"p_mp"} [] dc = "sapm" -> {"i_sc", "i_mp", "v_oc", "v_mp", "p_mp"}
    \cup (IF {"IXO", "C4", "C5"} \subseteq DOMAIN p THEN {"i_x"} ELSE {}) \cup (IF {"IXXO", "C6", "C7"} \subseteq DOMAIN p THEN {"i_xx"} ELSE {})
    [] OTHER -> {"i_sc", "v_oc", "i_mp", "v_mp", "p_mp", "i_x", "i_xx"}
Zeroed(x) == IF IsNaN(x) THEN "0" ELSE x
\* the observed DC before the system loss factor and, for power, before ohmic losses
Before(e, i, c, L) == e.r[i].dc[c] // L
OhmicClauses(m, e, i, sel, L) ==
  IF sel.ohmic = "no_loss" THEN Clause("dc_ohmic_losses-without-model", ~Has(e.r[i], "ohmic"))
  ELSE IF ~Has(e.r[i], "ohmic") THEN {"dc_ohmic_losses-missing"}
  ELSE Same("dc_ohmic_losses", e.r[i].ohmic, LET c == Before(e, i, "i_mp", L) IN (Rw(m.arrays[i]) ** c) ** c)
OhmicLossOf(e, i) == Get(e.r[i], "ohmic", "0")
DcClauses(m, e, i, sel, L) ==
  LET a == m.arrays[i] p == a.module g == e.r[i].effective_irradiance t == e.r[i].cell_temperature
      cols == DcCols(sel.dc, p)
      Raw(c) == IF c = "p_mp" THEN Before(e, i, c, L) ++ OhmicLossOf(e, i) ELSE Before(e, i, c, L)
  IN  IF DOMAIN e.r[i].dc # cols THEN {"dc-columns"}
      \* no cell is colder than this: the SAM NOCT temperature runs away when
      \* light arrives and almost none of it is effective
      ELSE IF t \prec "-150" THEN {}
      ELSE OhmicClauses(m, e, i, sel, L) \cup
      CASE sel.dc = "pvwatts" ->
             Same("dc-pvwatts", Raw("p_mp"), Scale("p_mp", PvwDc(g, t, p.pdc0, p.gamma_pdc, Get(p, "temp_ref", "25"), Get(p, "k", "None"), Get(p, "cap_adjustment", FALSE)), a))
        [] sel.dc = "sapm" -> LET s == Sapm(g, t, p, "25", "1000") IN UNION {Same("dc-sapm." \o c, Raw(c), Scale(c, s[c], a)) : c \in cols}
        [] OTHER ->
             LET w == DiodePar(sel.dc, p, g, t) d == e.r[i].diode
                 U(c) == Raw(c) // Scale(c, "1", a)
                 q == Dio!Full([Iph |-> d.I_L, I0 |-> d.I_o, Rs |-> d.R_s, Rsh |-> d.R_sh, a |-> d.nNsVth])
             IN  Same("diode.I_L", d.I_L, w.IL) \cup Same("diode.I_o", "1e9" ** d.I_o, "1e9" ** w.I0) \cup Same("diode.R_s", d.R_s, w.Rs)
                 \cup Clause("diode.R_sh", g \doteq "0" \/ Cl(d.R_sh, w.Rsh)) \cup Same("diode.nNsVth", d.nNsVth, w.nNsVth)
                 \cup (IF IsNaN(g) \/ IsNaN(t) THEN UNION {Clause("dc-not-zero-filled." \o c, e.r[i].dc[c] \doteq "0") : c \in cols}
                       ELSE Clause("dc.i_mp-off-curve", Dio!OnCurve(U("v_mp"), U("i_mp"), q))
                            \cup Clause("dc.v_oc-off-curve", Dio!OnCurve(U("v_oc"), "0", q))
                            \cup Clause("dc.i_sc-off-curve", Dio!OnCurve("0", U("i_sc"), q))
                            \cup Clause("dc.i_x-off-curve", Dio!OnCurve(U("v_oc") // "2", U("i_x"), q))
                            \cup Clause("dc.p_mp-not-vi", Cl(U("p_mp"), U("v_mp") ** U("i_mp")))
                            \cup Clause("dc.p_mp-not-maximal", RClose(U("p_mp"), Dio!MaxP(q), "1e-6", "1e-8")))

EffClauses(m, e, i, sel) ==
  LET r == e.r[i] p == m.arrays[i].module
      want == r.spectral_modifier ** ((r.poa_direct ** r.aoi_modifier) ++ (Get(p, "FD", "1") ** r.poa_diffuse))
  IN  Same("aoi_modifier", r.aoi_modifier, IamOf(sel.aoi, p, r.aoi))
      \cup Same("spectral_modifier", r.spectral_modifier, SpectralOf(sel.spectral, p, e, e.x[i]))
      \cup Same("effective_irradiance", r.effective_irradiance, want)

AcOf(m, e, sel) ==
  LET n == Len(m.arrays)
      P == [i \in 1..n |-> e.r[i].dc.p_mp]  V == [i \in 1..n |-> Get(e.r[i].dc, "v_mp", "0")]
  IN  CASE sel.ac = "sandia" -> IF n = 1 THEN Inv!Sandia(V[1], P[1], m.inv) ELSE Inv!SandiaMulti(V, P, m.inv)
        [] sel.ac = "adr" -> Inv!Adr(V[1], P[1], m.inv, "0.1")
        [] OTHER -> Zeroed(Inv!PVWatts(RSum(P), m.inv.pdc0, Get(m.inv, "eta_inv_nom", "0.96"), Get(m.inv, "eta_inv_ref", "0.9637")))

ArrayClauses(m, e, i, sel, L) ==
  (IF m.kind = "eff" THEN Clause("effective_irradiance-given", Cl(e.r[i].effective_irradiance, e.x[i].effective_irradiance))
                          \cup UNION {Clause(f \o "-kept", ~Has(e.x[i], f) \/ (Has(e.r[i], f) /\ Cl(e.r[i][f], e.x[i][f]))) : f \in {"poa_global", "poa_direct", "poa_diffuse"}}
   ELSE AoiClauses(m, e, i) \cup EffClauses(m, e, i, sel) \cup
        (IF m.kind = "weather" THEN PoaClauses(m, e, i)
         ELSE UNION {Same(c \o "-given", e.r[i][c], e.x[i][c]) : c \in {"poa_global", "poa_direct", "poa_diffuse"}}))
  \cup CellClauses(m, e, i, sel) \cup DcClauses(m, e, i, sel, L)
  \cup LET x == WithDefaults(e.x[i]) IN
       UNION {Clause("weather." \o c, Has(e.r[i].weather, c) /\ Cl(e.r[i].weather[c], x[c])) :
              c \in DOMAIN x \cap {"ghi", "dni", "dhi", "wind_speed", "temp_air", "precipitable_water"}}

RowClauses(m, e) ==
  LET sel == Sel(m)  L == LossOf(m, sel) n == Len(m.arrays)
  IN  UNION {{"array" \o SOfInt(i) \o ":" \o c : c \in ArrayClauses(m, e, i, sel, L)} : i \in 1..n}
      \cup Same("ac", e.ac, AcOf(m, e, sel))
      \cup Clause("losses", Cl(e.losses, L))
      \cup (IF m.kind = "eff" THEN {} ELSE UNION {Clause("solar_position." \o c, Cl(e.sun[c], e.loc[c])) : c \in {"apparent_zenith", "azimuth", "zenith"}}
            \cup Clause("airmass", RClose(e.sun.am_rel, e.loc.am_rel, "1e-9", "0") /\ RClose(e.sun.am_abs, e.loc.am_abs, "1e-9", "0")))

\* ---- which results exist after a run of this kind, and their container
Bare(m) == ~(Len(m.arrays) > 1 \/ m.form \in {"tuple", "list"})
Always == {"cell_temperature", "effective_irradiance", "dc"}
PerArray(m, sel) == Always
  \cup (IF m.kind = "eff" THEN {} ELSE {"aoi", "aoi_modifier", "spectral_modifier"})
  \cup {"total_irrad"}
  \cup (IF m.kind = "weather" THEN {"albedo"} ELSE {})
  \cup (IF sel.dc \in {"desoto", "cec", "pvsyst"} THEN {"diode_params"} ELSE {})
  \cup (IF sel.ohmic = "no_loss" THEN {} ELSE {"dc_ohmic_losses"})
AllPer == Always \cup {"aoi", "aoi_modifier", "spectral_modifier", "total_irrad", "albedo", "diode_params", "dc_ohmic_losses"}
ShapeClauses(m, e) ==
  LET sel == Sel(m) want == PerArray(m, sel) IN
  UNION {Clause("container." \o f, e.shape[f] = (IF f \notin want THEN "None" ELSE IF Bare(m) THEN "bare" ELSE "tuple" \o SOfInt(Len(m.arrays)))) : f \in AllPer}
  \cup Clause("container.weather", e.shape.weather = (IF m.form = "bare" THEN "bare" ELSE "tuple" \o SOfInt(Len(m.arrays))))
  \cup Clause("container.ac", e.shape.ac = "Series")
  \cup Clause("solar_position-kept", (m.kind = "eff") = (e.shape.solar_position = "None"))
  \cup Clause("index", e.indexok) \cup Clause("inputs-changed", e.kept)

\* a run that cannot be done must raise
Refused(m) == LET sel == Sel(m) IN
  \/ \E f \in DOMAIN sel : sel[f] = "error"
  \/ (sel.ac \in {"sandia", "adr"} /\ sel.dc = "pvwatts")
  \/ (sel.ac = "adr" /\ Len(m.arrays) > 1)
  \/ (sel.ohmic # "no_loss" /\ sel.dc = "pvwatts")
SInit(m) == "x"
SStep(m, st, e) ==
  <<st, CASE e.kind = "raised" -> Clause("raised-" \o e.exc, Refused(m))
          [] e.kind = "shape" -> Clause("accepted-impossible-combination", ~Refused(m)) \cup ShapeClauses(m, e)
          [] OTHER -> RowClauses(m, e)>>
=============================================================================
