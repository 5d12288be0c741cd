----------------------------- MODULE SpectralMC -----------------------------
EXTENDS Spectral, IOUtils
VARIABLES p, c
Am == {"0.3", "0.58", "1", "1.5", "4.9", "10", "12", "38"}
Pw == {"0", "0.05", "0.1", "1.4164", "3", "8", "8.001", "15"}
Kc == {"0.1", "0.5", "1", "1.3"}
Aod == {"0.01", "0.084", "0.4"}
A == {<<"0.928385", "0.068093", "-0.0157738", "0.0016606", "-0.00006930">>, <<"0.9281", "0.06615", "-0.01384", "0.001298", "-4.6e-5">>,
      <<"-0.5", "0.1", "0", "0", "0">>}
Lim == {<<"0.1", "8", "0.58", "10">>, <<"0.3", "5", "1", "6">>}
FSc == <<"0.9", "-0.03", "-0.01", "0.1", "0.05", "-0.003">>
W == <<"300", "500", "650.5", "1000", "1700">>
Lv == {"0", "0.5", "1.25"}
Kinds == {"sapm", "firstsolar", "caballero", "pvspec", "jrc", "polo", "spectra", "s2"}
Init == p \in [kind : Kinds, x : Am] /\ c = [fn |-> "none"]
ThisOr(S) == S \cup {"NaN"}
Rows(kd, x) ==
  CASE kd = "sapm" -> {[fn |-> "sapm", a |-> [airmass_absolute |-> y], k |-> [A |-> q]] : y \in IF x = "1" THEN {"NaN", "0", "1"} ELSE {x}, q \in A}
    [] kd = "firstsolar" ->
        {[fn |-> "firstsolar", a |-> [airmass_absolute |-> x, precipitable_water |-> w], k |-> [coef |-> <<>>, type |-> t, lim |-> l]] :
             w \in ThisOr(Pw), t \in DOMAIN FSCoef, l \in Lim}
        \cup {[fn |-> "firstsolar", a |-> [airmass_absolute |-> x, precipitable_water |-> w], k |-> [coef |-> FSc, type |-> "x", lim |-> l]] : w \in Pw, l \in Lim}
    [] kd = "caballero" ->
        {[fn |-> "caballero", a |-> [airmass_absolute |-> x, precipitable_water |-> w, aod500 |-> d], k |-> [coef |-> <<>>, type |-> t]] :
             w \in {"0.1", "1.4164", "NaN", "6"}, d \in ThisOr(Aod), t \in DOMAIN CabCoef}
    [] kd = "pvspec" ->
        {[fn |-> "pvspec", a |-> [airmass_absolute |-> x, clearsky_index |-> w], k |-> [coef |-> <<>>, type |-> t]] : w \in ThisOr(Kc) \cup {"0"}, t \in DOMAIN PvspecCoef}
        \cup {[fn |-> "pvspec", a |-> [airmass_absolute |-> x, clearsky_index |-> w], k |-> [coef |-> <<"1", "-0.05", "0.03">>, type |-> "x"]] : w \in Kc}
    [] kd = "jrc" ->
        {[fn |-> "jrc", a |-> [airmass |-> x, clearsky_index |-> w], k |-> [coef |-> <<>>, type |-> t]] : w \in ThisOr(Kc) \cup {"0"}, t \in DOMAIN JrcCoef}
        \cup {[fn |-> "jrc", a |-> [airmass |-> x, clearsky_index |-> w], k |-> [coef |-> <<"0.4", "0.1", "0.001">>, type |-> "x"]] : w \in Kc}
    [] kd = "polo" ->
        {[fn |-> "polo", a |-> [airmass_absolute |-> x, precipitable_water |-> w, aod500 |-> d, aoi |-> i, pressure |-> pr, albedo |-> al],
          k |-> [coef |-> <<>>, type |-> t]] : w \in {"0.1", "3"}, d \in {"0.05", "0.4"}, i \in {"0", "60", "89.9", "90", "120", "NaN"}, pr \in {"80000", "101325"},
             al \in {"0", "0.2", "0.7"}, t \in DOMAIN PoloCoef}
        \cup {[fn |-> "polo", a |-> [airmass_absolute |-> x, precipitable_water |-> "1", aod500 |-> "0.1", aoi |-> i, pressure |-> "101325", albedo |-> "0.25"],
               k |-> [coef |-> <<"0.002", "10", "9", "0.3", "0.0007", "0.01", "0.001", "-0.003", "1">>, type |-> "x"]] : i \in {"10", "95"}}
    [] kd = "spectra" -> {[fn |-> "spectra", e |-> e, r |-> r, k |-> x] : e \in [1..5 -> Lv], r \in {<<"1", "1", "1", "1", "1">>, <<"0", "0.4", "0.8", "1", "0">>}}
    [] kd = "s2" ->
        {[fn |-> "s2", a |-> [apparent_zenith |-> z, aoi |-> i, surface_tilt |-> t, ground_albedo |-> g, surface_pressure |-> pr, relative_airmass |-> PoloAm(z),
                              precipitable_water |-> x, ozone |-> oz, aerosol_turbidity_500nm |-> "0.1"]] :
            z \in {"0", "30", "75", "89.5", "95"}, i \in {"0", "60", "100"}, t \in {"0", "37", "90"}, g \in {"0", "0.2"}, pr \in {"75000", "101300"}, oz \in {"0.31"}}
Next == c.fn = "none" /\ \E r \in Rows(p.kind, p.x) : p' = p /\ c' = r
Done == c.fn # "none"
V == Val(c.fn, c.a, c.k).y
isF(f) == Done /\ c.fn = f
\* factors stay finite inside the validity limits and positive for the published coefficients
Sapm == isF("sapm") => ~IsNaN(V) /\ V \succeq "0"
Fs == isF("firstsolar") =>
   /\ (IsNaN(V) <=> (IsNaN(c.a.precipitable_water) \/ c.a.precipitable_water \succ c.k.lim[2]))
   /\ (IsNaN(V) \/ c.a.airmass_absolute \succ "5") \/ ("0.2" \preceq V /\ V \preceq "1.6")
\* reference conditions give no correction
PvRef == RClose(Pvspec("1", "1", PvspecCoef["multisi"]), "0.9847", "1e-12", "0") /\ RClose(Jrc("1.5", "1", JrcCoef["cdte"]), "1", "1e-12", "0")
Cab == isF("caballero") => (IsNaN(V) <=> (IsNaN(c.a.precipitable_water) \/ IsNaN(c.a.aod500)))
PoloB == isF("polo") => (IsNaN(V) <=> IsNaN(c.a.aoi))
PoloBehind == isF("polo") /\ c.a.aoi = "120" => V \doteq Val("polo", [c.a EXCEPT !.aoi = "90"], c.k).y
\* spectra
isS == isF("spectra")
Sc(e, k) == [i \in DOMAIN e |-> e[i] ** k]
Lit == isS /\ Trapz(W, c.e) \succ "0"
ApeScale == Lit => Near(Ape(W, c.e), Ape(W, Sc(c.e, c.k)))
ApeRange == Lit => (HcQ // "1700") ** "0.9999" \preceq Ape(W, c.e) /\ Ape(W, c.e) \preceq (HcQ // "300") ** "1.0001"
M(e) == MismatchDefault(W, c.r, W, e)
FieldScale == Lit => Near(M(c.e), M(Sc(c.e, c.k)))
FieldFlat == Lit /\ c.r[1] = "1" => Near(M(c.e), "1")
FieldSelf == Lit /\ Trapz(W, Product(c.e, c.r)) \succ "0" => Near(Mismatch(W, c.r, W, c.e, W, Sc(c.e, c.k)), "1")
ApeBlue == Lit /\ c.e[5] # "0" => ~(Ape(W, [c.e EXCEPT ![5] = "0"]) \prec Ape(W, c.e))
\* the published reference spectra integrate to 1347.9, 1000.4 and 900.1 W/m2
Totals == RClose(Trapz(RefWl, RefGlobal), "1000.3707", "1e-7", "0") /\ RClose(Trapz(RefWl, RefDirect), "900.1393", "1e-7", "0")
          /\ RClose(Trapz(RefWl, RefEt), "1347.9343", "1e-7", "0")
\* SPECTRL2: beam below the extraterrestrial spectrum, nothing negative by day,
\* a level surface sees no ground and the full horizontal irradiance
S2Q == TLCEval([apparent_zenith |-> c.a.apparent_zenith, aoi |-> c.a.aoi, surface_tilt |-> c.a.surface_tilt, pressure |-> c.a.surface_pressure, airmass |-> c.a.relative_airmass,
      pw |-> c.a.precipitable_water, ozone |-> c.a.ozone, aod |-> c.a.aerosol_turbidity_500nm, doy |-> "172", albedo |-> c.a.ground_albedo, albedo400 |-> "0.945",
      alpha |-> "1.14", variation |-> "0.095", asymmetry |-> "0.65"])
S2Inv == isF("s2") /\ c.a.apparent_zenith # "95" => \A i \in {1, 25, 45, 78, 122} : LET v == TLCEval(S2(i, S2Q)) IN
   /\ v.dni \preceq v.dni_extra
   /\ \A k \in S2Cols : v[k] \succeq "0"
   /\ c.a.surface_tilt = "0" => v.poa_ground_diffuse \doteq "0"
   /\ c.a.aoi = "100" => v.poa_direct \doteq "0"
Emit == (~Done \/ c.fn = "spectra") \/ VEmit(IOEnv.VOUT, c)
=============================================================================
