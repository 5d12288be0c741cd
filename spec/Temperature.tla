---------------------------- MODULE Temperature ----------------------------
(* Steady-state cell/module temperature models and the generic linear model  *)
(* through which four of them are converted into each other.                 *)
EXTENDS Point

Params == [sapm |-> [open_rack_glass_glass |-> [a |-> "-3.47", b |-> "-0.0594", deltaT |-> "3"],
                     close_mount_glass_glass |-> [a |-> "-2.98", b |-> "-0.0471", deltaT |-> "1"],
                     open_rack_glass_polymer |-> [a |-> "-3.56", b |-> "-0.075", deltaT |-> "3"],
                     insulated_back_glass_polymer |-> [a |-> "-2.81", b |-> "-0.0455", deltaT |-> "0"]],
           pvsyst |-> [freestanding |-> [u_c |-> "29", u_v |-> "0"],
                       insulated |-> [u_c |-> "15", u_v |-> "0"],
                       semi_integrated |-> [u_c |-> "20", u_v |-> "0"]]]

SapmModule(g, ta, ws, a, b) == (g ** RExp(a ++ (b ** ws))) ++ ta
CellFromModule(tm, g, dT, ref) == tm ++ ((g // ref) ** dT)
SapmCell(g, ta, ws, k) == CellFromModule(SapmModule(g, ta, ws, k.a, k.b), g, k.deltaT, k.irrad_ref)
GenericLinear(g, ta, ws, u, du, eta, alpha) == ta ++ ((g ** (alpha -- eta)) // (u ++ (du ** ws)))
Pvsyst(g, ta, ws, uc, uv, eta, alpha) == ta ++ (((g ** alpha) ** ("1" -- eta)) // (uc ++ (uv ** ws)))
Faiman(g, ta, ws, u0, u1) == ta ++ (g // (u0 ++ (u1 ** ws)))
FaimanRad(g, ta, ws, ir, u0, u1, sv, em) ==
  LET up == "5.670374419e-8" ** ((ta ++ "273.15") ^^ "4")
      q == IF ir = "None" THEN "0" ELSE (em ** sv) ** (up -- ir)
  IN  ta ++ ((g -- q) // (u0 ++ (u1 ** ws)))
Ross(g, ta, noct, k) ==
  IF (noct = "None") = (k = "None") THEN "raise"
  ELSE IF k = "None" THEN ta ++ ((((noct -- "20") // "80") ** g) ** "0.1")
  ELSE ta ++ (k ** g)
\* SAM's correction for the gap between module and roof (inches)
Standoff(x) == CASE x \preceq "0" -> "0" [] x \prec "0.5" -> "18" [] x \prec "1.5" -> "11"
                 [] x \prec "2.5" -> "6" [] x \preceq "3.5" -> "2" [] OTHER -> "0"
NoctSam(g, ta, ws, ge, k) ==
  IF ~(k.array_height \doteq "1") /\ ~(k.array_height \doteq "2") THEN "raise"
  ELSE LET wa == ws ** (IF k.array_height \doteq "1" THEN "0.51" ELSE "0.61")
           ta2 == k.transmittance_absorptance ** (IF ge = "None" THEN "1" ELSE ge // g)
           adj == k.noct ++ Standoff(k.mount_standoff)
       IN  ta ++ (((g // "800") ** (adj -- "20")) ** (("1" -- (k.module_efficiency // ta2))
                     ** ("9.5" // ("5.7" ++ ("3.8" ** wa)))))

Y(v) == IF v = "raise" THEN [raise |-> "raise"] ELSE [y |-> v]
Ws(a) == IF "wind_speed" \in DOMAIN a THEN a.wind_speed ELSE "1"
Opt(a, c) == IF c \in DOMAIN a THEN a[c] ELSE "None"
Val(fn, a, k) ==
  CASE fn = "sapm_module" -> Y(SapmModule(a.poa_global, a.temp_air, a.wind_speed, k.a, k.b))
    [] fn = "sapm_cell" -> Y(SapmCell(a.poa_global, a.temp_air, a.wind_speed, k))
    [] fn = "sapm_cell_from_module" -> Y(CellFromModule(a.module_temperature, a.poa_global, k.deltaT, k.irrad_ref))
    [] fn = "pvsyst_cell" -> Y(Pvsyst(a.poa_global, a.temp_air, Ws(a), k.u_c, k.u_v, k.module_efficiency, k.alpha_absorption))
    [] fn = "faiman" -> Y(Faiman(a.poa_global, a.temp_air, Ws(a), k.u0, k.u1))
    [] fn = "faiman_rad" -> Y(FaimanRad(a.poa_global, a.temp_air, Ws(a), Opt(a, "ir_down"), k.u0, k.u1, k.sky_view, k.emissivity))
    [] fn = "ross" -> Y(Ross(a.poa_global, a.temp_air, k.noct, k.k))
    [] fn = "noct_sam" -> IF Opt(a, "effective_irradiance") # "None" /\ a.poa_global \doteq "0" THEN [y |-> "?"]
                          ELSE Y(NoctSam(a.poa_global, a.temp_air, a.wind_speed, Opt(a, "effective_irradiance"), k))
    [] fn = "generic_linear" -> Y(GenericLinear(a.poa_global, a.temp_air, a.wind_speed, k.u_const, k.du_wind, k.module_efficiency, k.absorptance))
Tol(fn) == <<"1e-9", "1e-9">>

(* ---- GenericLinearModel: an object with state (u, du, eta, alpha) ------- *)
Glm0(m) == [u |-> NaN, du |-> NaN, eta |-> m.eta, alpha |-> m.alpha]
Or(x, y) == IF x = "None" THEN y ELSE x
Net(s) == s.alpha -- s.eta
Use(s, e) ==
  CASE e.op = "use_faiman" -> [s EXCEPT !.u = e.k.u0 ** Net(s), !.du = e.k.u1 ** Net(s)]
    [] e.op = "use_pvsyst" ->
         LET t == [s EXCEPT !.eta = Or(e.k.module_efficiency, s.eta), !.alpha = Or(e.k.alpha_absorption, s.alpha)]
             r == Net(t) // (t.alpha ** ("1" -- t.eta))
         IN  [t EXCEPT !.u = e.k.u_c ** r, !.du = e.k.u_v ** r]
    [] e.op = "use_noct_sam" ->
         LET t == [s EXCEPT !.eta = Or(e.k.module_efficiency, s.eta), !.alpha = Or(e.k.transmittance_absorptance, s.alpha)]
             un == ("800" ** t.alpha) // (e.k.noct -- "20")
         IN  [t EXCEPT !.u = un ** "0.6", !.du = (un ** "0.4") ** "0.51"]
    [] e.op = "use_sapm" ->
         LET lo == e.k.wind_fit_low  hi == e.k.wind_fit_high
             ul == RExp(RNeg(e.k.a ++ (e.k.b ** lo)))  uh == RExp(RNeg(e.k.a ++ (e.k.b ** hi)))
             d == (uh -- ul) // (hi -- lo)
         IN  [s EXCEPT !.u = (ul -- (d ** lo)) ** Net(s), !.du = d ** Net(s)]
Show(s, e) ==
  CASE e.op = "get_generic_linear" -> [u_const |-> s.u, du_wind |-> s.du, module_efficiency |-> s.eta, absorptance |-> s.alpha]
    [] e.op = "to_faiman" -> [u0 |-> s.u // Net(s), u1 |-> s.du // Net(s)]
    [] e.op = "to_pvsyst" -> LET r == Net(s) // (s.alpha ** ("1" -- s.eta))
         IN [u_c |-> s.u // r, u_v |-> s.du // r, module_efficiency |-> s.eta, alpha_absorption |-> s.alpha]
    [] e.op = "to_noct_sam" -> LET un == s.u ++ (s.du // "0.51")
         IN [noct |-> "20" ++ (("800" ** s.alpha) // un), module_efficiency |-> s.eta, transmittance_absorptance |-> s.alpha]
    [] e.op = "to_sapm" -> LET lo == e.k.wind_fit_low  hi == e.k.wind_fit_high
             F(w) == (s.u // Net(s)) ++ ((s.du // Net(s)) ** w)
             b == RNeg((RLog(F(hi)) -- RLog(F(lo))) // (hi -- lo))
         IN [a |-> RNeg(RLog(F(lo)) ++ (b ** lo)), b |-> b]
    [] e.op = "call" -> [y |-> GenericLinear(e.k.g, e.k.ta, e.k.ws, s.u, s.du, Or(e.k.module_efficiency, s.eta), s.alpha)]
IsUse(e) == e.op \in {"use_faiman", "use_pvsyst", "use_noct_sam", "use_sapm"}
GlmClauses(s, e) ==
  IF e.exc # "" THEN {"glm." \o e.op \o ".raised"}
  ELSE IF IsUse(e) THEN LET t == Use(s, e)
       IN  Clause("glm." \o e.op, RSeqClose(<<e.out.u, e.out.du, e.out.eta, e.out.alpha>>, <<t.u, t.du, t.eta, t.alpha>>, "1e-9", "1e-12"))
           \cup Clause("glm." \o e.op \o ".self", e.self)
  ELSE LET v == Show(s, e)
       IN  UNION {Clause("glm." \o e.op \o "." \o c, c \in DOMAIN e.out /\ RClose(e.out[c], v[c], "1e-8", "1e-9")) : c \in DOMAIN v}
           \cup Clause("glm.state-changed", RSeqClose(<<e.after.u, e.after.du, e.after.eta, e.after.alpha>>, <<s.u, s.du, s.eta, s.alpha>>, "1e-9", "1e-12"))

TableClauses(e) == UNION {UNION {
     IF m \notin DOMAIN e.tab \/ s \notin DOMAIN e.tab[m] THEN {"table." \o m \o "." \o s}
     ELSE Clause("table." \o m \o "." \o s, DOMAIN e.tab[m][s] = DOMAIN Params[m][s]
               /\ \A c \in DOMAIN Params[m][s] : e.tab[m][s][c] \doteq Params[m][s][c])
     : s \in DOMAIN Params[m]} : m \in DOMAIN Params}

SInit(meta) == IF "eta" \in DOMAIN meta THEN Glm0(meta) ELSE 0
SStep(meta, st, e) ==
  CASE e.kind = "point" -> <<st, PointClauses(e, Val, Tol)>>
    [] e.kind = "table" -> <<st, TableClauses(e)>>
    [] e.kind = "glm" -> <<IF IsUse(e) THEN Use(st, e) ELSE st, GlmClauses(st, e)>>
=============================================================================
