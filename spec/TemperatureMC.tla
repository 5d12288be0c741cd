--------------------------- MODULE TemperatureMC ---------------------------
EXTENDS Temperature, IOUtils
VARIABLE c
G == {"0", "0.5", "200", "800", "1000", "1300", "-3", "NaN"}
T == {"-20", "0", "20", "45.5"}
W == {"0", "1", "5", "20"}
Eta == {"0", "0.1", "0.2"}
Sets == {<<m, s>> : m \in DOMAIN Params, s \in {"open_rack_glass_glass", "close_mount_glass_glass", "open_rack_glass_polymer",
          "insulated_back_glass_polymer", "freestanding", "insulated", "semi_integrated"}}
Rec(fn, g, t, w, k) == [fn |-> fn, a |-> [poa_global |-> g, temp_air |-> t, wind_speed |-> w], k |-> k]
Init ==
  \E g \in G, t \in T, w \in W :
  \/ \E s \in DOMAIN Params.sapm : LET p == Params.sapm[s] IN
       \/ c = Rec("sapm_module", g, t, w, [a |-> p.a, b |-> p.b])
       \/ \E r \in {"1000", "900"} : c = Rec("sapm_cell", g, t, w, [a |-> p.a, b |-> p.b, deltaT |-> p.deltaT, irrad_ref |-> r])
       \/ w = "1" /\ \E r \in {"1000", "900"} : c = [fn |-> "sapm_cell_from_module",
              a |-> [module_temperature |-> t, poa_global |-> g], k |-> [deltaT |-> p.deltaT, irrad_ref |-> r]]
  \/ \E s \in DOMAIN Params.pvsyst, e \in Eta, al \in {"0.9", "0.7"}, uv \in {"0", "1.5"} :
       c = Rec("pvsyst_cell", g, t, w, [u_c |-> Params.pvsyst[s].u_c, u_v |-> uv, module_efficiency |-> e, alpha_absorption |-> al])
  \/ \E p \in {<<"25", "6.84">>, <<"16", "8">>} : c = Rec("faiman", g, t, w, [u0 |-> p[1], u1 |-> p[2]])
  \/ \E ir \in {"200", "400", "NaN"}, sv \in {"1", "0.5"} :
       c = [fn |-> "faiman_rad", a |-> [poa_global |-> g, temp_air |-> t, wind_speed |-> w, ir_down |-> ir],
            k |-> [u0 |-> "25", u1 |-> "6.84", sky_view |-> sv, emissivity |-> "0.88"]]
  \/ w = "0" /\ \E p \in {<<"45", "None">>, <<"None", "0.03">>, <<"None", "None">>, <<"45", "0.02">>} :
       c = [fn |-> "ross", a |-> [poa_global |-> g, temp_air |-> t], k |-> [noct |-> p[1], k |-> p[2]]]
  \/ \E n \in {"45", "50"}, e \in {"0.1", "0.2"}, h \in {"1", "2", "3"}, ms \in {"-1", "0", "0.4999", "0.5", "1", "1.5", "2.5", "3.5", "3.51", "4"} :
       c = Rec("noct_sam", g, t, w, [noct |-> n, module_efficiency |-> e, transmittance_absorptance |-> "0.9", array_height |-> h, mount_standoff |-> ms])
  \/ \E u \in {"11", "20"}, du \in {"0", "3"}, e \in Eta : c = Rec("generic_linear", g, t, w, [u_const |-> u, du_wind |-> du, module_efficiency |-> e, absorptance |-> "0.88"])
Next == UNCHANGED c
V(a) == LET v == Val(c.fn, a, c.k) IN IF v = [raise |-> "raise"] THEN NaN ELSE v.y
HasT == "temp_air" \in DOMAIN c.a
Ambient == (HasT /\ c.a.poa_global = "0" /\ c.fn # "faiman_rad" /\ Val(c.fn, c.a, c.k) # [raise |-> "raise"]) => Near(V(c.a), c.a.temp_air)
Rises == (HasT /\ ~IsNaN(V(c.a))) => V(c.a) \preceq V([c.a EXCEPT !.poa_global = @ ++ "100"])
Cools == (HasT /\ "wind_speed" \in DOMAIN c.a /\ ~IsNaN(V(c.a)) /\ c.a.poa_global \succeq "0" /\ c.fn # "faiman_rad")
          => V([c.a EXCEPT !.wind_speed = @ ++ "1"]) \preceq V(c.a)
\* conversion through the generic linear model preserves the prediction
S(e, al) == [u |-> "20", du |-> "3", eta |-> e, alpha |-> al]
RoundTrip == c.fn = "pvsyst_cell" =>
   LET s == S(c.k.module_efficiency, c.k.alpha_absorption)
       p == Show(s, [op |-> "to_pvsyst"])  f == Show(s, [op |-> "to_faiman"])
       d == Use(s, [op |-> "use_faiman", k |-> f])
       g == c.a.poa_global t == c.a.temp_air w == c.a.wind_speed
       y == GenericLinear(g, t, w, s.u, s.du, s.eta, s.alpha)
   IN  Near(Pvsyst(g, t, w, p.u_c, p.u_v, p.module_efficiency, p.alpha_absorption), y)
       /\ Near(Faiman(g, t, w, f.u0, f.u1), y) /\ Near(d.u, s.u) /\ Near(d.du, s.du)
Emit == VEmit(IOEnv.VOUT, c)
=============================================================================
