----------------------------- MODULE Selection -----------------------------
(* Observed construction and run of ModelChains with chosen parameter names.  *)
EXTENDS ModelSel, TLC
\* m: n, mods, temps (sequences of sets as sequences), inv, names, ctor, over
S(q) == {q[i] : i \in 1..Len(q)}
Keys(ks) == Common([i \in 1..Len(ks) |-> S(ks[i])])
Pvwatts == [dc |-> "pvwatts", ac |-> "pvwatts", losses |-> "pvwatts", aoi |-> "physical", spectral |-> "no_loss", temp |-> "sapm", ohmic |-> "no_loss", trans |-> "perez"]
SapmCfg == [dc |-> "sapm", ac |-> "sandia", losses |-> "no_loss", aoi |-> "sapm", spectral |-> "sapm", temp |-> "sapm", ohmic |-> "no_loss", trans |-> "haydavies"]
Plain == [dc |-> "None", ac |-> "None", losses |-> "no_loss", aoi |-> "None", spectral |-> "None", temp |-> "None", ohmic |-> "no_loss", trans |-> "haydavies"]
\* names in force: the constructor's defaults, overridden by the user
Names(m) == LET d == CASE m.ctor = "pvwatts" -> Pvwatts [] m.ctor = "sapm" -> SapmCfg [] OTHER -> Plain
            IN  [x \in DOMAIN d |-> IF x \in DOMAIN m.names THEN m.names[x] ELSE d[x]]
Sel(m) == LET n == Names(m) P == Keys(m.mods) IN
  [dc |-> Dc(n.dc, P), ac |-> Ac(n.ac, S(m.inv), Len(m.mods)), aoi |-> Aoi(n.aoi, P), spectral |-> Spectral(n.spectral),
   temp |-> Temp(n.temp, Keys(m.temps)), ohmic |-> Ohmic(n.ohmic), losses |-> Losses(n.losses)]
Refused(m) == \E x \in DOMAIN Sel(m) : Sel(m)[x] = "error"

AcNeeds == [sandia |-> {"C0", "C1", "C2", "C3", "Paco", "Pdco", "Vdco", "Pso", "Pnt"}, adr |-> {"ADRCoefficients", "Pnom", "Vnom", "Pacmax", "Pnt", "Vmax", "Vmin", "Vdcmax", "MPPTHi", "MPPTLow"}, pvwatts |-> {"pdc0"}]
AoiNeeds == [sapm |-> {"B0", "B1", "B2", "B3", "B4", "B5"}, interp |-> {"theta_ref", "iam_ref"}]
\* parameters a run of the accepted chain cannot do without
Lacks(m) == LET s == Sel(m) P == Keys(m.mods) IN
  \/ ~(AcNeeds[s.ac] \subseteq S(m.inv))
  \/ (s.ac = "adr" /\ Len(m.mods) > 1)
  \/ (s.ac \in {"sandia", "adr"} /\ s.dc = "pvwatts")
  \/ (s.aoi \in DOMAIN AoiNeeds /\ ~(AoiNeeds[s.aoi] \subseteq P))
  \/ (s.spectral = "sapm" /\ ~({"A0", "A1", "A2", "A3", "A4"} \subseteq P))
  \/ (s.spectral = "first_solar" /\ \E i \in 1..Len(m.mods) : S(m.mods[i]) \cap {"first_solar_spectral_coefficients", "Technology", "Material"} = {})
  \/ (s.ohmic # "no_loss" /\ (s.dc = "pvwatts" \/ \E i \in 1..Len(m.mods) : \A r \in {{"V_mp_ref", "I_mp_ref"}, {"Vmpo", "Impo"}, {"Vmpp", "Impp"}} : ~(r \subseteq S(m.mods[i]))))
SInit(m) == "x"
SStep(m, st, e) ==
  <<st, CASE e.kind = "refused" -> Clause("refused-valid-choice", Refused(m)) \cup Clause("not-a-ValueError:" \o e.exc, ~Refused(m) \/ e.exc = "ValueError")
          [] e.kind = "made" -> IF Refused(m) THEN {"accepted." \o x : x \in {y \in DOMAIN Sel(m) : Sel(m)[y] = "error"}}
                                ELSE {"selected." \o x : x \in {y \in DOMAIN Sel(m) : e.sel[y] # Sel(m)[y]}} \cup Clause("transposition", e.trans = Names(m).trans)
          [] OTHER -> IF Refused(m) THEN {} ELSE
                      Clause("ran-without-parameters", Lacks(m) => ~e.ok) \cup Clause("run-failed-" \o e.exc, ~Lacks(m) => e.ok)>>
=============================================================================
