----------------------------- MODULE InverterMC -----------------------------
(* Exhaustive exploration of the specified conversion over a grid of         *)
(* parameter sets and operating points that brackets every region boundary;  *)
(* each explored point becomes a scenario for the implementation.            *)
EXTENDS Inverter, IOUtils, FiniteSets
VARIABLE c
SInvs == <<
 [Paco |-> "250", Pdco |-> "259.6", Vdco |-> "40", Pso |-> "2.09", C0 |-> "-4.1e-5",
  C1 |-> "-9.1e-5", C2 |-> "4.94e-4", C3 |-> "-0.0131", Pnt |-> "0.075"],
 [Paco |-> "5000", Pdco |-> "5150", Vdco |-> "310", Pso |-> "30", C0 |-> "-3e-6",
  C1 |-> "2.5e-5", C2 |-> "1.1e-3", C3 |-> "5e-4", Pnt |-> "-1.5"],
 [Paco |-> "1e6", Pdco |-> "1.02e6", Vdco |-> "600", Pso |-> "4000", C0 |-> "0",
  C1 |-> "0", C2 |-> "0", C3 |-> "0", Pnt |-> "0"],
 \* strong voltage dependence: one input alone would exceed the rating
 [Paco |-> "1000", Pdco |-> "1050", Vdco |-> "300", Pso |-> "10", C0 |-> "-1e-5",
  C1 |-> "1e-3", C2 |-> "1e-3", C3 |-> "1e-3", Pnt |-> "1"] >>
AInvs == <<
 [Pnom |-> "250", Vnom |-> "40", Pacmax |-> "240", Pnt |-> "0.05", Vmax |-> "50", Vmin |-> "25",
  Vdcmax |-> "55", MPPTHi |-> "48", MPPTLow |-> "27",
  ADRCoefficients |-> <<"0.012","0.015","0.02","-0.001","0.003","-0.002","0.001","0.004","-0.003">>],
 [Pnom |-> "3000", Vnom |-> "300", Pacmax |-> "2900", Pnt |-> "-2", Vmax |-> "NaN", Vmin |-> "150",
  Vdcmax |-> "600", MPPTHi |-> "480", MPPTLow |-> "NaN",
  ADRCoefficients |-> <<"0.005","0.01","0.03","0.001","0","0.002","-0.001","0.002","0.001">>] >>
PF == {"-0.1", "0", "0.004", "0.0059", "0.006", "0.00599", "0.05", "0.5", "0.999", "1", "1.0385", "1.5", "NaN"}
PAbs == {"lo", "at", "hi"}
VF == {"0", "0.5", "0.7", "1", "1.25", "2.2", "NaN"}
Tols == {"0", "0.1", "0.25", "1"}
PofS(m, q) == CASE q = "lo" -> m.Pso ** "0.999999" [] q = "at" -> m.Pso
                [] q = "hi" -> m.Pso ** "1.000001" [] OTHER -> m.Pdco ** q
VofA(m, q, t) == CASE q = "hi" -> AdrHi(m, t) [] q = "lo" -> AdrLo(m, t)
                   [] q = "hi+" -> AdrHi(m, t) ** "1.000001" [] q = "lo-" -> AdrLo(m, t) ** "0.999999"
                   [] OTHER -> m.Vnom ** q
Init ==
  \/ \E k \in 1..Len(SInvs), p \in PF \cup PAbs, v \in VF :
       c = [fn |-> "sandia", inv |-> SInvs[k], ps |-> <<PofS(SInvs[k], p)>>, vs |-> <<SInvs[k].Vdco ** v>>]
  \/ \E k \in 1..Len(SInvs), p \in {"0", "0.004", "0.3", "1"} \cup PAbs, p2 \in {"0", "0.3", "0.7", "0.9"},
        v \in {"0", "0.8", "1"}, v2 \in {"0.8", "1.2", "1.4"} :
       c = [fn |-> "sandia_multi", inv |-> SInvs[k],
            ps |-> <<PofS(SInvs[k], p), SInvs[k].Pdco ** p2>>,
            vs |-> <<SInvs[k].Vdco ** v, SInvs[k].Vdco ** v2>>]
  \/ \E k \in 1..Len(AInvs), p \in PF, v \in VF \cup {"hi", "lo", "hi+", "lo-"}, t \in Tols :
       c = [fn |-> "adr", inv |-> AInvs[k], vtol |-> t, ps |-> <<AInvs[k].Pnom ** p>>,
            vs |-> <<VofA(AInvs[k], v, t)>>]
  \/ \E p0 \in {"100", "5000"}, p \in PF, nom \in {"0.96", "0.9"}, ref \in {"0.9637", "0.95"} :
       c = [fn |-> "pvwatts", pdc0 |-> p0, nom |-> nom, ref |-> ref, ps |-> <<p0 ** p>>]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Val == CASE c.fn = "sandia" -> Sandia(c.vs[1], c.ps[1], c.inv)
         [] c.fn = "sandia_multi" -> SandiaMulti(c.vs, c.ps, c.inv)
         [] c.fn = "adr" -> Adr(c.vs[1], c.ps[1], c.inv, c.vtol)
         [] OTHER -> PVWatts(c.ps[1], c.pdc0, c.nom, c.ref)
Cap == CASE c.fn = "adr" -> c.inv.Pacmax [] c.fn = "pvwatts" -> c.nom ** c.pdc0 [] OTHER -> c.inv.Paco
\* model lemmas
NeverAboveRating == ~(Val \succ Cap)
NightIsTare == c.fn \in {"sandia", "sandia_multi"} =>
   (RSum(c.ps) \prec c.inv.Pso => Val \doteq RNeg(RAbs(c.inv.Pnt)))
MultiOfOne == c.fn = "sandia" /\ ~IsNaN(c.ps[1]) /\ ~(c.ps[1] \doteq "0") =>
   RClose(SandiaMulti(c.vs, c.ps, c.inv), Val, "1e-12", "1e-9")
RatingPoint == c.fn = "sandia" =>
   Near(Sandia(c.inv.Vdco, c.inv.Pdco, c.inv), c.inv.Paco)
PVWattsBand == c.fn = "pvwatts" => IsNaN(c.ps[1]) \/ (Val \succeq "0")
AdrBand == c.fn = "adr" => IsNaN(Val) \/ (Val \succeq RNeg(RAbs(c.inv.Pnt)))
Emit == VEmit(IOEnv.VOUT, c)
=============================================================================
