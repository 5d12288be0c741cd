---------------------------- MODULE TransientMC ----------------------------
(* All short weather histories over a small alphabet, for both models; the    *)
(* histories become the driver's inputs.                                       *)
EXTENDS Transient, IOUtils, FiniteSets, TLC
VARIABLES h, s, q
CONSTANT N
Alpha == { <<"0", "10", "0">>, <<"900", "25", "1">>, <<"300", "-15", "12">>, <<"1100", "40", "0">> }
M == [kind |-> "fuentes", noct |-> "45", absorption |-> "0.83", emissivity |-> "0.84", tilt |-> "30", width |-> "0.31579",
      length |-> "1.2", module_height |-> "5", wind_height |-> "9.144"]
MP == [kind |-> "prilliman", unit_mass |-> "11.1", c |-> <<"0.0046", "0.00046", "-0.00023", "-1.6e-5">>, window |-> 4, minutes |-> "5"]
Ev(x) == [poa |-> x[1], temp_air |-> x[2], wind |-> x[3], temp |-> x[2], hours |-> "0.0833333333333333"]
Init == h = <<>> /\ s = SInit(M) /\ q = SInit(MP)
Next == Len(h) < N /\ \E x \in Alpha : h' = Append(h, x) /\ s' = Step(M, s, Ev(x)) /\ q' = PStep(MP, q, Ev(x))
Finite == RIsFinite(s.t) /\ RLe("200", s.t) /\ RLe(s.t, "420")
\* the average stays within the range of the window
Averages == Len(h) > 0 => LET v == POut(MP, q, Ev(h[1])) IN
      \A lo, hi \in {"-20", "45"} : RLe("-15.0001", v) /\ RLe(v, "40.0001")
\* holding the weather constant leads to a steady state in which heat balances
RECURSIVE Hold(_, _, _)
Hold(st, x, n) == IF n = 0 THEN st ELSE Hold(Step(M, st, Ev(x)), x, n - 1)
Steady == Len(h) = 1 => LET a == Hold(s, h[1], 60) b == Step(M, a, Ev(h[1])) IN RClose(a.t, b.t, "1e-4", "1e-4")
Emit == Len(h) = N => VEmit(IOEnv.VOUT, [h |-> h])
=============================================================================
