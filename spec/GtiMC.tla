-------------------------------- MODULE GtiMC --------------------------------
(* The GTI-DIRINT iteration as a transition system: one step, one iteration.   *)
EXTENDS DirintOps, IOUtils, Integers, Sequences, FiniteSets
CONSTANTS Poa, Models, MaxIts
VARIABLES g, s
\* sun positions of a summer day (zenith, azimuth) in local solar order
Sun == <<<<"75", "80">>, <<"50", "100">>, <<"20", "181">>, <<"60", "262">>>>
Planes == {<<"0", "180">>, <<"40", "180">>, <<"60", "90">>}
Rows == {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 4>>, <<2, 3, 4>>}
Mk(rows, poa, pl, m, use, mx) ==
  LET n == Len(rows) IN
  [poa |-> poa, aoi |-> TLCEval([k \in 1..n |-> Aoi(pl[1], pl[2], Sun[rows[k]][1], Sun[rows[k]][2])]),
   z |-> [k \in 1..n |-> Sun[rows[k]][1]], az |-> [k \in 1..n |-> Sun[rows[k]][2]],
   doy |-> [k \in 1..n |-> "172"], day |-> [k \in 1..n |-> "d"], dew |-> [k \in 1..n |-> "None"], pres |-> [k \in 1..n |-> "101325"],
   alb |-> [k \in 1..n |-> "0.25"], tilt |-> pl[1], saz |-> pl[2], use |-> use, model |-> m, pm |-> "allsitescomposite1990", maxit |-> mx, gt |-> TRUE]
Init == /\ \E r \in Rows : \E q \in [1..Len(r) -> Poa] : \E pl \in Planes : \E m \in Models : \E u \in {TRUE, FALSE} : \E mx \in MaxIts :
             g = TLCEval(Mk(r, q, pl, m, u, mx))
        /\ \E k \in 1..Len(g.aoi) : Front(g, k)
        /\ s = First(g)
Over == Settled(g, s) \/ s.n >= g.maxit
Next == ~Over /\ s' = TLCEval(Iterate(g, s)) /\ g' = g
Began == s.n > 0
\* what is kept is no light below zero, and is the split its distance was measured with
NonNegative == Began => \A k \in Ks(g) : ~(s.ghi[k] \prec "0") /\ ~(s.dni[k] \prec "0") /\ ~(s.dhi[k] \prec "0") /\ ~(s.poa[k] \prec "1")
BestIsReal == Began => \A k \in Ks(g) : s.best[k] # "9999" => RClose(RAbs(Forward(g, k, s.ghi[k], s.dni[k], s.dhi[k]) -- g.poa[k]), s.best[k], "1e-9", "1e-9")
\* diffuse is what the beam leaves of the total, or nothing
Closure == Began => \A k \in Ks(g) : ~IsNaN(s.dni[k]) => RClose(s.dhi[k], RMax(s.ghi[k] -- (s.dni[k] ** CosD(g.z[k])), "0"), "1e-9", "1e-9")
\* iterating never makes the kept answer worse
Improves == [][\A k \in Ks(g) : s'.best[k] \preceq s.best[k]]_<<g, s>>
\* a single sample does not use the change of clearness: no beam known
Lonely == Began /\ Len(g.poa) = 1 /\ g.use => IsNaN(s.dni[1])
Emit == ~Over \/ VEmit(IOEnv.VOUT, g)
=============================================================================
