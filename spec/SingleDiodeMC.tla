--------------------------- MODULE SingleDiodeMC ---------------------------
(* Parameter sets from dark to full sun, ideal and lossy resistances, with   *)
(* and without recombination and breakdown; points along each curve.         *)
EXTENDS Diode, IOUtils, TLC
VARIABLES p, c
Iphs == {"0", "1e-4", "0.05", "1", "9"}
I0s == {"1e-12", "1e-10", "1e-7", "1e-5"}
Rss == {"0", "1e-3", "0.3", "2"}
Rshs == {"20", "400", "1e5", "Infinity"}
As == {"0.026", "0.6", "1.9", "4"}
Fr == {"0", "0.1", "0.5", "0.8", "0.95", "0.99"}
Ext == {"none", "recomb", "recomb2", "break"}
Mk(x, e) == CASE e = "none" -> [Iph |-> x[1], I0 |-> x[2], Rs |-> x[3], Rsh |-> x[4], a |-> x[5]]
  [] e = "recomb" -> [Iph |-> x[1], I0 |-> x[2], Rs |-> x[3], Rsh |-> x[4], a |-> x[5], d2 |-> "0.1", vbi |-> x[5] ** "30"]
  [] e = "recomb2" -> [Iph |-> x[1], I0 |-> x[2], Rs |-> x[3], Rsh |-> x[4], a |-> x[5], d2 |-> x[5] ** "1.2", vbi |-> x[5] ** "35"]
  [] e = "break" -> [Iph |-> x[1], I0 |-> x[2], Rs |-> x[3], Rsh |-> x[4], a |-> x[5], bf |-> "0.1", bv |-> "-5.5", be |-> "3.28"]
Fracs(x) == TLCEval([f \in Fr |-> f ** x])
PeakOf(q) == IF q.Iph \doteq "0" THEN "0" ELSE Peak(q, "0", Hi(q), 50)
Init == /\ p \in Iphs \X I0s /\ c = [kind |-> "none"]
Next == /\ c.kind = "none" /\ p' = p
        /\ \E r \in Rss, h \in Rshs, a \in As, e \in Ext :
           LET q == Mk(<<p[1], p[2], r, h, a>>, e) IN
           \* a physical module: the diode is not dominated by its parasitic resistances
           /\ ((r ** p[1]) \preceq ("8" ** a))
           /\ (h \doteq Inf \/ ("0.3" ** VocMax(Full(q))) \preceq (h ** p[1]))
           /\ c' = [kind |-> "curve", par |-> q, ext |-> e, v |-> Fracs(VocOf(Full(q))),
                    i |-> [f \in Fr |-> f ** DI("0", Full(q))], vd |-> [f \in Fr |-> f ** Hi(Full(q))], pk |-> PeakOf(Full(q))]
QQ == Full(c.par)
On == c.kind # "none"
\* model lemmas
Decreasing == On => \A f, g \in Fr : f \prec g /\ ~(c.vd[f] \doteq c.vd[g]) => DI(c.vd[g], QQ) \prec DI(c.vd[f], QQ) \/ RClose(DI(c.vd[g], QQ), DI(c.vd[f], QQ), "1e-12", "1e-15")
VIncreasing == On => \A f, g \in Fr : f \prec g => DV(c.vd[f], QQ) \preceq DV(c.vd[g], QQ)
PeakDominates == On => \A f \in Fr : DP(c.vd[f], QQ) \preceq (DP(c.pk, QQ) ** "1.000000001" ++ "1e-15")
SelfOnCurve == On => \A f \in Fr : OnCurve(DV(c.vd[f], QQ), DI(c.vd[f], QQ), QQ)
Stationary == On /\ ~(c.par.Iph \doteq "0") =>
   RAbs(DPDV(c.pk, QQ)) \preceq ("1e-4" ** c.par.Iph)
SlopeIsLimit == On => \A f \in Fr :
   LET h == ("1e-5" ** c.par.a) u == c.vd[f] IN
   RClose((DI(u ++ h, QQ) -- DI(u -- h, QQ)) // ("2" ** h), DI1(u, QQ), "1e-4", "1e-7") /\
   RClose((DPDV(u ++ h, QQ) -- DPDV(u -- h, QQ)) // ("2" ** h), D2P(u, QQ), "1e-3", "1e-5")
Emit == ~On \/ VEmit(IOEnv.VOUT, c)
=============================================================================
