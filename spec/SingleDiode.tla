----------------------------- MODULE SingleDiode -----------------------------
(* Observations of pvsystem.singlediode, i_from_v, v_from_i, max_power_point *)
(* and singlediode.bishop88*, estimate_voc, one parameter set per point.     *)
EXTENDS Diode
Q(p) == Full(p)
Zero(x) == RClose(x, "0", "0", "1e-9")
\* five points and the power of one curve
CurveOf(q, o) ==
  Clause("v_oc-carries-current", OnCurve(o.v_oc, "0", q))
  \cup Clause("i_sc-has-voltage", OnCurve("0", o.i_sc, q))
  \cup Clause("mpp-off-curve", OnCurve(o.v_mp, o.i_mp, q))
  \cup Clause("p_mp-not-vi", RClose(o.p_mp, o.v_mp ** o.i_mp, "1e-9", "1e-12"))
  \cup Clause("p_mp-not-maximal", RClose(o.p_mp, MaxP(q), "1e-7", "1e-10"))
  \cup Clause("i_x", OnCurve(o.v_oc // "2", o.i_x, q))
  \cup Clause("i_xx", OnCurve((o.v_oc ++ o.v_mp) // "2", o.i_xx, q))
  \cup Clause("order-v", RNeg("1e-9") \preceq o.v_mp /\ o.v_mp \preceq (o.v_oc ++ "1e-6"))
  \cup Clause("order-i", RNeg("1e-9") \preceq o.i_mp /\ (o.i_mp \preceq (o.i_x ++ (("1e-6" ** o.i_sc) ++ "1e-9")) \/ o.v_mp \prec (o.v_oc // "2")))
  \cup Clause("order-isc", o.i_x \preceq (o.i_sc ++ (("1e-6" ** o.i_sc) ++ "1e-9")) /\ o.i_xx \preceq (o.i_mp ++ (("1e-6" ** o.i_sc) ++ "1e-9")))
  \cup (IF q.Iph \doteq "0" THEN Clause("dark-power", Zero(o.p_mp) /\ Zero(o.v_oc) /\ Zero(o.i_sc)) ELSE {})
BishopVal(vd, q) == [i |-> DI(vd, q), v |-> DV(vd, q), p |-> DP(vd, q)]
BishopGrad(vd, q) == [i |-> DI(vd, q), v |-> DV(vd, q), p |-> DP(vd, q), didvd |-> DI1(vd, q),
   dvdvd |-> DV1(vd, q), didv |-> DIDV(vd, q), dpdv |-> DPDV(vd, q), d2p |-> D2P(vd, q)]
CloseRec(name, o, w) == UNION {Clause(name \o "." \o c, RClose(o[c], w[c], "1e-8", "1e-9")) : c \in DOMAIN w}
\* one observed element
Elem(fn, p, o) ==
  LET q == Q(p) IN
  CASE fn = "singlediode" -> CurveOf(q, o)
    [] fn = "max_power_point" ->
         Clause("mpp-off-curve", OnCurve(o.v_mp, o.i_mp, q))
         \cup Clause("p_mp-not-vi", RClose(o.p_mp, o.v_mp ** o.i_mp, "1e-9", "1e-12"))
         \cup Clause("p_mp-not-maximal", RClose(o.p_mp, MaxP(q), "1e-7", "1e-10"))
    [] fn = "i_from_v" -> Clause("off-curve", OnCurve(p.v, o.y, q))
    [] fn = "v_from_i" -> Clause("off-curve", OnCurve(o.y, p.i, q))
    [] fn = "bishop88" -> CloseRec("bishop", o, BishopVal(p.vd, q))
    [] fn = "bishop88g" -> CloseRec("bishop", o, BishopGrad(p.vd, q))
    [] fn = "estimate_voc" -> Clause("voc-estimate", RClose(o.y, VocMax(q), "1e-9", "1e-12"))
    [] OTHER -> {"unknown-function"}
SInit(m) == "x"
SStep(m, st, e) ==
  <<st, IF e.exc # "" THEN {e.fn \o ".raised-" \o e.exc}
        ELSE Clause(e.fn \o ".shape", e.typed /\ Len(e.out) = Len(e.par))
             \cup UNION {{e.fn \o "." \o e.method \o "." \o x : x \in Elem(e.fn, e.par[i], e.out[i])} : i \in 1..(IF Len(e.out) = Len(e.par) THEN Len(e.par) ELSE 0)}>>
=============================================================================
