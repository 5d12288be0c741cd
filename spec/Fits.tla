-------------------------------- MODULE Fits -------------------------------
(* Observations of the bounded search and of every parameter fit.             *)
EXTENDS FitsOps
S == INSTANCE SearchOps

\* ---- bounded search: one event per row ----
SearchClauses(e) ==
  IF e.lo \succ e.hi THEN Clause("search.reversed-bounds-accepted", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"search.raised-" \o e.exc}
  ELSE IF IsNaN(e.lo) \/ IsNaN(e.hi) \/ IsNaN(e.q.s) THEN Clause("search.nan", IsNaN(e.x) /\ IsNaN(e.fx))
  ELSE LET best == S!Best(e.q, e.lo, e.hi)
       IN  Clause("search.location", RAbs(e.x -- best) \preceq S!LocTol(e.q, e.lo, e.hi, e.atol))
           \cup Clause("search.value", RClose(e.fx, S!F(e.q, e.x), "1e-12", "1e-12"))
           \cup Clause("search.bounds", ((e.lo -- "1e-9") \preceq e.least) /\ (e.most \preceq (e.hi ++ "1e-9")))
           \cup Clause("search.effort", e.calls <= 3 * S!Steps(e.width, e.atol) + 12)
           \cup Clause("search.inputs-changed", e.kept)

OptEq(a, b) == a.EgRef \doteq b.EgRef /\ a.dEgdT \doteq b.dEgdT /\ a.temp_ref \doteq b.temp_ref /\ a.irrad_ref \doteq b.irrad_ref /\ a.alpha_sc \doteq b.alpha_sc
DesotoClauses(e) ==
  IF e.exc # "" THEN Clause("desoto.raised-" \o e.exc, e.exc = "RuntimeError" /\ ~e.must)
  ELSE Clause("desoto.equations", DesotoEqErr(e.d, e.m) \preceq "1e-5")
       \cup Clause("desoto.options", OptEq(e.m, e.o))
       \cup Clause("desoto.inputs-changed", e.kept)

SameRec(n, got, want, rtol) == UNION {Clause(n \o "." \o f, f \in DOMAIN got /\ (f \in DOMAIN got => RClose(got[f], want[f], rtol, "1e-15"))) : f \in DOMAIN want}

SimpleClauses(e) ==
  IF e.exc # "" THEN {"simple.raised-" \o e.exc}
  ELSE LET q == Q(e.m[1], e.m[2], e.m[3], e.m[4], e.m[5])
           err == Worst({CurveErr(e.v[k], e.i[k], q) : k \in 1..Len(e.v)})
       IN  Clause("simple.curve", (err // e.d.i_sc) \preceq e.tol)
CecClauses(e) ==
  IF e.exc # "" THEN Clause("cec.raised-" \o e.exc, e.exc = "RuntimeError" /\ ~e.must)
  ELSE LET q == Q(e.m[1], e.m[2], e.m[3], e.m[4], e.m[5])
       IN  Clause("cec.curve", KeyErr(e.d, q) \preceq "1e-5") \cup Clause("cec.mpp", MppErr(e.d.v_mp, e.d.i_mp, q) \preceq "1e-4")
           \cup Clause("cec.adjust", e.adj = "?" \/ RClose(e.m[6], e.adj, "0.1", "1.5"))
AdrClauses(e) ==
  IF e.exc # "" THEN {"adr.raised-" \o e.exc}
  ELSE IF DOMAIN e.m # {"k_a", "k_d", "tc_d", "k_rs", "k_rsh"} THEN {"adr.names"}
  ELSE Clause("adr.data", \A k \in 1..Len(e.G) : RClose(e.eta[k], AdrEta(e.G[k], e.T[k], e.m.k_a, e.m.k_d, e.m.tc_d, e.m.k_rs, e.m.k_rsh), "1e-5", "0"))
       \cup Clause("adr.bounds", ("0" \preceq e.m.k_a) /\ ("-12" \preceq e.m.k_d) /\ (e.m.k_d \preceq "0") /\ ("-0.1" \preceq e.m.tc_d) /\ (e.m.tc_d \preceq "0.1")
                   /\ ("0" \preceq e.m.k_rs) /\ (e.m.k_rs \preceq "1") /\ ("0" \preceq e.m.k_rsh) /\ (e.m.k_rsh \preceq "1"))
       \cup Clause("adr.tuple", e.same)
IecClauses(e) ==
  IF e.exc # "" THEN {"iec.raised-" \o e.exc}
  ELSE SameRec("iec", e.m, Iec(e.d, e.o), "1e-5") \cup Clause("iec.inputs-changed", e.kept)

\* curves of a fitted De Soto / PVsyst model against the points they were fitted to; rows = sequence of key points with G and T
RowErr(r, par) == LET q == OfPar(par) IN KeyErr(r, q)
PsClauses(e) ==
  IF e.exc # "" THEN {"pvsyst_sandia.raised-" \o e.exc}
  ELSE Clause("pvsyst_sandia.curves", \A k \in 1..Len(e.rows) : RowErr(e.rows[k], PvsystPar(e.rows[k].G, e.rows[k].T, e.m)) \preceq "5e-3")
FlipPar(G, t, m) == \* the band gap slope entering with the opposite sign
  LET p == DesotoPar(G, t, m)
      tc == Kel(t) dT == t -- m.temp_ref
  IN  [p EXCEPT !.I0 = @ ** RExp((("2" ** m.EgRef) ** (m.dEgdT ** dT)) // (kBeV ** tc))]
DsClauses(e) ==
  IF e.exc # "" THEN {"desoto_sandia.raised-" \o e.exc}
  ELSE LET off == {k \in 1..Len(e.rows) : ~(e.rows[k].T \doteq "25")}
           good(k) == RowErr(e.rows[k], DesotoPar(e.rows[k].G, e.rows[k].T, e.m)) \preceq "1e-2"
           flip(k) == RowErr(e.rows[k], FlipPar(e.rows[k].G, e.rows[k].T, e.m)) \preceq "1e-2"
       IN  Clause("desoto_sandia.curves-at-25C", \A k \in (1..Len(e.rows)) \ off : good(k))
           \cup (IF \A k \in off : good(k) THEN {}
                 ELSE IF \A k \in off : flip(k) THEN {"desoto_sandia.sign-of-dEgdT"} ELSE {"desoto_sandia.curves"})

RectClauses(e) ==
  IF e.exc # "" THEN {"rectify.raised-" \o e.exc}
  ELSE LET rv == IF e.dec = "None" THEN e.v ELSE [k \in 1..Len(e.v) |-> IF IsNaN(e.v[k]) THEN NaN ELSE IF e.v[k] \prec "0" THEN e.v[k] ELSE RRint(e.v[k] ** ("10" ^^ e.dec)) // ("10" ^^ e.dec)]
           r == Rectified(rv, e.i)
       IN  IF Len(e.vo) # Len(r) \/ Len(e.io) # Len(r) THEN {"rectify.points"}
           ELSE Clause("rectify.voltage", RSeqClose(e.vo, [k \in 1..Len(r) |-> r[k][1]], "1e-12", "1e-12"))
                \cup Clause("rectify.current", RSeqClose(e.io, [k \in 1..Len(r) |-> r[k][2]], "1e-12", "1e-12"))
                \cup Clause("rectify.inputs-changed", e.kept)
AstmClauses(e) ==
  IF e.exc # "" THEN {"astm.raised-" \o e.exc}
  ELSE LET a == AstmEnds(e.v, e.i, e.nv, e.ni)
       IN  Clause("astm.voc", RClose(e.m.voc, a.voc, "1e-6", "1e-9")) \cup Clause("astm.isc", RClose(e.m.isc, a.isc, "1e-6", "1e-9"))
           \cup Clause("astm.pmp", RClose(e.m.pmp, e.d.i_mp ** e.d.v_mp, e.tol, "0"))
           \cup Clause("astm.vmp", RClose(e.m.vmp, e.d.v_mp, "0.02", "0"))
           \cup Clause("astm.imp", RClose(e.m.imp ** e.m.vmp, e.m.pmp, "1e-9", "0"))
           \cup Clause("astm.ff", RClose((e.m.ff ** e.m.voc) ** e.m.isc, e.m.pmp, "1e-9", "0"))
PowerAt(t, m) == LET q == OfPar(PvsystPar(m.irrad_ref, t, m)) pk == BisP(q, "0", Hi(q), 60) IN DP(pk, q)
CoefClauses(e) ==
  IF e.exc # "" THEN {"gamma.raised-" \o e.exc}
  ELSE LET h == "0.01" IN
       Clause("gamma_pdc", RClose(e.y, ((PowerAt(e.m.temp_ref ++ h, e.m) -- PowerAt(e.m.temp_ref -- h, e.m)) // ("2" ** h)) // PowerAt(e.m.temp_ref, e.m), "1e-4", "1e-7"))

SInit(m) == 0
SStep(m, s, e) == <<s,
  CASE e.fn = "search" -> SearchClauses(e)
    [] e.fn = "desoto" -> DesotoClauses(e)
    [] e.fn = "batzelis" -> IF e.exc # "" THEN {"batzelis.raised-" \o e.exc} ELSE SameRec("batzelis", e.m, Batzelis(e.d), "1e-9") \cup Clause("batzelis.names", DOMAIN e.m = DOMAIN Batzelis(e.d))
    [] e.fn = "simple" -> SimpleClauses(e)
    [] e.fn = "cec" -> CecClauses(e)
    [] e.fn = "adr" -> AdrClauses(e)
    [] e.fn = "iec" -> IecClauses(e)
    [] e.fn = "pvsyst_sandia" -> PsClauses(e)
    [] e.fn = "desoto_sandia" -> DsClauses(e)
    [] e.fn = "rectify" -> RectClauses(e)
    [] e.fn = "astm" -> AstmClauses(e)
    [] e.fn = "gamma" -> CoefClauses(e)
    [] OTHER -> Clause(e.what, e.ok)>>
=============================================================================
