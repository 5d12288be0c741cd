------------------------------ MODULE Inverter ------------------------------
(* Operating regions and conversion of grid-tied PV inverters: the Sandia    *)
(* model (one or several MPPT inputs), the ADR model, PVWatts (one or        *)
(* several inputs), and the recovery of Sandia parameters from test data.    *)
EXTENDS R64, Sequences, Integers

\* ------------------------------------------------------------------ Sandia
SandiaEff(v, p, m) ==
  LET dv == v -- m.Vdco
      A == m.Pdco ** ("1" ++ (m.C1 ** dv))
      B == m.Pso ** ("1" ++ (m.C2 ** dv))
      C == m.C0 ** ("1" ++ (m.C3 ** dv))
  IN  (((m.Paco // (A -- B)) -- (C ** (A -- B))) ** (p -- B))
      ++ (C ** ((p -- B) ** (p -- B)))

\* the operating region is decided by DC power alone
Region(p, m) == IF p \prec m.Pso THEN "night" ELSE "day"
SandiaLimit(ac, p, m) ==
  IF Region(p, m) = "night" THEN RNeg(RAbs(m.Pnt)) ELSE RMin(m.Paco, ac)
Sandia(v, p, m) == SandiaLimit(SandiaEff(v, p, m), p, m)

RECURSIVE WSum(_, _, _, _, _)
WSum(vs, ps, tot, m, k) ==
  IF k = 0 THEN "0"
  ELSE WSum(vs, ps, tot, m, k - 1) ++ ((ps[k] // tot) ** SandiaEff(vs[k], tot, m))
SandiaMulti(vs, ps, m) ==
  LET tot == RSum(ps) IN SandiaLimit(WSum(vs, ps, tot, m, Len(ps)), tot, m)

\* --------------------------------------------------------------------- ADR
AdrLoss(p, v, c) ==
  LET q == v -- "1"   w == ("1" // v) -- "1"   p2 == p ** p
  IN  RSum(<<c[1], c[2] ** p, c[3] ** p2, c[4] ** q, c[5] ** (p ** q),
             c[6] ** (p2 ** q), c[7] ** w, c[8] ** (p ** w), c[9] ** (p2 ** w)>>)
AdrHi(m, tol) == RFmax(RFmax(m.Vmax, m.Vdcmax), m.MPPTHi) ** ("1" ++ tol)
AdrLo(m, tol) == RFmax(m.Vmin, m.MPPTLow) ** ("1" -- tol)
AdrRegion(v, m, tol) ==
  IF v \doteq "0" THEN "night"
  ELSE IF (v \succ AdrHi(m, tol)) \/ (v \prec AdrLo(m, tol)) THEN "invalid" ELSE "valid"
Adr(v, p, m, tol) ==
  LET tare == RNeg(RAbs(m.Pnt))
      pd == p // m.Pnom
      raw == m.Pnom ** (pd -- AdrLoss(pd, v // m.Vnom, m.ADRCoefficients))
      reg == AdrRegion(v, m, tol)
  IN  CASE reg = "night"   -> RMin(tare, m.Pacmax)
        [] reg = "invalid" -> NaN
        [] OTHER           -> RMin(RMax(raw, tare), m.Pacmax)

\* ----------------------------------------------------------------- PVWatts
PVWatts(pdc, pdc0, nom, ref) ==
  LET z == pdc // pdc0
      eta == (nom // ref) ** ((("-0.0162" ** z) --
               (IF pdc \doteq "0" THEN "0" ELSE "0.0059" // z)) ++ "0.9858")
  IN  RMax("0", RMin(nom ** pdc0, eta ** pdc))

\* -------------------------------------------------- expected value of a call
Expect(e, i) ==
  CASE e.fn = "sandia"        -> Sandia(e.v[1][i], e.p[1][i], e.inv)
    [] e.fn = "sandia_multi"  -> SandiaMulti([k \in DOMAIN e.v |-> e.v[k][i]],
                                             [k \in DOMAIN e.p |-> e.p[k][i]], e.inv)
    [] e.fn = "adr"           -> Adr(e.v[1][i], e.p[1][i], e.inv, e.vtol)
    [] e.fn = "pvwatts"       -> PVWatts(e.p[1][i], e.pdc0, e.nom, e.ref)
    [] e.fn = "pvwatts_multi" -> PVWatts(RSum([k \in DOMAIN e.p |-> e.p[k][i]]),
                                         e.pdc0, e.nom, e.ref)

Upper(e) == CASE e.fn \in {"sandia", "sandia_multi"} -> e.inv.Paco
              [] e.fn = "adr" -> e.inv.Pacmax
              [] OTHER -> e.nom ** e.pdc0
Lower(e) == CASE e.fn = "adr" -> RNeg(RAbs(e.inv.Pnt)) [] OTHER -> "0"

Tol == "1e-8"
ValueOK(e, i) ==
  RClose(e.out[i], Expect(e, i), Tol, Tol ** RMax("1", RAbs(Upper(e))))

CallClauses(e) ==
  IF "reject" \in DOMAIN e
  THEN Clause("length-mismatch-accepted", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE IF Len(e.out) # Len(e.p[1]) THEN {"shape"}
  ELSE LET N == 1..Len(e.out) IN
       Clause("value", \A i \in N : ValueOK(e, i))
       \cup Clause("above-rating", \A i \in N : ~(e.out[i] \succ (Upper(e) ++ "1e-6")))
       \cup Clause("below-tare", e.fn \in {"sandia", "sandia_multi"} \/
              \A i \in N : ~(e.out[i] \prec (Lower(e) -- "1e-6")))
       \cup Clause("inputs-changed", e.kept)
       \cup Clause("index-or-type", e.typed)

FitClauses(e) ==
  IF e.exc # "" THEN {"fit-raised"}
  ELSE UNION {Clause("fit-" \o k,
         RClose(e.out[k], e.inv[k], "1e-4",
                IF k \in {"C0", "C1", "C2", "C3"} THEN "1e-9" ELSE "1e-4"))
              : k \in DOMAIN e.inv}

Clauses(e) == IF e.fn = "fit_sandia" THEN FitClauses(e) ELSE CallClauses(e)

SInit(meta) == "run"
SStep(meta, st, e) == <<st, Clauses(e)>>
=============================================================================
