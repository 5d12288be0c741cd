---------------------------- MODULE ReversePoaObs --------------------------
(* Observations of ghi_from_poa_driesse_2024.                                *)
EXTENDS ReversePoa
\* arguments given once apply to every row
RowOf(e, i) == [x \in DOMAIN e.a |-> IF Len(e.a[x]) = 1 THEN e.a[x][1] ELSE e.a[x][i]]
\* one row: w the inputs with poa_global, out the estimate
RowClauses(e, i) ==
  LET w == RowOf(e, i)  t == w.poa_global  y == e.out.ghi[i]
      top == Poa(w, High(w))  eps == "1e-6" ++ ("1e-9" ** RAbs(t))
      step == "2" ** e.xtol
      l == Poa(w, RMax("0", y -- step)) h == Poa(w, y ++ step) at == Poa(w, y)
      last == High(w) // Pow2[Halvings]
  IN  IF IsNaN(t) THEN Clause("rev.nan", IsNaN(y) /\ ~e.out.conv[i] /\ e.out.niter[i] = 0)
      ELSE IF t \preceq "0" THEN Clause("rev.dark", y \doteq "0" /\ e.out.conv[i] /\ e.out.niter[i] = 0)
      ELSE IF IsNaN(top) \/ top \prec (t -- eps) THEN Clause("rev.unreachable", IsNaN(y) /\ ~e.out.conv[i] /\ e.out.niter[i] = -1)
      ELSE IF top \prec (t ++ eps) THEN {}
      ELSE Clause("rev.solution-missing", ~IsNaN(y))
           \cup (IF IsNaN(y) THEN {} ELSE
                Clause("rev.bounds", "0" \preceq y /\ y \preceq High(w))
                \cup Clause("rev.converges", IF last \prec (e.xtol ** "0.9") THEN e.out.conv[i] ELSE (e.xtol ** "1.1") \prec last => ~e.out.conv[i])
                \cup Clause("rev.effort", e.out.niter[i] \in 1..Halvings)
                \cup (IF e.out.conv[i] THEN
                        Clause("rev.not-a-solution", \/ ((l -- t) ** (h -- t)) \preceq "0" \/ RClose(at, t, "0", step))
                      ELSE {}))
SInit(m) == 0
SStep(m, st, e) == <<st,
  IF e.bad # "" THEN Clause("rev.bad-tolerance-accepted", e.exc = e.bad)
  ELSE IF e.exc # "" THEN {"rev.raised-" \o e.exc}
  ELSE IF ~(Len(e.out.ghi) = e.n /\ Len(e.out.conv) = e.n /\ Len(e.out.niter) = e.n) THEN {"rev.shape"}
  ELSE UNION {RowClauses(e, i) : i \in 1..e.n}
       \cup Clause("rev.form", e.formok) \cup Clause("rev.inputs-changed", e.kept) \cup Clause("rev.short-output", e.short)>>
=============================================================================
