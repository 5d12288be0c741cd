------------------------------ MODULE DirintObs ------------------------------
(* Observations of irradiance.dirint, dirindex and gti_dirint.                 *)
EXTENDS DirintOps, Integers, Sequences
Among(y, S, t) == \E x \in S : RClose(y, x, t, "1e-9")
\* a missing dew point is documented to count as not given
NoDew(s) == [s EXCEPT !.dew = [k \in 1..Len(@) |-> IF IsNaN(@[k]) THEN "None" ELSE @[k]]]
DirClauses(e) ==
  IF e.exc # "" THEN {"dirint.raised-" \o e.exc}
  ELSE LET o == DirintOpts(NoDew(e.s)) IN
    IF Len(e.y) # Len(o) THEN {"dirint.shape"}
    ELSE UNION {IF Among(e.y[k], o[k], "1e-7") THEN {}
                ELSE IF IsNaN(e.s.dew[k]) /\ IsNaN(e.y[k]) THEN {"dirint.missing-dew-point"} ELSE {"dirint@" \o SOfInt(k)} : k \in 1..Len(o)}
         \cup Clause("dirint.inputs-changed", e.kept) \cup Clause("dirint.type", e.typed)
IdxClauses(e) ==
  IF e.exc # "" THEN {"dirindex.raised-" \o e.exc}
  ELSE LET a == DirintOpts(e.s)  b == DirintOpts([e.s EXCEPT !.ghi = e.clear]) IN
    IF Len(e.y) # Len(a) THEN {"dirindex.shape"}
    ELSE UNION {Clause("dirindex@" \o SOfInt(k),
                  \E x \in a[k] : \E w \in b[k] : LET v == Index(e.dni[k], x, w) IN RClose(e.y[k], v, "1e-7", "1e-9") \/ (w \doteq "0" /\ ~RIsFinite(v) /\ ~RIsFinite(e.y[k]))) : k \in 1..Len(a)}
         \cup Clause("dirindex.negative", \A k \in 1..Len(a) : ~(e.y[k] \prec "0"))
         \cup Clause("dirindex.inputs-changed", e.kept)
GtiClauses(e) ==
  LET g == e.g IN
  IF ~\E k \in Ks(g) : Front(g, k) THEN Clause("gti.all-behind.accepted", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"gti.raised-" \o e.exc}
  ELSE LET q == TLCEval(Run(g, First(g), <<>>))
           s == q.s
           o == GtiOpts(g, s, q.h) IN
    IF Len(e.ghi) # Len(o) THEN {"gti.shape"}
    ELSE UNION {Clause((IF Front(g, k) THEN "gti.front@" ELSE "gti.behind@") \o SOfInt(k),
                  \E x \in o[k] : RClose(e.ghi[k], x.ghi, "1e-6", "1e-6") /\ RClose(e.dni[k], x.dni, "1e-6", "1e-6") /\ RClose(e.dhi[k], x.dhi, "1e-6", "1e-6")) : k \in Ks(g)}
         \cup Clause("gti.warning", e.warned = ~Settled(g, s))
         \* the answer explains the measurement
         \cup UNION {Clause("gti.explains@" \o SOfInt(k), (Front(g, k) /\ s.best[k] \preceq "1") => RClose(Forward(g, k, e.ghi[k], e.dni[k], e.dhi[k]), g.poa[k], "0", "1.0001")) : k \in Ks(g)}
         \cup Clause("gti.negative", \A k \in Ks(g) : Front(g, k) => ~(e.ghi[k] \prec "0") /\ ~(e.dni[k] \prec "0") /\ ~(e.dhi[k] \prec "0"))
         \cup Clause("gti.inputs-changed", e.kept) \cup Clause("gti.type", e.typed)
SInit(m) == 0
SStep(m, s, e) == <<s, CASE e.fn = "dirint" -> DirClauses(e) [] e.fn = "dirindex" -> IdxClauses(e) [] e.fn = "gti" -> GtiClauses(e)>>
=============================================================================
