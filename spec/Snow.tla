-------------------------------- MODULE Snow -------------------------------
(* NREL snow coverage of a row as an automaton (state: covered fraction of    *)
(* the slant height), its DC loss, and the Townsend monthly loss.              *)
EXTENDS Point

\* does this interval's snowfall cover the row completely?
Rate(m, first, e) == IF first /\ ~m.regular THEN "0" ELSE e.snowfall // e.hours
Covers(m, first, e) ==
  /\ Rate(m, first, e) \succ m.threshold_snowfall
  /\ e.depth = "None" \/ e.depth \succeq m.threshold_depth
Melts(m, e) == e.depth # "None" /\ e.depth \prec m.threshold_depth
CanSlide(m, e) == e.temp_air \succ (e.poa // m.can_slide)
Slide(m, first, e) ==
  IF first \/ ~CanSlide(m, e) THEN "0"
  ELSE (m.slide ** SinD(e.tilt)) ** e.hours

Cover(m, first, cov, e) ==
  CASE Covers(m, first, e) -> "1"
    [] Melts(m, e) -> "0"
    [] OTHER -> RMax("0", cov -- Slide(m, first, e))

\* the fraction of strings touched by snow (a product within rounding of a whole number may go either way)
StringLoss(cov, n) == RCeil(cov ** n) // n
LossOK(x, cov, n) == RClose(x, StringLoss(cov, n), "0", "1e-9")
      \/ RClose(x, RCeil((cov ** n) -- "1e-9") // n, "0", "1e-9")

Effective(s, n) == IF n \succ "0" THEN ("0.5" ** s) ** ("1" ++ ("1" // RMax(n, "1"))) ELSE "0"
Townsend(e, i) ==
  LET j == IF i = 1 THEN e.n ELSE i - 1
      In(k) == e.a.snow_total[k] // "2.54"
      ew == ("0.3333333333333333" ** Effective(In(j), e.a.snow_events[j]))
            ++ ("0.6666666666666666" ** Effective(In(i), e.a.snow_events[i]))
      low == e.k.lower_edge_height ** "39.37"
      dist == RMax((low ** low) -- (ew ** ew), "0.1")
      gamma == (((((e.k.slant_height ** "39.37") ** ew) ** CosD(e.k.surface_tilt)) // dist) ** "2") ** TanD(e.k.angle_of_repose)
      ground == "1" -- ("0.51" ** RExp(RNeg(gamma)))
      tk == e.a.temp_air[i] ++ "273.15"
      c2 == CosD(e.k.surface_tilt) ** CosD(e.k.surface_tilt)
      raw == ((((("5.7e4" ** ew) ** c2) ** ground) ** (e.a.relative_humidity[i] // "100")) // (tk ** tk))
             // ((e.a.poa_global[i] // "1000") ^^ "0.67")
  IN  RClip((raw ** e.k.string_factor) ** e.k.front_side_fraction, "0", "1")
TownsendClauses(e) ==
  IF e.exc # "" THEN {"townsend.raised"}
  ELSE IF Len(e.out.y) # e.n THEN {"townsend.shape"}
  ELSE UNION {Clause("townsend@" \o SOfInt(i), Near(e.out.y[i], Townsend(e, i))) : i \in 1..e.n}

SInit(m) == IF m.kind = "snow" THEN [first |-> TRUE, cov |-> m.initial] ELSE 0
SStep(m, s, e) ==
  CASE m.kind = "snow" ->
       LET cov == Cover(m, s.first, s.cov, e)
       IN <<[first |-> FALSE, cov |-> cov],
            Clause("covered", e.covered = Covers(m, s.first, e))
            \cup Clause("coverage", RClose(e.out, cov, "1e-9", "1e-9"))
            \cup Clause("range", ~(e.out \prec "0") /\ ~(e.out \succ "1"))
            \cup Clause("index", e.idx)
            \cup UNION {Clause("dc_loss@" \o n, LossOK(e.loss[n], e.out, n)) : n \in DOMAIN e.loss}>>
    [] m.kind = "townsend" -> <<s, TownsendClauses(e)>>
    [] OTHER -> <<s, Clause(e.what, e.ok)>>
=============================================================================
