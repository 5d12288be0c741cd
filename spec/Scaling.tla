------------------------------- MODULE Scaling -----------------------------
(* Observations of scaling.wvm and scaling.latlon_to_xy.                      *)
EXTENDS ScalingOps

WvmClauses(e) ==
  LET sc == Scales(e.dt)
      nl == Len(sc)
      n == Len(e.x)
  IN  IF nl = 0 THEN Clause("too-coarse.accepted", e.exc # "")
      ELSE IF e.exc # "" THEN {"wvm.raised-" \o e.exc}
      ELSE IF Len(e.tm) # nl \/ Len(e.wav) # nl \/ Len(e.y) # n \/ \E l \in 1..Len(e.wav) : Len(e.wav[l]) # n
           THEN {"wvm.shape"}
      ELSE LET w == Wavelet(e.x, e.dt)
               f == Factors(e.pos, e.speed, sc)
           IN  Clause("timescales", RSeqClose(e.tm, sc, "1e-12", "0"))
               \cup UNION {Clause("mode" \o SOfInt(l), RSeqClose(e.wav[l], w[l], "1e-7", "1e-9")) : l \in 1..nl}
               \cup Clause("modes-sum", RSeqClose([k \in 1..n |-> Weighted(e.wav, [l \in 1..nl |-> "1"], k, nl)], e.x, "1e-7", "1e-9"))
               \cup Clause("smoothed", RSeqClose(e.y, [k \in 1..n |-> Weighted(w, f, k, nl)], "1e-7", "1e-9"))
               \cup Clause("index-or-type", e.typed)
               \cup Clause("inputs-changed", e.kept)

XYClauses(e) ==
  IF e.exc # "" THEN {"xy.raised-" \o e.exc}
  ELSE LET r == ToXY(e.c)
       IN  Clause("xy", Len(e.xy) = Len(r) /\ \A i \in 1..Len(r) : i <= Len(e.xy) => RSeqClose(e.xy[i], r[i], "1e-9", "1e-6"))

SInit(m) == 0
SStep(m, s, e) == <<s, IF e.fn = "wvm" THEN WvmClauses(e) ELSE XYClauses(e)>>
=============================================================================
