----------------------------- MODULE ClearDetect -----------------------------
(* Observations of clearsky.detect_clearsky.                                  *)
EXTENDS ClearDetectOps

On(e) == {i \in 1..e.n : e.flags[i]}
DetectStep(e) ==
  IF Refused(e.k, e.n, e.dt, e.regular) THEN Clause("detect.accepted", e.exc # "")
  ELSE IF e.exc # "" THEN {"detect.raised-" \o e.exc}
  ELSE LET q == Detect(e.meas, e.clear, e.k, e.dt, e.exact)
           w == PerWindow(e.k, e.dt)
           At(j) == j + (w \div 2)      \* components stand at the centre of their window
           Sure == {"mean_diff_flag", "max_diff_flag", "line_length_flag", "slope_nstd_flag", "slope_max_flag", "mean_nan_flag"}
           Num == {"mean_diff", "max_diff", "line_length", "slope_nstd", "slope_max"}
           \* reported differences use the scaling returned
           v == Pass(e.meas, e.clear, q.next, Limits(e.k, e.dt), w, e.dt, TRUE)
           Rep(j, c) == IF c \in {"mean_diff", "max_diff"} THEN v.st[j][c] ELSE q.st[j][c]
       IN  IF q.doubt THEN {}
           ELSE Clause("detect.samples", On(e) = q.on)
                \cup Clause("detect.form", e.typed /\ e.kept)
                \cup (IF ~e.parts THEN {} ELSE
                      Clause("detect.alpha", RClose(e.alpha, q.next, "1e-9", "0"))
                      \cup {"detect." \o c : c \in {c \in Sure : \E j \in 1..Len(q.win) : e.comp[c][At(j)] # (q.fl[j][c] = "yes")}}
                      \cup {"detect." \o c : c \in {c \in Num : \E j \in 1..Len(q.win) : ~RClose(e.comp[c][At(j)], Rep(j, c), "1e-7", "1e-7")}}
                      \cup Clause("detect.windows", \A i \in 1..e.n : e.comp.windows[i] = (\E j \in 1..Len(q.win) : i = At(j) /\ q.win[j] = "yes")))
                \cup Clause("detect.warning", e.warned = ~q.converged)
\* the same data told another way
SameStep(e) == Clause("same." \o e.what, e.excs[1] = e.excs[2] /\ (e.excs[1] = "" => e.flags[1] = e.flags[2]))
SInit(m) == "x"
SStep(m, st, e) == <<st, IF e.kind = "detect" THEN DetectStep(e) ELSE SameStep(e)>>
=============================================================================
