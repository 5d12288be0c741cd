----------------------------- MODULE Isolation -----------------------------
(* Observed multi-array runs: acceptance and containers ("outcome"), and each *)
(* array's results beside those of a one-array system ("array").              *)
EXTENDS IsolationOps, FiniteSets, TLC
SInit(m) == "x"
\* weather shared by all arrays stays one frame; complete_irradiance holds what it was given
Want(s, f) == IF f = "weather" /\ s.form = "bare" THEN "bare"
              ELSE IF s.kind = "complete" THEN (IF s.form = "bare" THEN "bare" ELSE "tuple" \o SOfInt(s.n))
              ELSE Shape(s)
Cols(e) == DOMAIN e.got \cup DOMAIN e.ref
Same(a, b) == Len(a) = Len(b) /\ \A t \in 1..Len(a) : RClose(a[t], b[t], "1e-8", "1e-9")
SStep(m, st, e) ==
  <<st, IF e.kind = "outcome" THEN
          IF Refused(m) THEN Clause("accepted-mismatched-input", e.exc # "") \cup Clause("unclear-error-" \o e.exc, e.exc \in {"", "ValueError", "TypeError"})
          ELSE IF e.exc # "" THEN {"refused-" \o e.exc}
          ELSE {"container." \o f : f \in {g \in DOMAIN e.shape : e.shape[g] \notin {"None", Want(m, g)}}} \cup Clause("types", e.types)
        ELSE {"array-not-alone." \o c : c \in {d \in Cols(e) : d \notin DOMAIN e.got \/ d \notin DOMAIN e.ref \/ ~Same(e.got[d], e.ref[d])}}>>
=============================================================================
