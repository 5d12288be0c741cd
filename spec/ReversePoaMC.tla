---------------------------- MODULE ReversePoaMC ---------------------------
(* The bisection as a transition system: the bracket halves until it is       *)
(* narrower than the tolerance or the halvings run out.                       *)
EXTENDS ReversePoa, IOUtils
VARIABLES c, lo, hi, n, tgt
vars == <<c, lo, hi, n, tgt>>
Mid == (lo ++ hi) // "2"
Cases == {[surface_tilt |-> t, surface_azimuth |-> a, solar_zenith |-> z, solar_azimuth |-> "180", dni_extra |-> "1367", albedo |-> "0.25"] :
           t \in {"0", "35", "90", "130"}, a \in {"180", "0"}, z \in {"5", "60", "86", "88"}}
Init == /\ c \in Cases /\ \E k \in {"0.05", "0.3", "0.75", "1"} : tgt = Poa(c, k ** (High(c) // "1.25"))
        /\ lo = "0" /\ hi = High(c) /\ n = 0
Solvable == Poa(c, High(c)) \succeq tgt
Next == /\ Solvable /\ n < 12
        /\ IF Poa(c, Mid) \prec tgt THEN lo' = Mid /\ hi' = hi ELSE hi' = Mid /\ lo' = lo
        /\ n' = n + 1 /\ UNCHANGED <<c, tgt>>
\* a solution stays bracketed, and the bracket is the first one halved n times
Bracket == Solvable => Poa(c, lo) \preceq (tgt ++ "1e-9") /\ tgt \preceq (Poa(c, hi) ++ "1e-9")
Width == RClose(hi -- lo, High(c) // Pow2[n], "1e-9", "1e-9")
\* with no sun there is nothing on the plane either
Dark == Poa(c, "0") \doteq "0"
Emit == n > 0 \/ VEmit(IOEnv.VOUT, c @@ [target |-> tgt])
=============================================================================
