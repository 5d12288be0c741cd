------------------------------ MODULE SearchMC -----------------------------
EXTENDS SearchOps, IOUtils
VARIABLES q, b0, atol, b, k
Locs == {"-1", "0", "0.3", "1", "2.5"}
Brackets == {[lo |-> "0", hi |-> "1"], [lo |-> "-3", hi |-> "4"], [lo |-> "0.3", hi |-> "0.3"], [lo |-> "0", hi |-> "100"]}
Init == /\ q \in [f : {"quad", "abs", "skew", "step"}, m : Locs, s : {"1", "1000"}] \cup [f : {"up", "down"}, m : {"0"}, s : {"1"}]
        /\ b0 \in Brackets /\ atol \in {"1e-8", "1e-3"}
        /\ b = b0 /\ k = 0
Done == Small(b, atol)
Next == ~Done /\ b' = Narrow(q, b) /\ k' = k + 1 /\ UNCHANGED <<q, b0, atol>>
\* the bracket stays inside the bounds and keeps the maximum
Inside == (b0.lo \preceq b.lo) /\ (b.hi \preceq (b0.hi ++ "1e-12")) /\ (b.lo \preceq (b.hi ++ "1e-12"))
Keeps == LET x == Best(q, b0.lo, b0.hi) t == LocTol(q, b0.lo, b0.hi, "0") IN (b.lo \preceq (x ++ t)) /\ ((x -- t) \preceq b.hi)
Shrinks == RClose(b.hi -- b.lo, (b0.hi -- b0.lo) ** (Phi ^^ k), "1e-6", "1e-9")
\* the number of narrowings depends only on width and tolerance
Terminates == k <= Steps(b0.hi -- b0.lo, atol)
Answer == Done => RAbs(((b.lo ++ b.hi) // "2") -- Best(q, b0.lo, b0.hi)) \preceq LocTol(q, b0.lo, b0.hi, atol)
Emit == ~Done \/ VEmit(IOEnv.VOUT, [q |-> q, lo |-> b0.lo, hi |-> b0.hi, atol |-> atol])
=============================================================================
