------------------------------ MODULE History ------------------------------
(* Recorded operations of two ModelChains.  Each event: the operation, a       *)
(* digest of every result field of the chain used (got), of a fresh chain      *)
(* given the same input (ref), of the other chain, of system, location and     *)
(* inputs, and of result objects taken by the user after earlier operations.   *)
EXTENDS R64, Sequences, FiniteSets, Integers, TLC
SInit(m) == [other |-> <<"none", "none">>, sys |-> m.sys]
\* a preparation step answers only for what it writes, a run for every result
Fields(e) == IF e.kind \in {"complete", "prepare", "prepare_poa"} THEN {f \in DOMAIN e.ref : e.ref[f] # "None"} ELSE DOMAIN e.got \cup DOMAIN e.ref
Val(r, f) == IF f \in DOMAIN r THEN r[f] ELSE "None"
SStep(m, st, e) ==
  LET nx == [st EXCEPT !.other[e.c] = e.all] IN
  <<nx, (IF e.refexc # "" THEN Clause("accepted-what-a-fresh-chain-refuses", e.exc # "") \cup Clause("other-error", e.exc = "" \/ e.exc = e.refexc)
         ELSE IF e.exc # "" THEN {"raised-" \o e.exc}
         ELSE {"history-dependent." \o f : f \in {g \in Fields(e) : Val(e.got, g) # Val(e.ref, g)}})
        \cup Clause("system-or-location-changed", e.sys = st.sys)
        \cup Clause("input-changed", e.inputs)
        \cup Clause("earlier-results-changed", e.captured)
        \cup Clause("other-chain-changed", e.other = st.other[3 - e.c])>>
=============================================================================
