-------------------------------- MODULE Shared -------------------------------
(* Recorded histories of calls and overwritten results.  meta.ref holds, per
   operation, the fingerprint of its value in a process that did nothing else. *)
EXTENDS R64, Integers, Sequences
SInit(m) == [called |-> {}, poked |-> {}]
SStep(m, st, e) ==
  IF e.a = "poke" THEN <<[st EXCEPT !.poked = @ \cup {e.op}], {}>>
  ELSE <<[st EXCEPT !.called = @ \cup {e.op}],
         Clause(e.op \o (IF e.op \in st.poked THEN ".changed-by-caller" ELSE ".changed-by-history"), e.fp = m.ref[e.op])
         \cup Clause(e.op \o ".inputs-changed", e.kept)
         \cup {e.op \o ".process-state." \o k : k \in {x \in DOMAIN e.env : e.env[x] # "same"}}
         \cup Clause(e.op \o ".backend", e.backend \in {"any", m.want[e.op]} \/ m.want[e.op] = "any")>>
=============================================================================
