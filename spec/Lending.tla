------------------------------- MODULE Lending -------------------------------
(* Containers a caller lends to one call after another.  Each event is one call:
   e.v the version lent, e.before/e.after what the caller sees in the containers
   around the call, e.out the numbers that came back, e.ref those of the same
   call with containers nobody else has.  The state remembers what each version
   held when it was first lent.                                                *)
EXTENDS R64, Integers, Sequences
Same(a, b) == a = b \/ (a # "NaN" /\ b # "NaN" /\ RClose(a, b, "1e-10", "1e-13"))
SInit(m) == [a |-> "", b |-> ""]
SStep(m, st, e) ==
  <<[st EXCEPT ![e.v] = IF st[e.v] = "" THEN e.before ELSE st[e.v]],
    IF e.exc # "" THEN {m.fn \o ".raised"}
    ELSE Clause(m.fn \o ".container-changed", e.before = e.after /\ (st[e.v] = "" \/ st[e.v] = e.before))
         \cup Clause(m.fn \o ".depends-on-earlier-calls", Len(e.out) = Len(e.ref) /\ \A i \in 1..Len(e.out) : Same(e.out[i], e.ref[i]))>>
=============================================================================
