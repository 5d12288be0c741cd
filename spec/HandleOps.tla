----------------------------- MODULE HandleOps -----------------------------
(* Who holds what during one call of a reader: h maps a handle to its owner
   ("lib" opened during the call, "user" handed over by the caller) and to
   whether it is open.  Events: open, read, close, fault.                      *)
EXTENDS Integers, Sequences, FiniteSets
Held(own, id) == [id |-> id, own |-> own, open |-> TRUE]
Start(users) == [h |-> {Held("user", u) : u \in users}, fault |-> FALSE, bad |-> {}]
Of(s, id) == {x \in s.h : x.id = id}
Mark(s, b, name) == IF b THEN s ELSE [s EXCEPT !.bad = @ \cup {name}]
AfterOpen(s, id) == [s EXCEPT !.h = @ \cup {Held("lib", id)}]
AfterClose(s, id) ==
  LET m == Mark(s, \A x \in Of(s, id) : x.own = "lib", "caller-handle-closed")
  IN  [m EXCEPT !.h = {IF x.id = id THEN [x EXCEPT !.open = FALSE] ELSE x : x \in @}]
AfterRead(s, id) == Mark(s, \A x \in Of(s, id) : x.open, "read-after-close")
AfterFault(s) == [s EXCEPT !.fault = TRUE]
AfterReturn(s, ok) ==
  LET a == Mark(s, \A x \in s.h : x.own = "lib" => ~x.open, IF ok THEN "left-open-on-success" ELSE "left-open-on-failure")
      b == Mark(a, \A x \in s.h : x.own = "user" => x.open, "caller-handle-closed")
  IN  Mark(b, ~(s.fault /\ ok), "failed-read-not-raised")
=============================================================================
