----------------------------- MODULE HandlesMC -----------------------------
(* Every way a call of a reader can go: where the data come from, where the
   reading breaks off, and how often the caller asks again.  A tidy library
   (Care) opens, reads and closes in any order it likes; a careless one may also
   forget to close, close what is not its own, or go on after a failed read -
   and then, and only then, must the observer (HandleOps) say so.               *)
EXTENDS HandleOps, R64, IOUtils, TLC
CONSTANTS Reads, Calls, Care
VARIABLES form, plan, s, pc, n, slip
vars == <<form, plan, s, pc, n, slip>>
Forms == {"path", "pathlib", "gz", "url", "handle", "temp", "buffer"}
Mine == {"handle", "temp", "buffer"}
Breaks(f) == {<<"none", 0>>}
  \cup (IF f \in Mine THEN {} ELSE {<<"open", 0>>})
  \cup (IF f = "buffer" THEN {} ELSE {<<"read", k>> : k \in 1..(Reads + 1)})
  \cup {<<"cut", k>> : k \in 0..(Reads - 1)}
  \cup (IF f \in {"gz", "buffer"} THEN {} ELSE {<<"junk", k>> : k \in 1..Reads})
Begin == Start(IF form \in Mine THEN {1} ELSE {})
Init == /\ form \in Forms /\ plan = <<>> /\ pc = "idle" /\ n = 0 /\ slip = FALSE
        /\ s = Begin
Now == plan[Len(plan)]
Call == /\ pc = "idle" /\ Len(plan) < Calls
        /\ \E b \in Breaks(form) : plan' = Append(plan, b)
        /\ pc' = IF form \in Mine THEN "read" ELSE "open"
        /\ s' = [Begin EXCEPT !.bad = s.bad] /\ n' = 0 /\ UNCHANGED <<form, slip>>
Open == /\ pc = "open"
        /\ IF Now[1] = "open" THEN s' = AfterFault(s) /\ pc' = "raise"
           ELSE s' = AfterOpen(s, 2) /\ pc' = "read"
        /\ UNCHANGED <<form, plan, n, slip>>
Id == IF form \in Mine THEN 1 ELSE 2
Read == /\ pc = "read" /\ n <= Reads
        /\ n' = n + 1
        /\ IF Now[1] = "read" /\ Now[2] = n + 1
           THEN /\ s' = AfterFault(AfterRead(s, Id))
                /\ \E g \in IF Care THEN {FALSE} ELSE BOOLEAN : pc' = IF g THEN "done" ELSE "fail"
                /\ slip' = (slip \/ pc' = "done")
           ELSE s' = AfterRead(s, Id) /\ UNCHANGED <<pc, slip>>
        /\ UNCHANGED <<form, plan>>
\* the content ends, is cut short or makes no sense: stop or go on to the end
Stop == pc = "read" /\ ~s.fault /\ n > 0 /\ pc' \in {"done", "fail"} /\ UNCHANGED <<form, plan, s, n, slip>>
Tidy == /\ pc \in {"done", "fail"}
        /\ \E forget, wrong \in IF Care THEN {FALSE} ELSE BOOLEAN :
             /\ s' = IF form \in Mine THEN (IF wrong THEN AfterClose(s, 1) ELSE s) ELSE IF forget THEN s ELSE AfterClose(s, 2)
             /\ slip' = (slip \/ (form \in Mine /\ wrong) \/ (form \notin Mine /\ forget))
        /\ pc' = IF pc = "done" THEN "ok" ELSE "raise"
        /\ UNCHANGED <<form, plan, n>>
Return == pc \in {"ok", "raise"} /\ s' = AfterReturn(s, pc = "ok") /\ pc' = "idle" /\ UNCHANGED <<form, plan, n, slip>>
Next == Call \/ Open \/ Read \/ Stop \/ Tidy \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the observer complains exactly about careless calls
Judged == pc = "idle" => ((s.bad # {}) <=> slip)
Clean == pc = "idle" /\ Care => s.bad = {} /\ \A x \in s.h : x.open <=> x.own = "user"
Ends == (pc # "idle") ~> (pc = "idle")
Emit == (pc = "idle" /\ plan # <<>> /\ Care) => VEmit(IOEnv.VOUT, [form |-> form, plan |-> [i \in 1..Len(plan) |-> [k |-> plan[i][1], at |-> plan[i][2]]]])
=============================================================================
