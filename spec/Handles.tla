------------------------------ MODULE Handles ------------------------------
(* Observed calls of readers on sources whose opens, reads and closes are
   watched.  A source is one content; every good reading of it, by whichever
   way, gives one result, and so does a reading after a failed one.
   st: the handles of the call under way, and the result known so far.        *)
EXTENDS HandleOps, R64
SInit(m) == [c |-> Start({}), ref |-> "", live |-> FALSE]
Fresh(st, c) == [st EXCEPT !.c = c]
SStep(m, st, e) ==
  CASE e.op = "call" -> <<[st EXCEPT !.c = Start({e.users[i] : i \in 1..Len(e.users)}), !.live = TRUE], {}>>
    [] e.op = "open" -> <<Fresh(st, AfterOpen(st.c, e.id)), {}>>
    [] e.op = "read" -> <<Fresh(st, AfterRead(st.c, e.id)), {}>>
    [] e.op = "fault" -> <<Fresh(st, AfterFault(st.c)), {}>>
    [] e.op = "close" -> <<Fresh(st, AfterClose(st.c, e.id)), {}>>
    [] e.op = "ret" ->
       LET c == AfterReturn(st.c, e.ok)
           good == e.whole /\ ~st.c.fault
           ref == IF good /\ e.ok /\ st.ref = "" THEN e.sum ELSE st.ref
       IN  <<[st EXCEPT !.c = c, !.live = FALSE, !.ref = ref],
             {m.reader \o "." \o b : b \in c.bad}
             \cup Clause(m.reader \o ".good-source-refused", good => e.ok)
             \cup Clause(m.reader \o ".result-differs", good /\ e.ok => e.sum = ref)
             \cup Clause(m.reader \o ".unclosed-file-dropped", e.dropped = 0)
             \cup Clause(m.reader \o ".source-changed", e.same)>>
=============================================================================
