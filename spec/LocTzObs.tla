------------------------------ MODULE LocTzObs ------------------------------
(* Observations of Location: construction, assignment, views, attributes.     *)
(* State: [tz: the zone in force, at: the other attributes].                  *)
EXTENDS LocTz
Rejections == {"ValueError", "TypeError", "KeyError", "ZoneInfoNotFoundError", "UnknownTimeZoneError", "IsADirectoryError", "OverflowError"}
Views(e, tz) ==
  Clause("tz.view", e.tz = tz) \cup Clause("tz.is-string", e.isstr)
  \cup Clause("tz.pytz-view", e.pytz = tz)
  \cup Clause("tz.repr", e.repr)
  \* naive wall clocks localize to that zone
  \cup Clause("tz.localizes", \A i \in 1..Len(e.wall) : LET o == e.wall[i] IN Minutes(tz, o.d, o.s) = 9999 \/ o.min = Minutes(tz, o.d, o.s))
Kept(e, st) == UNION {Clause("tz.attribute-" \o a, e.at[a] = st.at[a]) : a \in DOMAIN st.at}
SInit(m) == [tz |-> "", at |-> [name |-> ""]]
SStep(m, st, e) ==
  CASE e.op = "new" ->
         IF e.exc # "" THEN <<st, Clause("tz.construction-refused", ~MustAccept(e.v) /\ e.exc \in Rejections)>>
         ELSE <<[tz |-> e.tz, at |-> e.at], Clause("tz.constructed", e.tz \in MayDenote(e.v)) \cup Views(e, e.tz)
                 \cup Clause("location.given-attributes", \A a \in DOMAIN e.given : e.at[a] = e.given[a])>>
    [] e.op = "set" ->
         IF e.exc # "" THEN <<st, Clause("tz.assignment-refused", ~MustAccept(e.v) /\ e.exc \in Rejections) \cup Views(e, st.tz) \cup Kept(e, st)>>
         ELSE <<[st EXCEPT !.tz = e.tz], Clause("tz.assigned", e.tz \in MayDenote(e.v)) \cup Views(e, e.tz) \cup Kept(e, st)>>
    \* changing another Location, a copy, or asking for the read-only view
    [] e.op = "other" -> <<st, Views(e, st.tz) \cup Kept(e, st)>>
    [] e.op = "readonly" -> <<st, Clause("tz.pytz-is-read-only", e.exc # "") \cup Views(e, st.tz) \cup Kept(e, st)>>
    [] e.op = "from" -> <<st, IF e.exc # "" THEN {"location.from-raised-" \o e.exc}
          ELSE Clause("location.from-metadata", /\ \A a \in DOMAIN e.given : e.at[a] = e.given[a]) \cup Clause("location.from-zone", e.tz \in Denotes(e.v)) \cup Clause("location.from-data", e.data) \cup Views(e, e.tz)>>
=============================================================================
