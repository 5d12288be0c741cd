------------------------------ MODULE Dispatch ------------------------------
(* Observed PVSystem method calls beside the stand-alone calls of DispatchOps. *)
EXTENDS DispatchOps
SInit(m) == "x"
Refused(m) ==
  \/ (m.method \in DOMAIN Ops /\ BadForm(Ops[m.method], m.n, m.form))
  \/ m.keys = "missing"
  \/ (m.method = "ac.adr" /\ m.n > 1)
  \/ m.refused
Same(a, b) == DOMAIN a = DOMAIN b /\ \A c \in DOMAIN a : Len(a[c]) = Len(b[c]) /\ \A t \in 1..Len(a[c]) : RClose(a[c][t], b[c][t], "1e-10", "1e-12")
Rec(a, b) == DOMAIN a = DOMAIN b /\ \A c \in DOMAIN a : a[c] = b[c] \/ a[c] \doteq b[c]
SStep(m, st, e) ==
  <<st,
    CASE e.kind = "call" ->
      IF Refused(m) THEN Clause(m.method \o ".accepted-" \o m.keys, e.exc # "")
      ELSE IF e.exc # "" THEN {m.method \o ".raised-" \o e.exc}
      ELSE Clause(m.method \o ".container", e.cont = Container(m))
           \cup {m.method \o ".array" \o SOfInt(i) : i \in {j \in 1..Len(e.ref) : j > Len(e.got) \/ ~Same(e.got[j], e.ref[j])}}
           \cup Clause(m.method \o ".parameters-changed", e.kept)
    [] e.kind = "array" ->
       Clause("array.albedo", e.albedo \doteq ArrayAlbedo(m.albedo, m.surface))
       \cup Clause("array.temperature_model_parameters", Rec(e.temp, IF m.tempgiven THEN m.tempset ELSE ArrayTemp(m.racking, m.type)))
       \cup Clause("array.num_arrays", e.n = m.n) \cup Clause("array.order", e.order)
    [] OTHER -> Clause("empty-arrays-accepted", e.exc = "ValueError")>>
=============================================================================
