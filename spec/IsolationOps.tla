--------------------------- MODULE IsolationOps ---------------------------
(* Which multi-array inputs a ModelChain takes and how results are held.       *)
EXTENDS R64, Integers, Sequences
\* one frame can only be shared by several arrays where sun-facing irradiance
\* is computed from it
Sharing(s) == s.kind \in {"weather", "prepare"}
Refused(s) ==
  \/ s.form = "bare" /\ s.n > 1 /\ ~Sharing(s)
  \/ s.form # "bare" /\ s.len # s.n
  \/ s.defect # "no"
\* per-array results: tuples when there are several arrays or tuple input
Shape(s) == IF s.n = 1 /\ s.form = "bare" THEN "bare" ELSE "tuple" \o SOfInt(s.n)
=============================================================================
