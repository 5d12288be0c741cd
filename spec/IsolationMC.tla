---------------------------- MODULE IsolationMC ----------------------------
(* Acceptance and container of per-array results, for every number of arrays, *)
(* run kind, container and defect of the input.                              *)
EXTENDS Integers, Sequences, IOUtils, TLC, R64, IsolationOps
VARIABLES sc, done
Init == done = FALSE /\ sc = [n |-> 1]
Kinds == {"weather", "poa", "eff", "complete", "prepare", "prepare_poa"}
Scen == {s \in [n : 1..4, kind : Kinds, form : {"bare", "tuple", "list"}, len : 0..5, defect : {"no", "index", "length", "column", "order"}, at : 1..4] :
  /\ s.form = "bare" => (s.len = 1 /\ s.at = 1 /\ s.defect \in {"no", "column"})
  /\ s.at <= s.len \/ s.at = 1
  /\ s.len = 0 => s.defect = "no"
  /\ s.defect \in {"index", "length", "order"} => s.len > 1
  /\ s.defect = "no" => s.at = 1
  /\ s.kind = "complete" => s.defect # "column"}
Next == ~done /\ done' = TRUE /\ sc' \in Scen
\* what is accepted yields one value per array
OnePer == done /\ ~Refused(sc) => (sc.form = "bare" \/ sc.len = sc.n)
BareOnlyOnce == done /\ ~Refused(sc) /\ Shape(sc) = "bare" => sc.n = 1 /\ sc.form = "bare"
Emit == ~done \/ VEmit(IOEnv.VOUT, sc)
=============================================================================
