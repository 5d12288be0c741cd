------------------------------ MODULE Soiling ------------------------------
(* Kimber and HSU soiling as automata over the rain record.  State: recent    *)
(* rain, time of the last cleaning rain, and the soiling accumulated so far.   *)
EXTENDS R64, Sequences, Integers

\* rain within the accumulation period ending now; times in seconds
Recent(w, e, period) == SelectSeq(Append(w, [t |-> e.t, rain |-> e.rain]), LAMBDA x : x.t \succ (e.t -- period))
Valid(w) == {i \in 1..Len(w) : ~IsNaN(w[i].rain)}
Accum(w) == IF Valid(w) = {} THEN NaN ELSE RSum([i \in 1..Len(w) |-> IF IsNaN(w[i].rain) THEN "0" ELSE w[i].rain])

(* Kimber *)
KNext(m, s, e) ==
  LET w == Recent(s.w, e, m.period)
      rain == Accum(w) \succ m.threshold
      last == IF rain THEN e.t ELSE s.last
      damp == last # "None" /\ last \succ (e.t -- m.grace)
      grown == IF s.first THEN m.initial ELSE s.soil ++ (m.rate ** (m.step // "86400"))
  IN  [first |-> FALSE, w |-> w, last |-> last, soil |-> IF damp \/ e.wash THEN "0" ELSE grown]
KOut(m, s) == RMin(s.soil, m.max)

(* HSU *)
MassRate(m, e) == ((e.pm2_5 ** m.depo2) ++ (RMax(e.pm10 -- e.pm2_5, "0") ** m.depo10)) ** CosD(e.tilt)
HNext(m, s, e) ==
  LET w == Recent(s.w, e, m.period)
      clean == Accum(w) \succeq m.threshold
  IN  [s EXCEPT !.first = FALSE, !.w = w, !.soil = IF clean THEN "0" ELSE s.soil ++ (MassRate(m, e) ** e.seconds)]
HOut(s) == "1" -- ("0.3437" ** RErf("0.17" ** (s.soil ^^ "0.8473")))

SInit(m) == IF m.kind \in {"kimber", "hsu"} THEN [first |-> TRUE, w |-> <<>>, last |-> "None", soil |-> "0"] ELSE 0
SStep(m, s, e) ==
  CASE m.kind = "kimber" -> LET t == KNext(m, s, e) IN
         <<t, Clause("kimber.soiling", RClose(e.out, KOut(m, t), "1e-9", "1e-9")) \cup Clause("kimber.index", e.idx)>>
    [] m.kind = "hsu" -> LET t == HNext(m, s, e) IN
         <<t, Clause("hsu.ratio", RClose(e.out, HOut(t), "1e-7", "1e-7")) \cup Clause("hsu.index", e.idx)
              \cup Clause("hsu.range", e.out \preceq "1" /\ e.out \succeq "0.6562999")>>
    [] OTHER -> <<s, Clause(e.what, e.ok)>>
=============================================================================
