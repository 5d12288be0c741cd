----------------------------- MODULE HistoryMC -----------------------------
(* Two ModelChains on one system and location; each operation replaces the   *)
(* results of its own chain.  A result carries the number of the operation    *)
(* that wrote it.  Explored for all histories up to length L.                 *)
EXTENDS Integers, Sequences, FiniteSets, IOUtils, TLC, R64
CONSTANTS L
VARIABLES hist, res
Kinds == {"weather", "poa", "eff", "complete", "prepare", "prepare_poa", "rerun"}
Sun == {"solar_position", "times", "weather"}
Power == {"cell_temperature", "dc", "losses", "ac"}
Writes(k) == CASE k \in {"weather", "rerun"} -> Sun \cup Power \cup {"airmass", "aoi", "albedo", "total_irrad", "aoi_modifier", "spectral_modifier", "effective_irradiance"}
               [] k = "poa" -> Sun \cup Power \cup {"airmass", "aoi", "total_irrad", "aoi_modifier", "spectral_modifier", "effective_irradiance"}
               [] k = "eff" -> Power \cup {"times", "weather", "total_irrad", "effective_irradiance"}
               [] k = "complete" -> Sun
               [] k = "prepare" -> Sun \cup {"airmass", "aoi", "albedo", "total_irrad"}
               [] OTHER -> Sun \cup {"airmass", "aoi", "total_irrad"}
\* the steps of a run before the one that can fail in the middle
Before(k) == Writes(k) \ (Power \cup {"spectral_modifier", "effective_irradiance"})
Ops == {o \in [c : 1..2, kind : Kinds, ds : 1..3, form : {"bare", "tuple"}, bad : {"no", "early", "mid"}] :
          /\ o.bad # "no" => o.form = "tuple" /\ o.ds = 1
          /\ o.bad = "mid" => o.kind \in {"weather", "poa", "eff"}
          /\ o.kind = "rerun" => o.bad = "no" /\ o.ds = 1 /\ o.form = "bare"
          /\ o.kind \in {"prepare", "prepare_poa"} => o.ds = 2
          /\ o.kind = "complete" => o.ds # 2}
Prep == {"complete", "prepare", "prepare_poa"}
Empty == [f \in {} |-> 0]
Init == hist = <<>> /\ res = [c \in 1..2 |-> Empty]
HasWeather(c) == {"weather", "solar_position"} \subseteq DOMAIN res[c]
Do(o) ==
  /\ Len(hist) = 0 => (o.c = 1 /\ o.ds < 3)
  /\ o.kind = "rerun" => (hist # <<>> /\ hist[Len(hist)].c = o.c /\ hist[Len(hist)].kind \in {"weather", "complete", "prepare"} /\ hist[Len(hist)].bad = "no")
  /\ hist' = Append(hist, o)
  /\ LET k == Len(hist) + 1 IN
     res' = [res EXCEPT ![o.c] = CASE o.bad = "no" -> IF o.kind \in Prep THEN [f \in Writes(o.kind) |-> k] @@ @ ELSE [f \in Writes(o.kind) |-> k]
                                   [] o.bad = "mid" -> [f \in Before(o.kind) |-> k]
                                   [] OTHER -> @]
Next == Len(hist) < L /\ \E o \in Ops : Do(o)
Last == hist[Len(hist)]
\* nothing of an earlier run is left after a successful one
NoStale == hist # <<>> /\ Last.bad = "no" /\ Last.kind \notin Prep => /\ \A f \in DOMAIN res[Last.c] : res[Last.c][f] = Len(hist)
                                              /\ DOMAIN res[Last.c] = Writes(Last.kind)
\* results of a chain come only from its own operations
Own == \A c \in 1..2 : \A f \in DOMAIN res[c] : hist[res[c][f]].c = c
Emit == Len(hist) < L \/ VEmit(IOEnv.VOUT, [ops |-> hist])
=============================================================================
