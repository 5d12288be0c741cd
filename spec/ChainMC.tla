------------------------------ MODULE ChainMC ------------------------------
(* Abstract data flow of a ModelChain run: every result carries the set of     *)
(* sources it was computed from.  Explored for every run kind, number of       *)
(* arrays, set of optional input columns per array and input container; every  *)
(* finished run is emitted as a scenario for the real code.                    *)
EXTENDS Integers, Sequences, FiniteSets, IOUtils, TLC, R64
VARIABLES sc, pc, prov, lossed
Kinds == {"weather", "poa", "eff"}
Opt == {"cell_temperature", "module_temperature", "albedo", "wind_speed", "temp_air"}
Groups == {"sapm", "other"}
Forms == {"bare", "tuple"}
N == sc.n
A == 1..N
Base(kind) == CASE kind = "weather" -> {"ghi", "dni", "dhi"} [] kind = "poa" -> {"poa_global", "poa_direct", "poa_diffuse"} [] OTHER -> {"effective_irradiance"}
Init == /\ \E kind \in Kinds, n \in 1..2, g \in Groups, f \in Forms, c1 \in SUBSET Opt, c2 \in SUBSET Opt, poa \in BOOLEAN :
             /\ n = 1 => c2 = {}
             /\ (f = "bare" /\ n = 2) => (kind = "weather" /\ c1 = c2)       \* one frame for all arrays
             /\ poa => kind = "eff"
             /\ sc = [kind |-> kind, n |-> n, temp |-> g, form |-> f, cols |-> IF n = 1 THEN <<c1>> ELSE <<c1, c2>>, poa |-> poa]
        /\ pc = "input" /\ prov = <<>> /\ lossed = 0
In(i, c) == <<c, IF sc.form = "bare" THEN 0 ELSE i>>
Col(i, c) == IF c \in sc.cols[i] THEN {In(i, c)} ELSE {<<"default-" \o c, i>>}
Sun == {<<"sun", 0>>}
Step(from, to) == pc = from /\ pc' = to /\ sc' = sc
P(f) == [i \in A |-> prov[i][f]]
Set(f(_), name) == prov' = [i \in A |-> prov[i] @@ (name :> f(i))]
Irr(i) == CASE sc.kind = "weather" -> Sun \cup {In(i, "ghi"), In(i, "dni"), In(i, "dhi"), <<"mount", i>>} \cup (IF "albedo" \in sc.cols[i] THEN {In(i, "albedo")} ELSE {<<"array-albedo", i>>})
            [] sc.kind = "poa" -> {In(i, "poa_global"), In(i, "poa_direct"), In(i, "poa_diffuse")}
            [] OTHER -> IF sc.poa THEN {In(i, "poa_global")} ELSE {}
Eff(i) == IF sc.kind = "eff" THEN {In(i, "effective_irradiance")} ELSE prov[i].irr \cup Sun \cup {<<"mount", i>>, <<"module", i>>}
Src(i) == IF "cell_temperature" \in sc.cols[i] THEN "given" ELSE IF "module_temperature" \in sc.cols[i] /\ sc.temp = "sapm" THEN "module" ELSE "model"
PoaT(i) == IF sc.kind = "eff" /\ ~sc.poa THEN prov[i].eff ELSE prov[i].irr
Cell(i) == CASE Src(i) = "given" -> {In(i, "cell_temperature")}
             [] Src(i) = "module" -> {In(i, "module_temperature"), <<"temperature-parameters", i>>} \cup PoaT(i)
             [] OTHER -> PoaT(i) \cup {<<"temperature-parameters", i>>} \cup Col(i, "temp_air") \cup Col(i, "wind_speed")
DcP(i) == prov[i].eff \cup prov[i].cell \cup {<<"module", i>>, <<"strings", i>>}
Next ==
  \/ Step("input", "irr") /\ prov' = [i \in A |-> "irr" :> Irr(i)] /\ UNCHANGED lossed
  \/ Step("irr", "eff") /\ Set(Eff, "eff") /\ UNCHANGED lossed
  \/ Step("eff", "cell") /\ Set(Cell, "cell") /\ UNCHANGED lossed
  \/ Step("cell", "dc") /\ Set(DcP, "dc") /\ UNCHANGED lossed
  \/ Step("dc", "losses") /\ prov' = prov /\ lossed' = lossed + 1
  \/ Step("losses", "ac") /\ prov' = prov /\ UNCHANGED lossed
\* no result of one array has a source of another array
Isolation == \A i \in DOMAIN prov : \A f \in DOMAIN prov[i] : \A s \in prov[i][f] : s[2] \in {0, i}
GivenWins == pc = "ac" => \A i \in A : "cell_temperature" \in sc.cols[i] => prov[i].cell = {In(i, "cell_temperature")}
ModuleNotAir == pc = "ac" => \A i \in A : Src(i) = "module" => In(i, "temp_air") \notin prov[i].cell
AlbedoWins == pc = "ac" /\ sc.kind = "weather" => \A i \in A : ("albedo" \in sc.cols[i]) = (In(i, "albedo") \in prov[i].irr)
LossesOnce == lossed = (IF pc \in {"losses", "ac"} THEN 1 ELSE 0)
Emit == pc # "ac" \/ VEmit(IOEnv.VOUT, sc)
=============================================================================
