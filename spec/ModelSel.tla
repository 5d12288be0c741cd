------------------------------ MODULE ModelSel ------------------------------
(* Which model a ModelChain uses, from the parameter names available in all   *)
(* arrays (resp. the inverter) and the name given by the user ("None" = none  *)
(* given).  "error" = construction is refused.                               *)
EXTENDS R64, Sequences, FiniteSets, Integers

\* keys present in every array
Common(ks) == {x \in ks[1] : \A i \in 1..Len(ks) : x \in ks[i]}

DcNeeds == [sapm |-> {"C0", "C1", "C2", "C3", "Isco", "Impo", "Voco", "Vmpo", "Aisc", "Aimp", "Bvoco", "Mbvoc", "Bvmpo", "Mbvmp", "N", "Cells_in_Series"},
            desoto |-> {"alpha_sc", "a_ref", "I_L_ref", "I_o_ref", "R_sh_ref", "R_s"},
            cec |-> {"alpha_sc", "a_ref", "I_L_ref", "I_o_ref", "R_sh_ref", "R_s", "Adjust"},
            pvsyst |-> {"gamma_ref", "mu_gamma", "I_L_ref", "I_o_ref", "R_sh_ref", "R_sh_0", "R_s", "alpha_sc", "EgRef", "cells_in_series"},
            pvwatts |-> {"pdc0", "gamma_pdc"}]
Desoto4 == {"a_ref", "I_L_ref", "I_o_ref", "R_sh_ref", "R_s"}
GuessDc(P) ==
  CASE {"A0", "A1", "C3"} \subseteq P -> "sapm"
    [] (Desoto4 \cup {"Adjust"}) \subseteq P -> "cec"
    [] Desoto4 \subseteq P -> "desoto"
    [] {"gamma_ref", "mu_gamma", "I_L_ref", "I_o_ref", "R_sh_ref", "R_sh_0", "R_sh_exp", "R_s"} \subseteq P -> "pvsyst"
    [] {"pdc0", "gamma_pdc"} \subseteq P -> "pvwatts"
    [] OTHER -> "error"
Dc(name, P) ==
  LET m == IF name = "None" THEN GuessDc(P) ELSE SLower(name)
  IN  IF m \in DOMAIN DcNeeds THEN (IF DcNeeds[m] \subseteq P THEN m ELSE "error") ELSE "error"

GuessAc(I, n) ==
  CASE {"C0", "C1", "C2"} \subseteq I -> "sandia"
    [] "ADRCoefficients" \in I -> IF n > 1 THEN "error" ELSE "adr"
    [] "pdc0" \in I -> "pvwatts"
    [] OTHER -> "error"
Ac(name, I, n) == IF name = "None" THEN GuessAc(I, n)
                  ELSE IF SLower(name) \in {"sandia", "adr", "pvwatts"} THEN SLower(name) ELSE "error"

GuessAoi(P) ==
  CASE {"n", "K", "L"} \subseteq P -> "physical"
    [] {"B0", "B1", "B2", "B3", "B4", "B5"} \subseteq P -> "sapm"
    [] "b" \in P -> "ashrae"
    [] "a_r" \in P -> "martin_ruiz"
    [] {"theta_ref", "iam_ref"} \subseteq P -> "interp"
    [] OTHER -> "error"
Aoi(name, P) == IF name = "None" THEN GuessAoi(P)
                ELSE IF SLower(name) \in {"ashrae", "physical", "sapm", "martin_ruiz", "schlick", "interp", "no_loss"} THEN SLower(name) ELSE "error"

Spectral(name) == IF name = "None" THEN "no_loss"
                  ELSE IF SLower(name) \in {"first_solar", "sapm", "no_loss"} THEN SLower(name) ELSE "error"

GuessTemp(T) ==
  CASE {"a", "b", "deltaT"} \subseteq T -> "sapm"
    [] {"u_c", "u_v"} \subseteq T -> "pvsyst"
    [] {"u0", "u1"} \subseteq T -> "faiman"
    [] "noct_installed" \in T -> "fuentes"
    [] {"noct", "module_efficiency"} \subseteq T -> "noct_sam"
    [] OTHER -> "error"
\* a given name must agree with the parameters
Temp(name, T) == LET g == GuessTemp(T) IN
   IF name = "None" THEN g ELSE IF SLower(name) = g /\ g # "error" THEN g ELSE "error"

Ohmic(name) == IF SLower(name) \in {"dc_ohms_from_percent", "no_loss"} THEN SLower(name) ELSE "error"
Losses(name) == IF SLower(name) \in {"pvwatts", "no_loss"} THEN SLower(name) ELSE "error"
=============================================================================
