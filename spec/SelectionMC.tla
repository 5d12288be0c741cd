---------------------------- MODULE SelectionMC ----------------------------
(* Every way of choosing one model of a chain: which parameter names the one  *)
(* or two arrays (or the inverter) carry, and which name the user gives.      *)
EXTENDS ModelSel, IOUtils, TLC
VARIABLES f, sets, name
Facets == {"dc", "ac", "aoi", "temp", "spectral", "ohmic", "losses"}

DcFull == DcNeeds @@ [none |-> {}]
\* what inference looks at, beyond the required names
DcBase == {DcNeeds.sapm \cup {"A0", "A1"}, DcNeeds.sapm, DcNeeds.desoto, DcNeeds.cec, DcNeeds.pvsyst \cup {"R_sh_exp"}, DcNeeds.pvsyst, DcNeeds.pvwatts, {}}
AoiBase == {{"n", "K", "L"}, {"B0", "B1", "B2", "B3", "B4", "B5"}, {"b"}, {"a_r"}, {"theta_ref", "iam_ref"}, {}}
TempBase == {{"a", "b", "deltaT"}, {"u_c", "u_v"}, {"u0", "u1"}, {"noct_installed"}, {"noct", "module_efficiency"}, {}}
AcBase == {{"C0", "C1", "C2", "C3", "Paco", "Pdco", "Vdco", "Pso", "Pnt"}, {"C0", "C1"}, {"ADRCoefficients", "Pnom", "Vnom", "Pacmax", "Pnt", "Vmax", "Vmin", "Vdcmax", "MPPTHi", "MPPTLow"}, {"pdc0"}, {}}
Base(x) == CASE x = "dc" -> DcBase [] x = "aoi" -> AoiBase [] x = "temp" -> TempBase [] x = "ac" -> AcBase [] OTHER -> {{}}
Dropped(x) == UNION {{s} \cup {s \ {k} : k \in s} : s \in Base(x)}
Joined(x) == {s \cup t : s, t \in Base(x)}
Full(x) == Joined(x) \cup Dropped(x)

Names(x) == {"None"} \cup
  CASE x = "dc" -> {"sapm", "desoto", "cec", "pvsyst", "pvwatts", "SAPM", "DeSoto", "CEC", "PVsyst", "PVWatts", "pvwatts_dc", "singlediode", "sap", "", "sapm "}
    [] x = "ac" -> {"sandia", "adr", "pvwatts", "Sandia", "ADR", "PVWatts", "a", "dr", "", "snl", "sandia_inverter", "sandia_multi", "pvwatts_inverter"}
    [] x = "aoi" -> {"ashrae", "physical", "sapm", "martin_ruiz", "schlick", "interp", "no_loss", "ASHRAE", "Physical", "Martin_Ruiz", "no", "", "martin-ruiz", "iam", "schlick_diffuse"}
    [] x = "temp" -> {"sapm", "pvsyst", "faiman", "fuentes", "noct_sam", "SAPM", "PVsyst", "Faiman", "NOCT_SAM", "ross", "sapm_temp", "noct", "", "faiman_rad"}
    [] x = "spectral" -> {"first_solar", "sapm", "no_loss", "First_Solar", "NO_LOSS", "firstsolar", "no", "", "caballero"}
    [] x = "ohmic" -> {"dc_ohms_from_percent", "no_loss", "DC_Ohms_From_Percent", "No_Loss", "no_dc_ohmic_loss", "", "pvwatts", "percent"} \ {"None"}
    [] OTHER -> {"pvwatts", "no_loss", "PVWatts", "NO_LOSS", "no_extra_losses", "", "pvwatts_losses"} \ {"None"}
Given(x) == IF x \in {"ohmic", "losses"} THEN Names(x) \ {"None"} ELSE Names(x)

None == <<{"?"}>>
Init == f \in Facets /\ sets = None /\ name = "?"
Next == /\ sets = None /\ f' = f
        /\ name' \in Given(f)
        /\ \/ \E s \in Full(f) : sets' = <<s>>
           \/ f # "ac" /\ \E s \in Joined(f), t \in Full(f) : sets' = <<s, t>>
Pick(x, ss, nm, n) ==
  CASE x = "dc" -> Dc(nm, Common(ss)) [] x = "ac" -> Ac(nm, Common(ss), n) [] x = "aoi" -> Aoi(nm, Common(ss)) [] x = "temp" -> Temp(nm, Common(ss))
    [] x = "spectral" -> Spectral(nm) [] x = "ohmic" -> Ohmic(nm) [] OTHER -> Losses(nm)
On == sets # None
\* the order of the arrays does not matter
Symmetric == On /\ Len(sets) = 2 => Pick(f, sets, name, 2) = Pick(f, <<sets[2], sets[1]>>, name, 2)
\* a given name is used as it is or refused, whatever the letter case
GivenOrRefused == On /\ name # "None" => Pick(f, sets, name, Len(sets)) \in {SLower(name), "error"}
\* an inferred model has all it needs
Supported == On /\ f = "dc" /\ Pick(f, sets, name, Len(sets)) # "error" => DcNeeds[Pick(f, sets, name, Len(sets))] \subseteq Common(sets)
\* more arrays support fewer models: what two arrays accept, each accepts
EachSupports == On /\ Len(sets) = 2 /\ f \in {"dc", "temp", "aoi"} /\ name # "None" /\ f # "temp" /\ Pick(f, sets, name, 2) # "error"
   => \A i \in 1..2 : Pick(f, <<sets[i]>>, name, 1) = Pick(f, sets, name, 2)
Emit == ~On \/ VEmit(IOEnv.VOUT, [facet |-> f, sets |-> sets, name |-> name])
=============================================================================
