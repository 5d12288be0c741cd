---------------------------- MODULE ClearSkyMC ----------------------------
(* Systematic grid of clear-sky inputs, with the physical guarantees checked  *)
(* on the specified models themselves.                                        *)
EXTENDS ClearSky, IOUtils, TLC
VARIABLES p, c
Done == c.fn # "none"
Zs == {"0", "20", "60", "80", "87.5", "89.9", "90", "90.5", "96", "120", "180", "NaN"}
Years == {1900, 1999, 2000, 2015, 2016, 2023, 2100}
Init == c = [fn |-> "none"] /\ (\E z \in Zs : p = [t |-> "z", z |-> z]
                       \/ \E y \in Years : p = [t |-> "y", z |-> y])
Next == ~Done /\ UNCHANGED p /\
  IF p.t = "y" THEN
     \E n \in (1..YDays(p.z)), lt \in {"a", "b"} : c' = [fn |-> "cal", a |-> [n |-> n], k |-> [lt |-> lt]]
  ELSE
  \/ \E am \in {"1", "2.5", "12", "38", "NaN"}, tl \in {"1", "2.5", "6", "NaN"}, h \in {"0", "1500", "4000"}, enh \in BOOLEAN :
        c' = [fn |-> "ineichen", a |-> [apparent_zenith |-> p.z, airmass_absolute |-> am, linke_turbidity |-> tl],
              k |-> [altitude |-> h, enh |-> enh, dni_extra |-> IF h = "0" THEN "1364" ELSE "1400"]]
  \/ c' = [fn |-> "haurwitz", a |-> [apparent_zenith |-> p.z], k |-> [none |-> "0"]]
  \/ \E a \in {"0", "0.049", "0.05", "0.1", "0.45"}, w \in {"0", "0.2", "1", "5"}, pr \in {"101325", "70000"}, k \in {"1364", "1411"} :
        c' = [fn |-> "simplified_solis", a |-> [apparent_elevation |-> "90" -- p.z, aod700 |-> a, precipitable_water |-> w], k |-> [pressure |-> pr, dni_extra |-> k]]
  \/ \E am \in {"1", "2.5", "12", "38", "NaN"}, a \in {"0.05", "0.3"}, b \in {"0.03", "0.25"}, w \in {"0.3", "4"}, al \in {"0", "0.2", "0.8"} :
        c' = [fn |-> "bird", a |-> [zenith |-> p.z, airmass_relative |-> am, aod380 |-> a, aod500 |-> b, precipitable_water |-> w],
              k |-> [albedo |-> al, ozone |-> "0.3", pressure |-> "101325", dni_extra |-> "1364", asymmetry |-> "0.85"]]
V == Val(c.fn, c.a, c.k)
Rad_ == Done /\ c.fn # "cal"
\* physical input: nothing negative, nothing undefined, night is dark
NonNegative == Rad_ /\ c.fn # "bird" => \A f \in DOMAIN V : V[f] # "?" /\ ~IsNaN(V[f]) => "-1e-9" \preceq V[f]
BirdNonNegative == Rad_ /\ c.fn = "bird" => \A f \in DOMAIN V \cap {"ghi", "direct_horizontal", "dni"} : ~IsNaN(V[f]) => "-1e-9" \preceq V[f]
Night == (Rad_ /\ ~IsNaN(p.z) /\ p.z \succ "90" /\ c.fn # "bird") =>
         \A f \in DOMAIN V : IsNaN(V[f]) \/ RAbs(V[f]) \preceq "1e-9"
Closure == (Rad_ /\ c.fn \in {"ineichen", "bird"} /\ ~IsNaN(p.z) /\ ~IsNaN(V.ghi)) =>
  LET z == IF c.fn = "bird" THEN c.a.zenith ELSE c.a.apparent_zenith
  IN  Near(V.ghi, (V.dni ** NonNeg(CosD(z))) ++ V.dhi)
\* more turbid or lower sun never means more global irradiance
Turbid == (Rad_ /\ c.fn = "ineichen" /\ ~IsNaN(V.ghi)) =>
   LET a == [c.a EXCEPT !.linke_turbidity = c.a.linke_turbidity ++ "1"] IN Val(c.fn, a, c.k).ghi \preceq V.ghi
Aerosol == (Rad_ /\ c.fn = "simplified_solis" /\ p.z \prec "80" /\ ~(c.a.aod700 \doteq "0.049")) =>
   Val(c.fn, [c.a EXCEPT !.aod700 = c.a.aod700 ++ "0.1"], c.k).dni \preceq V.dni
Scales == (Rad_ /\ c.fn \in {"ineichen", "simplified_solis", "bird"} /\ ~IsNaN(p.z) /\ ~IsNaN(V.ghi)) =>
   Near(Val(c.fn, c.a, [c.k EXCEPT !.dni_extra = "2" ** c.k.dni_extra]).ghi, "2" ** V.ghi)
\* the interpolated climatology: calendar round trip, month value at the middle, continuous over year ends
LT == IF c.k.lt = "a" THEN [m \in 1..12 |-> SOfInt(40 + 3 * m)] ELSE [m \in 1..12 |-> SOfInt(20 + ((m * m * 7) % 91))]
Dn == Jan1(p.z) + c.a.n - 1
Cal == (Done /\ c.fn = "cal") => /\ YearOf(Dn) = p.z /\ DoyOf(Dn) = c.a.n /\ DayNum(p.z, MonthOf(Dn), DomOf(Dn)) = Dn
                                 /\ DomOf(Dn) \in 1..MDays(p.z)[MonthOf(Dn)]
Smooth == (Done /\ c.fn = "cal") =>
   LET a == Linke(LT, Dn, TRUE) b == Linke(LT, Dn + 1, TRUE)
       step == {RAbs(LT[m] -- LT[(m % 12) + 1]) : m \in 1..12}
       mx == CHOOSE s \in step : \A t \in step : t \preceq s
       m == MonthOf(Dn)
       near == {LT[m], LT[(m % 12) + 1], LT[((m + 10) % 12) + 1]}
   IN  /\ RAbs(b -- a) \preceq ((mx // "20") ** "0.0715")          \* at most one day's share (middles are >= 14 days... 29.5 apart)
       /\ \E lo \in near, hi \in near : (lo // "20") \preceq (a ++ "1e-9") /\ a \preceq ((hi // "20") ++ "1e-9")
Emit == ~Done \/ c.fn = "cal" \/ VEmit(IOEnv.VOUT, c)
=============================================================================
