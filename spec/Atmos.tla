------------------------------- MODULE Atmos -------------------------------
(* Airmass, pressure, humidity, turbidity and wind conversions (operators).  *)
EXTENDS Point

PresToAlt(p) == "44331.5" -- ("4946.62" ** (p ^^ "0.190263"))
AltToPres(h) == "100" ** ((("44331.514" -- h) // "11880.516") ^^ ("1" // "0.1902632"))
AbsAirmass(am, p) == (am ** p) // "101325"
AirmassModels == {"simple", "kasten1966", "kastenyoung1989", "gueymard1993", "gueymard2003", "pickering2002", "youngirvine1967", "young1994"}
RelAirmass(z, model) ==
  LET c == CosD(z)  s == "1" // c
  IN  IF z \succ "90" \/ IsNaN(z) THEN NaN
      ELSE CASE model = "simple" -> s
        [] model = "kasten1966" -> "1" // (c ++ ("0.15" ** (("93.885" -- z) ^^ "-1.253")))
        [] model = "kastenyoung1989" -> "1" // (c ++ ("0.50572" ** (("6.07995" ++ ("90" -- z)) ^^ "-1.6364")))
        [] model = "gueymard1993" -> "1" // (c ++ (("0.00176759" ** z) ** (("94.37515" -- z) ^^ "-1.21563")))
        [] model = "gueymard2003" -> "1" // (c ++ (("0.48353" ** (z ^^ "0.095846")) // (("96.741" -- z) ^^ "1.754")))
        [] model = "pickering2002" -> "1" // SinD(("90" -- z) ++ ("244" // ("165" ++ ("47" ** (("90" -- z) ^^ "1.1")))))
        [] model = "youngirvine1967" -> s ** ("1" -- ("0.0012" ** ((s ** s) -- "1")))
        [] model = "young1994" -> RSum(<<"1.002432" ** (c ** c), "0.148386" ** c, "0.0096467">>)
              // RSum(<<(c ** c) ** c, "0.149864" ** (c ** c), "0.0102963" ** c, "0.000303978">>)
Pwat(t, rh) ==
  LET T == t ++ "273.15"  th == T // "273.15"  h == "100" // T
      hv == RSum(<<"0.4976", "1.5265" ** th, RExp(("13.6897" ** th) -- ("14.9188" ** ((th ** th) ** th)))>>)
      es == RExp(RSum(<<"22.33", RNeg("49.14" ** h), RNeg("10.922" ** (h ** h)), RNeg(("0.39015" ** T) // "100")>>))
  IN  RMax("0.1" ** (hv ** ((("216.7" ** rh) // ("100" ** T)) ** es)), "0.1")
\* Magnus vapour pressure
Magnus(t, c) == c[1] ** RExp((c[2] ** t) // (c[3] ++ t))
RhFromTdew(ta, td, c) == ("100" ** Magnus(td, c)) // Magnus(ta, c)
TdewFromRh(ta, rh, c) == LET q == ((c[2] ** ta) // (c[3] ++ ta)) ++ RLog(rh // "100") IN (c[3] ** q) // (c[2] -- q)
AodBB(a380, a500) == ("0.27583" ** a380) ++ ("0.35" ** a500)
KastenLt(am, pw, aod) ==
  LET cda == "-0.101" ++ ("0.235" ** (am ^^ "-0.16"))
      w == ("0.112" ** (am ^^ "-0.55")) ** (pw ^^ "0.34")
  IN  ("9.4" ++ ("0.9" ** am)) ** RSum(<<cda, w, aod>>)
AodAt(aod0, l0, alpha, l1) == aod0 ** ((l1 // l0) ^^ RNeg(alpha))
Alpha(a1, l1, a2, l2) == RNeg(RLog(a1 // a2) // RLog(l1 // l2))
Hellmann == [unstable_air_above_open_water_surface |-> "0.06", neutral_air_above_open_water_surface |-> "0.1",
  stable_air_above_open_water_surface |-> "0.27", unstable_air_above_flat_open_coast |-> "0.11", neutral_air_above_flat_open_coast |-> "0.16",
  stable_air_above_flat_open_coast |-> "0.4", unstable_air_above_human_inhabited_areas |-> "0.27",
  neutral_air_above_human_inhabited_areas |-> "0.34", stable_air_above_human_inhabited_areas |-> "0.6"]
WindAt(v, h0, h1, ex) == IF v \prec "0" \/ h0 \prec "0" \/ h1 \prec "0" THEN NaN ELSE v ** ((h1 // h0) ^^ ex)
=============================================================================
