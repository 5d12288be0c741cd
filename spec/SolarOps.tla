------------------------------ MODULE SolarOps ------------------------------
(* Solar position: the low-precision Almanac ephemeris of PVLIB, refraction,  *)
(* analytical position; SPA comes from Spa.                                   *)
EXTENDS Spa, Calendar, Atmos

\* Engineering Astronomy ephemeris (Michalsky/PVLIB_MatLab), valid 1901-2099
RECURSIVE Kepler(_, _, _, _)
Kepler(M, ecc, E, n) == IF n = 0 THEN E ELSE Kepler(M, ecc, TLCEval(M ++ (Deg(ecc) ** SinD(E))), n - 1)
EphRefraction(el, p, t) ==
  LET tn == TanD(el)
      r == CASE el \succ "5" /\ el \preceq "85" -> RSum(<<"58.1" // tn, RNeg("0.07" // (tn ^^ "3")), "0.000086" // (tn ^^ "5")>>)
             [] el \succ "-0.575" /\ el \preceq "5" -> Poly(el, <<"1735", "-518.2", "103.4", "-12.79", "0.711">>)
             [] el \succ "-1" /\ el \preceq "-0.575" -> "-20.774" // tn
             [] OTHER -> "0"
  IN  ((r ** ("283" // ("273" ++ t))) ** (p // "101325")) // "3600"
Ephem(d, s, lat, lon) ==
  LET yr == YearOf(d) - 1900
      ez == SOfInt(365 * yr + ((yr - 1) \div 4) + DoyOf(d)) -- "0.5"
      hr == s // "3600"
      T == ez // "36525"
      g0 == RSum(<<"6" // "24", "38" // "1440", Poly(T, <<"45.836", "8640184.542", "0.0929">>) // "86400">>)
      gst == ("360" ** (g0 -- RFloor(g0))) ++ (("360" ** "1.0027379093") ** (hr // "24"))
      last == Wrap(gst ++ lon)
      ep == ez ++ (hr // "24")
      T1 == ep // "36525"
      ob == Poly(T1, <<"23.452294", "-0.0130125", "-0.00000164", "0.000000503">>)
      per == RSum(<<"281.22083", "0.0000470684" ** ep, "0.000453" ** (T1 ** T1), "0.000003" ** (T1 ^^ "3")>>)
      M == TLCEval(Wrap(RSum(<<"358.47583", "0.985600267" ** ep, "-0.00015" ** (T1 ** T1), "-0.000003" ** (T1 ^^ "3")>>)))
      ecc == Poly(T1, <<"0.01675104", "-0.0000418", "-0.000000126">>)
      E == TLCEval(Kepler(M, ecc, M, 12))
      nu == "2" ** Deg(RAtan2(RSqrt(("1" ++ ecc) // ("1" -- ecc)) ** TanD(E // "2"), "1"))
      ec == TLCEval(Wrap(per ++ nu) -- ("20" // "3600"))
      dec == Deg(RAsin(SinD(ob) ** SinD(ec)))
      ra == Deg(RAtan2(CosD(ob) ** SinD(ec), CosD(ec)))
      ha == TLCEval(last -- ra)
      el == TLCEval(Deg(RAsin(RSum(<<(CosD(lat) ** CosD(dec)) ** CosD(ha), SinD(lat) ** SinD(dec)>>))))
      az == Wrap(Deg(RAtan2(RNeg(SinD(ha)), (CosD(lat) ** TanD(dec)) -- (SinD(lat) ** CosD(ha)))))
  IN  [elevation |-> el, azimuth |-> az, solar_time |-> Wrap("180" ++ ha) // "15"]

\* great-circle distance (degrees, small-angle safe) between two sun places
Apart(el1, az1, el2, az2) ==
  LET a == SinD((el1 -- el2) // "2")  b == SinD((az1 -- az2) // "2")
  IN  Deg("2" ** RAsin(RMin("1", RSqrt(RSum(<<a ** a, (CosD(el1) ** CosD(el2)) ** (b ** b)>>)))))

\* analytical place for latitude, hour angle, declination in radians
ZenithAnalytical(lat, ha, dec) == RAcos(RSum(<<(RCos(dec) ** RCos(lat)) ** RCos(ha), RSin(dec) ** RSin(lat)>>))
\* azimuth clockwise from north, from the same
AzimuthTrue(lat, ha, dec) == RMod(RAtan2(RNeg(RCos(dec) ** RSin(ha)), (RSin(dec) ** RCos(lat)) -- ((RCos(dec) ** RSin(lat)) ** RCos(ha))), "2" ** Pi)
=============================================================================
