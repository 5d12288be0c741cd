----------------------------- MODULE SpectralOps -----------------------------
(* Spectral mismatch factors.                                                *)
EXTENDS R64, Sequences, Integers, TLC

\* ---- SAPM: polynomial in absolute airmass, 0 where undefined or negative
SapmF1(am, A) == LET v == (((((((A[5] ** am) ++ A[4]) ** am) ++ A[3]) ** am) ++ A[2]) ** am) ++ A[1]
                 IN  IF IsNaN(v) THEN "0" ELSE RMax("0", v)

\* ---- First Solar: airmass clipped, small pw raised, large pw undefined
FSCoef == ("cdte" :> <<"0.86273", "-0.038948", "-0.012506", "0.098871", "0.084658", "-0.0042948">>)
 @@ ("monosi" :> <<"0.85914", "-0.020880", "-0.0058853", "0.12029", "0.026814", "-0.0017810">>)
 @@ ("xsi" :> <<"0.85914", "-0.020880", "-0.0058853", "0.12029", "0.026814", "-0.0017810">>)
 @@ ("polysi" :> <<"0.84090", "-0.027539", "-0.0079224", "0.13570", "0.038024", "-0.0021218">>)
 @@ ("multisi" :> <<"0.84090", "-0.027539", "-0.0079224", "0.13570", "0.038024", "-0.0021218">>)
 @@ ("cigs" :> <<"0.85252", "-0.022314", "-0.0047216", "0.13666", "0.013342", "-0.0008945">>)
 @@ ("asi" :> <<"1.12094", "-0.047620", "-0.0083627", "-0.10443", "0.098382", "-0.0033818">>)
FirstSolar(pw, am, c, pmin, pmax, amin, amax) ==
  LET a == RMax(RMin(am, amax), amin)
      w == RMax(pw, pmin)
  IN  IF IsNaN(pw) \/ IsNaN(am) \/ w \succ pmax THEN NaN
      ELSE RSum(<<c[1], c[2] ** a, c[3] ** w, c[4] ** RSqrt(a), c[5] ** RSqrt(w), (c[6] ** a) // RSqrt(w)>>)

\* ---- Caballero
CabCoef == ("cdte" :> <<"1.0044", "0.0095", "-0.0037", "0.0002", "0", "-0.0046", "-0.0182", "0", "0.0095", "0.0068", "0", "1">>)
 @@ ("monosi" :> <<"0.9706", "0.0377", "-0.0123", "0.0025", "-0.0002", "0.0159", "-0.0165", "0", "-0.0016", "-0.0027", "1", "0">>)
 @@ ("multisi" :> <<"0.9836", "0.0254", "-0.0085", "0.0016", "-0.0001", "0.0094", "-0.0132", "0", "-0.0002", "-0.0011", "1", "0">>)
 @@ ("cigs" :> <<"0.9801", "0.0283", "-0.0092", "0.0019", "-0.0001", "0.0117", "-0.0126", "0", "-0.0011", "-0.0019", "1", "0">>)
 @@ ("asi" :> <<"1.1060", "-0.0848", "0.0302", "-0.0076", "0.0006", "-0.1283", "0.0986", "-0.0254", "0.0156", "0.0146", "1", "0">>)
 @@ ("perovskite" :> <<"1.0637", "-0.0491", "0.0180", "-0.0047", "0.0004", "-0.0773", "0.0583", "-0.0159", "0.01251", "0.0109", "1", "0">>)
Caballero(pw, am, aod, c) ==
  LET l == RLog(am)
      fam == (((((((c[5] ** am) ++ c[4]) ** am) ++ c[3]) ** am) ++ c[2]) ** am) ++ c[1]
      faod == (aod -- "0.084") ** RSum(<<c[6], (c[11] ** c[7]) ** am, (c[12] ** c[7]) ** l, c[8] ** (am ** am)>>)
      fpw == (pw -- "1.4164") ** (c[9] ++ (c[10] ** l))
  IN  (fam ++ faod) ++ fpw

\* ---- PVSPEC
PvspecCoef == ("multisi" :> <<"0.9847", "-0.05237", "0.03034">>) @@ ("monosi" :> <<"0.9845", "-0.05169", "0.03034">>)
 @@ ("fs4-2" :> <<"1.002", "-0.07108", "0.02465">>) @@ ("fs4-1" :> <<"0.9981", "-0.05776", "0.02336">>)
 @@ ("cigs" :> <<"0.9791", "-0.03904", "0.03096">>) @@ ("asi" :> <<"1.051", "-0.1033", "0.009838">>)
Pvspec(am, kc, c) == (c[1] ** (kc ^^ c[2])) ** (am ^^ c[3])

\* ---- JRC (coefficients normalised by the published short-circuit current)
JrcCoef == ("multisi" :> <<"0.00172" // "0.00348", "0.000508" // "0.00348", "0.00000357" // "0.00348">>)
 @@ ("cdte" :> <<"0.000643" // "0.001150", "0.000130" // "0.001150", "0.0000108" // "0.001150">>)
Jrc(am, kc, c) == RSum(<<"1", c[1] ** (RExp(RNeg(kc)) -- RExp("-1")), c[2] ** (kc -- "1"), c[3] ** (am -- "1.5")>>)

\* ---- Polo
PoloCoef == ("cdte" :> <<"-0.0009", "46.80", "49.20", "-0.87", "0.00041", "0.053">>) @@ ("monosi" :> <<"0.0027", "10.34", "9.48", "0.31", "0.00077", "0.006">>)
 @@ ("cigs" :> <<"0.0017", "2.33", "1.30", "0.11", "0.00098", "-0.018">>) @@ ("asi" :> <<"0.0024", "7.32", "7.09", "-0.72", "-0.0013", "0.089">>)
PoloAlb == ("asi" :> <<"0.0056", "-0.020", "1.014">>) @@ ("cigs" :> <<"-0.0009", "-0.0003", "1">>)
 @@ ("cdte" :> <<"0.0021", "-0.01", "1.01">>) @@ ("monosi" :> <<"0", "-0.003", "1.0">>)
PoloAm(z) == "1" // (CosD(z) ++ ("0.50572" ** (("6.07995" ++ ("90" -- z)) ^^ "-1.6364")))
Polo(pw, am, aod, aoi, pres, c, g, alb) ==
  LET x == RMin(aoi, "90")
      ram == (PoloAm(x) ** (pres // "101325")) // am
      s == ((c[1] ** ram) ++ (c[2] // (c[3] ++ (ram ^^ c[4])))) ++ ((c[5] // aod) ++ (c[6] ** RSqrt(pw)))
      r == alb // "0.2"
  IN  (((g[1] ** (r ** r)) ++ (g[2] ** r)) ++ g[3]) ** s
=============================================================================
