---------------------------- MODULE ClearSkyOps ----------------------------
(* Clear-sky irradiance models and the Linke turbidity / altitude grids.      *)
EXTENDS Atmos, Calendar

----------------------------------------------------------------------------
(* Ineichen & Perez 2002 *)
Ineichen(z, am, tl, h, i0, enh) ==
  LET mu == NonNeg(CosD(z))
      f1 == RExp(RNeg(h // "8000"))  f2 == RExp(RNeg(h // "1250"))
      a1 == ("0.0000509" ** h) ++ "0.868"
      a2 == ("0.0000392" ** h) ++ "0.0387"
      tr == RExp(RNeg((a2 ** am) ** (f1 ++ (f2 ** (tl -- "1")))))
      pe == IF enh THEN RExp("0.01" ** (am ^^ "1.8")) ELSE "1"
      night == IsNaN(am)                         \* no airmass: no light
      bad == IsNaN(z) \/ IsNaN(tl) \/ IsNaN(i0) \/ IsNaN(h)
      ghi == IF night THEN "0" ELSE RSum(<<((a1 ** i0) ** mu) ** (tr ** pe)>>)
      b == "0.664" ++ ("0.163" // f1)
      beam == i0 ** (b ** RExp(("-0.09" ** am) ** (tl -- "1")))
      corr == "1" -- (("0.1" -- ("0.2" ** RExp(RNeg(tl)))) // ("0.1" ++ ("0.882" // f1)))
      cap == ghi ** (NonNeg(corr) // mu)         \* SE 73 p 157 empirical cap
      dni == IF night \/ mu \doteq "0" THEN "0" ELSE RMin(beam, cap)
  IN  IF bad THEN [ghi |-> NaN, dni |-> NaN, dhi |-> NaN]
      ELSE [ghi |-> ghi, dni |-> dni, dhi |-> ghi -- (dni ** mu)]
----------------------------------------------------------------------------
(* Haurwitz 1945 *)
Haurwitz(z) == LET mu == CosD(z) IN IF mu \succ "0" THEN ("1098" ** mu) ** RExp("-0.059" // mu) ELSE "0"
----------------------------------------------------------------------------
(* Simplified Solis, Ineichen 2008 *)
Poly(x, c) == LET N == Len(c)
                  G[i \in 1..N] == IF i = N THEN c[i] ELSE c[i] ++ (x ** G[i + 1]) IN G[1]
Solis(el, a, w0, p, i0) ==
  LET w == RMax(w0, "0.2")
      lw == RLog(w)
      lp == RLog(p // "101325")
      mu == RMax(SinD(el), "1e-30")
      i0p == i0 ** RSum(<<Poly(a, <<"1.08" ** (w ^^ "0.0051"), "0.97" ** (w ^^ "0.032"), "0.12" ** (w ^^ "0.56")>>), "0.071" ** lp>>)
      taub == RSum(<<a ** Poly(lw, <<"1.82", "0.056", "0.0071">>), Poly(lw, <<"0.33", "0.045", "0.0096">>), (("0.0089" ** w) ++ "0.13") ** lp>>)
      b == (Poly(a, <<"-0.0172", "0.0148", "0.00925">>) ** lw) ++ Poly(a, <<"0.4557", "0.5057", "-0.7565">>)
      taug == RSum(<<a ** Poly(lw, <<"1.24", "0.047", "0.0061">>), Poly(lw, <<"0.27", "0.043", "0.009">>), (("0.0079" ** w) ++ "0.1") ** lp>>)
      g == ("-0.0147" ** lw) ++ Poly(a, <<"0.3798", "0.2846", "-0.3079">>)
      low == a \prec "0.05"
      td == IF low
            THEN <<Poly(w, <<"3.12", "0.0042">>), Poly(w, <<"-8.86", "0.092">>), Poly(w, <<"74.8", "-0.23">>), Poly(w, <<"79.4", "-3.11">>), Poly(w, <<"-13800", "86">>)>>
            ELSE <<Poly(w, <<"2.94", "0.0057">>), Poly(w, <<"-5.71", "0.0554">>), Poly(w, <<"15.5", "-0.134">>), Poly(w, <<"-20.7", "0.27">>), Poly(w, <<"11.6", "-0.21">>)>>
      tdp == IF low THEN ("-0.83") ** (("1" ++ a) ^^ "-17.2") ELSE ("-0.71") ** (("1" ++ a) ^^ "-15")
      taud == Poly(a, td) ++ (tdp ** lp)
      d == Poly(a, <<"0.116", "0.63", "-0.337">>) ++ (lp // ("18" ++ ("152" ** a)))
  IN  [dni |-> i0p ** RExp(RNeg(taub // (mu ^^ b))),
       ghi |-> (i0p ** RExp(RNeg(taug // (mu ^^ g)))) ** mu,
       dhi |-> i0p ** RExp(RNeg(taud // (mu ^^ d)))]
----------------------------------------------------------------------------
(* Bird 1981 *)
Bird(z, am, a380, a500, w, o3, p, i0, asym, alb) ==
  LET amp == AbsAirmass(am, p)
      tr == RExp(RNeg(("0.0903" ** (amp ^^ "0.84")) ** (("1" ++ amp) -- (amp ^^ "1.01"))))
      xo == o3 ** am
      to == RSum(<<"1", RNeg(("0.1611" ** xo) ** (("1" ++ ("139.48" ** xo)) ^^ "-0.3034")),
                   RNeg(("0.002715" ** xo) // Poly(xo, <<"1", "0.044", "0.0003">>))>>)
      tg == RExp("-0.0127" ** (amp ^^ "0.26"))
      xw == am ** w
      tw == "1" -- (("2.4959" ** xw) // ((("1" ++ ("79.034" ** xw)) ^^ "0.6828") ++ ("6.385" ** xw)))
      ta0 == AodBB(a380, a500)
      ta == RExp(RNeg(((ta0 ^^ "0.873") ** (("1" ++ ta0) -- (ta0 ^^ "0.7088"))) ** (am ^^ "0.9108")))
      taa == "1" -- (("0.1" ** (("1" -- am) ++ (am ^^ "1.06"))) ** ("1" -- ta))
      rs == "0.0685" ++ (("1" -- asym) ** ("1" -- (ta // taa)))
      mu == IF z \prec "90" THEN CosD(z) ELSE "0"
      dni == ((("0.9662" ** i0) ** ta) ** (tw ** tg)) ** (to ** tr)
      dh == dni ** mu
      scat == ("0.5" ** ("1" -- tr)) ++ (asym ** ("1" -- (ta // taa)))
      ias == ((((i0 ** mu) ** "0.79") ** ((to ** tg) ** (tw ** taa))) ** scat) // (("1" -- am) ++ (am ^^ "1.02"))
      ghi == (dh ++ ias) // ("1" -- (alb ** rs))
  IN  IF IsNaN(z) THEN [dni |-> dni] ELSE [direct_horizontal |-> dh, ghi |-> ghi, dni |-> dni, dhi |-> ghi -- dh]
----------------------------------------------------------------------------
(* 5-arc-minute grids: row 0 is the northernmost, column 0 the westernmost.   *)
\* cells (0-based) whose centre is nearest; both neighbours on a cell edge
Cells(x, n) ==     \* x: position in cell units from the first edge
  LET k == RToInt(RFloor(x))
      cl(i) == IF i < 0 THEN 0 ELSE IF i > n - 1 THEN n - 1 ELSE i
      fr == x -- RFloor(x)
  IN  {cl(k)} \cup (IF fr \prec "0.000002" THEN {cl(k - 1)} ELSE {}) \cup (IF fr \succ "0.999998" THEN {cl(k + 1)} ELSE {})
RowsOf(lat) == Cells(("90" -- lat) ** "12", 2160)
ColsOf(lon) == Cells(("180" ++ lon) ** "12", 4320)
OnGlobe(lat, lon) == RAbs(lat) \preceq "90" /\ RAbs(lon) \preceq "180"
\* day-of-year of the middle of the months, December before to January after
Middles(leap) == LET f == IF leap THEN "1" ELSE "0"
  IN <<"-15.5", "15.5", "45" ++ (f ** "0.5"), "74.5" ++ f, "105" ++ f, "135.5" ++ f, "166" ++ f, "196.5" ++ f, "227.5" ++ f, "258" ++ f,
       "288.5" ++ f, "319" ++ f, "349.5" ++ f, "380.5" ++ f>>
\* lt: twelve monthly values, dn: UTC day number
Linke(lt, dn, interp) ==
  IF ~interp THEN lt[MonthOf(dn)] // "20"
  ELSE LET y == YearOf(dn)  n == SOfInt(DoyOf(dn))  M == Middles(IsLeap(y))
           v(i) == IF i = 1 THEN lt[12] ELSE IF i = 14 THEN lt[1] ELSE lt[i - 1]
           i == CHOOSE j \in 1..13 : M[j] \preceq n /\ n \prec M[j + 1]
       IN  (v(i) ++ ((v(i + 1) -- v(i)) ** ((n -- M[i]) // (M[i + 1] -- M[i])))) // "20"
AltitudeOf(code) == IF code \doteq "255" THEN "0" ELSE ("28" ** code) -- "450"
=============================================================================
