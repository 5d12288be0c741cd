------------------------------- MODULE Decomp -------------------------------
(* Separation of global irradiance into beam and diffuse, and closure.       *)
EXTENDS Atmos

\* Spencer (1971) extraterrestrial irradiance for a day of year
DayAngle(doy, off) == (("2" ** Pi) // "365") ** (doy -- off)
Spencer(doy, S) == LET b == DayAngle(doy, "1") IN
   S ** RSum(<<"1.00011", "0.034221" ** RCos(b), "0.00128" ** RSin(b), "0.000719" ** RCos("2" ** b), "0.000077" ** RSin("2" ** b)>>)
Asce(doy, S) == S ** ("1" ++ ("0.033" ** RCos(DayAngle(doy, "0"))))
I0(doy) == Spencer(doy, "1366.1")

Kt(ghi, z, ext, mincos, cap) == RMin(RMax(ghi // (ext ** RMax(CosD(z), mincos)), "0"), cap)
KtFactor(am) == ("1.031" ** RExp("-1.4" // ("0.9" ++ ("9.4" // am)))) ++ "0.1"
KtPrime(kt, am, cap) == RMin(RMax(kt // KtFactor(am), "0"), cap)
CsIndex(ghi, cs, cap) ==
  IF ~RIsFinite(ghi) \/ ~RIsFinite(cs) THEN NaN
  ELSE IF cs \doteq "0" THEN "0" ELSE RMin(RMax(ghi // cs, "0"), cap)

Horner(x, cs) == LET N == Len(cs)
                     G[i \in 1..N] == IF i = N THEN cs[i] ELSE cs[i] ++ (x ** G[i + 1]) IN G[1]
ErbsDf(kt) == IF kt \succ "0.8" THEN "0.165" ELSE IF kt \succ "0.22" THEN Horner(kt, <<"0.9511", "-0.1604", "4.388", "-16.638", "12.336">>) ELSE "1" -- ("0.09" ** kt)
DriesseDf(kt) == IF kt \succ "0.792" THEN "0.165"
   ELSE IF kt \succ "0.216" THEN Horner(kt, <<"0.946296633571001", "-0.11390583806313881", "4.246926715218317", "-16.470508424697304", "12.26911439571261">>)
   ELSE "1" -- ("0.09" ** kt)
OrgillDf(kt) == IF kt \succ "0.75" THEN "0.177" ELSE IF kt \succeq "0.35" THEN "1.557" -- ("1.84" ** kt) ELSE "1" -- ("0.249" ** kt)
BolandDf(kt, a, b) == "1" // ("1" ++ RExp(a ** (kt -- b)))
\* split by a diffuse fraction; beyond the zenith limit (or for impossible
\* values) there is no beam and everything is diffuse
Split(ghi, z, df, kt, maxz) ==
  LET dhi == df ** ghi  dni == (ghi -- dhi) // CosD(z)
      bad == z \succ maxz \/ ghi \prec "0" \/ dni \prec "0"
  IN  [dni |-> IF bad THEN "0" ELSE dni, dhi |-> IF bad THEN ghi ELSE dhi, kt |-> kt]
Louche(ghi, z, ext, maxz) ==
  LET kt == Kt(ghi, z, ext, "0.065", "2")
      dni == ext ** Horner(kt, <<"0.002", "-0.059", "0.994", "-5.205", "15.307", "-10.627">>)
      dhi == ghi -- (dni ** CosD(z))
      bad == z \succ maxz \/ ghi \prec "0" \/ dni \prec "0" \/ dhi \prec "0"
  IN  [dni |-> IF bad THEN "0" ELSE dni, dhi |-> IF bad THEN ghi ELSE dhi, kt |-> kt]

\* Maxwell's DISC: direct transmittance
DiscKn(kt, am) ==
  LET cl == kt \preceq "0.6" \/ IsNaN(kt)
      a == IF cl THEN Horner(kt, <<"0.512", "-1.56", "2.286", "-2.222">>) ELSE Horner(kt, <<"-5.743", "21.77", "-27.49", "11.56">>)
      b == IF cl THEN Horner(kt, <<"0.37", "0.962">>) ELSE Horner(kt, <<"41.4", "-118.5", "66.05", "31.9">>)
      c == IF cl THEN Horner(kt, <<"-0.28", "0.932", "-2.048">>) ELSE Horner(kt, <<"-47.01", "184.2", "-222", "73.81">>)
  IN  Horner(am, <<"0.866", "-0.122", "0.0121", "-0.000653", "0.000014">>) -- (a ++ (b ** RExp(c ** am)))
Disc(ghi, z, doy, pres, mincos, maxz, maxam) ==
  LET ext == Spencer(doy, "1370")
      kt == Kt(ghi, z, ext, mincos, "1")
      am0 == RelAirmass(z, "kasten1966")
      am == RMin(IF pres = "None" THEN am0 ELSE AbsAirmass(am0, pres), maxam)
      dni == DiscKn(kt, am) ** ext
  IN  [dni |-> IF z \succ maxz \/ ghi \prec "0" \/ dni \prec "0" THEN "0" ELSE dni, kt |-> kt, airmass |-> am]

CampbellNorman(z, tau, pres, ext) ==
  LET am == AbsAirmass(RelAirmass(z, "simple"), pres)
      dni == ext ** (tau ^^ am)  dhi == "0.3" ** ((("1" -- (tau ^^ am)) ** ext) ** CosD(z))
  IN  [ghi |-> dhi ++ (dni ** CosD(z)), dni |-> dni, dhi |-> dhi]
\* beam from global and diffuse, with plausibility limits near the horizon
BeamFrom(ghi, dhi, z, clear, tol, z0, zc) ==
  LET d == (ghi -- dhi) // CosD(z)
  IN  IF d \prec "0" THEN NaN
      ELSE IF z \succeq z0 /\ ~(d \doteq "0") THEN NaN
      ELSE IF clear # "None" /\ z \succeq zc /\ z \prec z0 /\ d \succ (clear ** tol) THEN clear ** tol
      ELSE d
ParDiffuse(z, f) == LET q == "1" -- (f ** f)  c == CosD(z) s == SinD(z)
   IN  ((("1" ++ ("0.3" ** q)) ** f)) // ("1" ++ ((q ** (c ** c)) ** ((s ** s) ** s)))
=============================================================================
