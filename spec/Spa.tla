-------------------------------- MODULE Spa --------------------------------
(* The NREL Solar Position Algorithm (Reda & Andreas 2008), on instants given *)
(* as UTC day number d (0 = 1970-01-01) and seconds of that day s.            *)
EXTENDS R64, Integers, Sequences, SpaTables, TLC

Series(tab, t) == RSum([i \in 1..Len(tab) |-> tab[i][1] ** RCos(tab[i][2] ++ (tab[i][3] ** t))])
\* c[1] + c[2] x + c[3] x^2 ...
Poly(x, c) == LET N == Len(c)
                  G[i \in 1..N] == IF i = N THEN c[i] ELSE c[i] ++ (x ** G[i + 1]) IN G[1]
Wrap(a) == RMod(a, "360")
\* days since J2000.0 (2000-01-01 12:00) = day number 10957.5
Days(d, s) == (SOfInt(d - 10957) -- "0.5") ++ (s // "86400")

\* heliocentric longitude, latitude (degrees) and distance (AU)
Helio(jme) ==
  [L |-> Wrap(Deg(Poly(jme, TLCEval(<<Series(TabL0, jme), Series(TabL1, jme), Series(TabL2, jme), Series(TabL3, jme), Series(TabL4, jme), Series(TabL5, jme)>>)) // "100000000")),
   B |-> Deg(Poly(jme, TLCEval(<<Series(TabB0, jme), Series(TabB1, jme)>>)) // "100000000"),
   R |-> Poly(jme, TLCEval(<<Series(TabR0, jme), Series(TabR1, jme), Series(TabR2, jme), Series(TabR3, jme), Series(TabR4, jme)>>)) // "100000000"]
Radius(d, s, dt) ==
  LET jme == (Days(d, s) ++ (dt // "86400")) // "365250"
  IN  Poly(jme, TLCEval(<<Series(TabR0, jme), Series(TabR1, jme), Series(TabR2, jme), Series(TabR3, jme), Series(TabR4, jme)>>)) // "100000000"
\* delaunay arguments of the nutation series
Delaunay(T) == <<Poly(T, <<"297.85036", "445267.11148", "-0.0019142", "1" // "189474">>),
                 Poly(T, <<"357.52772", "35999.05034", "-0.0001603", "-1" // "300000">>),
                 Poly(T, <<"134.96298", "477198.867398", "0.0086972", "1" // "56250">>),
                 Poly(T, <<"93.27191", "483202.017538", "-0.0036825", "1" // "327270">>),
                 Poly(T, <<"125.04452", "-1934.136261", "0.0020708", "1" // "450000">>)>>
Nutation(T) ==
  LET X == TLCEval(Delaunay(T))
      arg == TLCEval([i \in 1..Len(TabNutation) |-> LET r == TabNutation[i] IN Rad(RSum(<<r[1] ** X[1], r[2] ** X[2], r[3] ** X[3], r[4] ** X[4], r[5] ** X[5]>>))])
  IN  [psi |-> RSum([i \in 1..Len(TabNutation) |-> (TabNutation[i][6] ++ (TabNutation[i][7] ** T)) ** RSin(arg[i])]) // "36000000",
       eps |-> RSum([i \in 1..Len(TabNutation) |-> (TabNutation[i][8] ++ (TabNutation[i][9] ** T)) ** RCos(arg[i])]) // "36000000"]
MeanObliquity(jme) == Poly(jme // "10", <<"84381.448", "-4680.93", "-1.55", "1999.25", "-51.38", "-249.67", "-39.05", "7.12", "27.87", "5.79", "2.45">>) // "3600"

\* geocentric place of the sun: sidereal time, right ascension, declination, distance, equation of time
Geocentric(d, s, dt) ==
  LET D == Days(d, s)
      jc == D // "36525"
      jce == (D ++ (dt // "86400")) // "36525"
      jme == jce // "10"
      h == TLCEval(Helio(jme))
      nu == TLCEval(Nutation(jce))
      eps == MeanObliquity(jme) ++ nu.eps
      beta == RNeg(h.B)
      lam == RSum(<<Wrap(h.L ++ "180"), nu.psi, "-20.4898" // ("3600" ** h.R)>>)
      \* whole turns are removed from the day part first
      gst == Wrap(RSum(<<"280.46061837", Wrap("360.98564736629" ** D), Poly(jc, <<"0", "0", "0.000387933", "-1" // "38710000">>)>>))
      v == gst ++ (nu.psi ** CosD(eps))
      alpha == TLCEval(Wrap(Deg(RAtan2((SinD(lam) ** CosD(eps)) -- (TanD(beta) ** SinD(eps)), CosD(lam)))))
      delta == TLCEval(Deg(RAsin((SinD(beta) ** CosD(eps)) ++ ((CosD(beta) ** SinD(eps)) ** SinD(lam)))))
      m == Poly(jme, <<"280.4664567", "360007.6982779", "0.03032028", "1" // "49931", "-1" // "15300", "-1" // "2000000">>)
      e == "4" ** Wrap(RSum(<<m, "-0.0057183", RNeg(alpha), nu.psi ** CosD(eps)>>))
  IN  TLCEval([v |-> v, alpha |-> alpha, delta |-> delta, R |-> h.R, eot |-> IF e \succ "20" THEN e -- "1440" ELSE e])

\* refraction in degrees for pressure in Pa, temperature in C
Refraction(e0, p, t, horizon) ==
  IF e0 \prec RNeg("0.26667" ++ horizon) THEN "0"
  ELSE ((p // "101000") ** ("283" // ("273" ++ t))) ** ("1.02" // ("60" ** TanD(e0 ++ ("10.3" // (e0 ++ "5.11")))))

\* topocentric place; g: Geocentric value
Topo(g, lat, lon, h, p, t, horizon) ==
  LET H == Wrap((g.v ++ lon) -- g.alpha)
      xi == "8.794" // ("3600" ** g.R)
      u == RAtan("0.99664719" ** TanD(lat))
      x == RCos(u) ++ ((h // "6378140") ** CosD(lat))
      y == ("0.99664719" ** RSin(u)) ++ ((h // "6378140") ** SinD(lat))
      den == CosD(g.delta) -- ((x ** SinD(xi)) ** CosD(H))
      da == Deg(RAtan2(RNeg((x ** SinD(xi)) ** SinD(H)), den))
      dp == Deg(RAtan2((SinD(g.delta) -- (y ** SinD(xi))) ** CosD(da), den))
      Hp == H -- da
      e0 == TLCEval(Deg(RAsin((SinD(lat) ** SinD(dp)) ++ ((CosD(lat) ** CosD(dp)) ** CosD(Hp)))))
      e == e0 ++ Refraction(e0, p, t, horizon)
      az == Wrap(Wrap(Deg(RAtan2(SinD(Hp), (CosD(Hp) ** SinD(lat)) -- (TanD(dp) ** CosD(lat))))) ++ "180")
  IN  TLCEval([elevation |-> e0, apparent_elevation |-> e, zenith |-> "90" -- e0, apparent_zenith |-> "90" -- e, azimuth |-> az,
               equation_of_time |-> g.eot, ha |-> H])
SunAt(d, s, dt, lat, lon, h, p, t, horizon) == Topo(Geocentric(d, s, dt), lat, lon, h, p, t, horizon)

\* TT - UT1, NASA polynomials (Espenak & Meeus) in year fraction y
DeltaT(year, month) ==
  LET Y == SOfInt(year)
      y == Y ++ ((SOfInt(month) -- "0.5") // "12")
      far == "-20" ++ ("32" ** (((y -- "1820") // "100") ^^ "2"))
  IN  CASE year < -500 -> far
        [] year >= -500 /\ year < 500 -> Poly(y // "100", <<"10583.6", "-1014.41", "33.78311", "-5.952053", "-0.1798452", "0.022174192", "0.0090316521">>)
        [] year >= 500 /\ year < 1600 -> Poly((y -- "1000") // "100", <<"1574.2", "-556.01", "71.23472", "0.319781", "-0.8503463", "-0.005050998", "0.0083572073">>)
        [] year >= 1600 /\ year < 1700 -> Poly(y -- "1600", <<"120", "-0.9808", "-0.01532", "1" // "7129">>)
        [] year >= 1700 /\ year < 1800 -> Poly(y -- "1700", <<"8.83", "0.1603", "-0.0059285", "0.00013336", "-1" // "1174000">>)
        [] year >= 1800 /\ year < 1860 -> Poly(y -- "1800", <<"13.72", "-0.332447", "0.0068612", "0.0041116", "-0.00037436", "0.0000121272", "-0.0000001699", "0.000000000875">>)
        [] year >= 1860 /\ year < 1900 -> Poly(y -- "1860", <<"7.62", "0.5737", "-0.251754", "0.01680668", "-0.0004473624", "1" // "233174">>)
        [] year >= 1900 /\ year < 1920 -> Poly(y -- "1900", <<"-2.79", "1.494119", "-0.0598939", "0.0061966", "-0.000197">>)
        [] year >= 1920 /\ year < 1941 -> Poly(y -- "1920", <<"21.20", "0.84493", "-0.0761", "0.0020936">>)
        [] year >= 1941 /\ year < 1961 -> Poly(y -- "1950", <<"29.07", "0.407", "-1" // "233", "1" // "2547">>)
        [] year >= 1961 /\ year < 1986 -> Poly(y -- "1975", <<"45.45", "1.067", "-1" // "260", "-1" // "718">>)
        [] year >= 1986 /\ year < 2005 -> Poly(y -- "2000", <<"63.86", "0.3345", "-0.060374", "0.0017275", "0.000651814", "0.00002373599">>)
        [] year >= 2005 /\ year < 2050 -> Poly(y -- "2000", <<"62.92", "0.32217", "0.005589">>)
        [] year >= 2050 /\ year < 2150 -> far -- ("0.5628" ** ("2150" -- y))
        [] year >= 2150 -> far
=============================================================================
