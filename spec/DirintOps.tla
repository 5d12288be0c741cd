------------------------------ MODULE DirintOps ------------------------------
(* DIRINT: DISC beam corrected by a coefficient selected by clearness, zenith,
   water and the change of clearness to the adjacent samples; DIRINDEX; and
   GTI-DIRINT, which inverts the transposition by iteration (Marion 2015).      *)
EXTENDS Decomp, SkyDiffuse, DirintTable, TLC
Eps == "1e-9"
\* bins whose half-open interval [lo, hi) the value may fall in; 0: no bin
InBin(x, lo, hi) == x \succeq (lo -- Eps) /\ x \prec (hi ++ Eps)
Bins(x, edges) ==      \* edges of bins 1 .. Len(edges) - 1
  IF IsNaN(x) THEN {0} ELSE
  LET b == {k \in 1..(Len(edges) - 1) : InBin(x, edges[k], edges[k + 1])}
  IN  IF b = {} THEN {0} ELSE b
KtEdges == <<"0", "0.24", "0.4", "0.56", "0.7", "0.8", "1">>
KtBins(x) == Bins(x, KtEdges) \cup (IF x \succ "1" /\ x \prec ("1" ++ Eps) THEN {0} ELSE {})
ZenBins(x) == IF x \prec "0" THEN {0} ELSE Bins(x, <<"0", "25", "40", "55", "70", "80", "Infinity">>)
WBins(dew) == IF dew = "None" THEN {5} ELSE Bins(RExp(("0.07" ** dew) -- "0.075"), <<"0", "1", "2", "3", "Infinity">>)
DkBins(x) == Bins(x, <<"0", "0.015", "0.035", "0.07", "0.15", "0.3", "1">>) \cup (IF x \succ "1" /\ x \prec ("1" ++ Eps) THEN {0} ELSE {})
CoefSet(ktp, z, dew, dk) ==
  {IF 0 \in {a, b, i, w} THEN NaN ELSE DirintTable[a][b][i][w] : a \in KtBins(ktp), b \in ZenBins(z), i \in dk, w \in WBins(dew)}
\* mean absolute change to the neighbours that exist and are known
DeltaKt(ktp, k) ==
  LET d == SelectSeq(<<IF k < Len(ktp) THEN RAbs(ktp[k] -- ktp[k + 1]) ELSE NaN, IF k > 1 THEN RAbs(ktp[k] -- ktp[k - 1]) ELSE NaN>>, LAMBDA x : ~IsNaN(x))
  IN  IF d = <<>> THEN NaN ELSE RSum(d) // ToString(Len(d))
DkSet(ktp, k, use) == IF use THEN DkBins(DeltaKt(ktp, k)) ELSE {7}

\* s: [ghi, z, doy, pres, dew : sequences; use, mincos, maxz]
DiscAll(s) == TLCEval([k \in 1..Len(s.z) |-> Disc(s.ghi[k], s.z[k], s.doy[k], s.pres[k], s.mincos, s.maxz, "12")])
KtpAll(d) == TLCEval([k \in 1..Len(d) |-> KtPrime(d[k].kt, d[k].airmass, "1")])
\* at each sample the set of possible values (more than one only on a bin edge)
DirintOpts(s) ==
  LET d == DiscAll(s)  kp == KtpAll(d)
  IN  TLCEval([k \in 1..Len(d) |-> {d[k].dni ** c : c \in CoefSet(kp[k], s.z[k], s.dew[k], DkSet(kp, k, s.use))}])
Dirint(s) == LET o == DirintOpts(s) IN TLCEval([k \in 1..Len(o) |-> CHOOSE x \in o[k] : TRUE])
Index(clear, a, b) == LET q == (clear ** a) // b IN IF q \prec "0" THEN "0" ELSE q

(* ---- GTI-DIRINT ----
   g: [poa, aoi, z, az, doy, day, dew, pres, alb : sequences; tilt, saz, use, model, pm, maxit, gt]   *)
Ks(g) == 1..Len(g.poa)
Ext(g, k) == Spencer(g.doy[k], "1370")
Am(g, k) == AbsAirmass(RelAirmass(g.z[k], "kasten1966"), g.pres[k])
Front(g, k) == g.aoi[k] \prec "90"
Step(n) == IF n < 3 THEN "1" ELSE IF n < 10 THEN "0.5" ELSE IF n < 20 THEN "0.25" ELSE "0.125"
First(g) == [n |-> 0, poa |-> g.poa, best |-> [k \in Ks(g) |-> "9999"], ghi |-> <<>>, dni |-> <<>>, dhi |-> <<>>, ktp |-> <<>>]
Settled(g, s) == \A k \in Ks(g) : Front(g, k) => s.best[k] \preceq "1"
Pick(S) == CHOOSE x \in S : TRUE
\* plane-of-array irradiance of a split
Forward(g, k, ghi, dni, dhi) ==
  LET w == [surface_tilt |-> g.tilt, surface_azimuth |-> g.saz, solar_zenith |-> g.z[k], solar_azimuth |-> g.az[k],
            dni |-> dni, ghi |-> ghi, dhi |-> dhi, dni_extra |-> Ext(g, k), airmass |-> Am(g, k)]
  IN  RSum(<<RMax(dni ** Projection(g.tilt, g.saz, g.z[k], g.az[k]), "0"), SkyParts(g.model, w, g.pm).total, Ground(g.tilt, ghi, g.alb[k])>>)
Beam0(kt, am, ext) == RMax(DiscKn(kt, RMin(am, "12")) ** ext, "0")
\* one pass: the split of the adjusted irradiance and its distance from the measurement
Pass(g, s) ==
  LET kt == TLCEval([k \in Ks(g) |-> Kt(s.poa[k], g.aoi[k], Ext(g, k), "0.065", "2")])
      kp == TLCEval([k \in Ks(g) |-> KtPrime(kt[k], Am(g, k), "2")])
      cf == TLCEval([k \in Ks(g) |-> Pick(CoefSet(kp[k], g.z[k], g.dew[k], DkSet(kp, k, g.use)))])
      dn == TLCEval([k \in Ks(g) |-> Beam0(kt[k], Am(g, k), Ext(g, k)) ** cf[k]])
      gh == TLCEval([k \in Ks(g) |-> kt[k] ** (Ext(g, k) ** RMax("0.065", CosD(g.z[k])))])
      dh == TLCEval([k \in Ks(g) |-> RMax(gh[k] -- (dn[k] ** CosD(g.z[k])), "0")])
  IN  [kp |-> kp, dn |-> dn, gh |-> gh, dh |-> dh, df |-> TLCEval([k \in Ks(g) |-> Forward(g, k, gh[k], dn[k], dh[k]) -- g.poa[k]])]
Advance(g, s, r) ==
  LET better == TLCEval([k \in Ks(g) |-> RAbs(r.df[k]) \prec s.best[k]])
      keep(new, old) == TLCEval([k \in Ks(g) |-> IF s.n = 0 \/ better[k] THEN new[k] ELSE old[k]])
  IN  [n |-> s.n + 1, poa |-> TLCEval([k \in Ks(g) |-> RMax("1", s.poa[k] -- (Step(s.n) ** r.df[k]))]),
       best |-> TLCEval([k \in Ks(g) |-> IF better[k] THEN RAbs(r.df[k]) ELSE s.best[k]]),
       ghi |-> keep(r.gh, s.ghi), dni |-> keep(r.dn, s.dni), dhi |-> keep(r.dh, s.dhi), ktp |-> keep(r.kp, s.ktp)]
Iterate(g, s) == Advance(g, s, TLCEval(Pass(g, s)))
\* the whole run: final state and every pass
RECURSIVE Run(_, _, _)
Run(g, s, h) == IF Settled(g, s) \/ s.n >= g.maxit THEN [s |-> s, h |-> h]
                ELSE LET r == TLCEval(Pass(g, s)) IN Run(g, TLCEval(Advance(g, s, r)), Append(h, r))

\* sun behind the plane: the clearness of that half day with the sun 65 to 80
\* degrees off the plane, isotropic sky and ground
Mean(q) == IF q = <<>> THEN NaN ELSE RSum(q) // ToString(Len(q))
Half(g, k) == IF g.az[k] \prec "180" THEN "am" ELSE IF g.az[k] \succ "180" THEN "pm" ELSE "noon"
BackKtp(g, ktp, k) ==
  LET like == SelectSeq([j \in Ks(g) |-> j], LAMBDA j : g.day[j] = g.day[k] /\ Half(g, j) = Half(g, k) /\ g.aoi[j] \succ "65" /\ g.aoi[j] \prec "80" /\ ~IsNaN(ktp[j]))
  IN  IF ~(g.z[k] \prec "90") \/ Half(g, k) = "noon" THEN NaN ELSE Mean([i \in 1..Len(like) |-> ktp[like[i]]])
BackDni(g, ktp, k) ==
  LET kt == BackKtp(g, ktp, k) ** KtFactor(Am(g, k))
      b0 == Beam0(kt, Am(g, k), Ext(g, k))
  IN  {b0 ** c : c \in CoefSet(ktp[k], g.z[k], g.dew[k], {7}) \cup CoefSet(BackKtp(g, ktp, k), g.z[k], g.dew[k], {7})}
BackParts(g, k, dni) ==
  LET p == dni ** CosD(g.z[k])  c == CosD(g.tilt)  a == g.alb[k]
      dhi == (("2" ** g.poa[k]) -- (p ** (a ** ("1" -- c)))) // (("1" ++ c) ++ (a ** ("1" -- c)))
  IN  [ghi |-> p ++ dhi, dni |-> dni, dhi |-> dhi]
\* options for each sample of the result
\* (passes that are equally good up to rounding are equally possible)
GtiOpts(g, s, h) == TLCEval([k \in Ks(g) |->
  IF Front(g, k) THEN {[ghi |-> s.ghi[k], dni |-> s.dni[k], dhi |-> s.dhi[k]]}
     \cup {[ghi |-> h[i].gh[k], dni |-> h[i].dn[k], dhi |-> h[i].dh[k]] : i \in {j \in 1..Len(h) : RAbs(h[j].df[k]) \preceq (s.best[k] ++ "1e-9")}}
  ELSE IF ~g.gt THEN {[ghi |-> NaN, dni |-> NaN, dhi |-> NaN]}
  ELSE {BackParts(g, k, d) : d \in BackDni(g, s.ktp, k)}])
=============================================================================
