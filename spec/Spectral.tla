------------------------------ MODULE Spectral ------------------------------
(* Spectral mismatch factors, spectral averages, response conversions, the     *)
(* reference spectra and the SPECTRL2 clear-sky spectra.                       *)
EXTENDS SpectralOps, SpectralTables, SkyDiffuse, Decomp, Calendar, Point

\* hc [J m], elementary charge [C], and hc/q in W nm / A
Hc == "1.9864458571489286e-25"
Eq == "1.602176634e-19"
HcQ == (Hc // Eq) ** "1e9"

\* ------------------------------------------------ factors, element by element
Coef(k, table) == IF k.coef = <<>> THEN table[k.type] ELSE k.coef
Val(fn, a, k) ==
  CASE fn = "reject" -> [raise |-> "raise"]
    [] fn = "sapm" -> [y |-> SapmF1(a.airmass_absolute, k.A)]
    [] fn = "firstsolar" -> [y |-> FirstSolar(a.precipitable_water, a.airmass_absolute, Coef(k, FSCoef), k.lim[1], k.lim[2], k.lim[3], k.lim[4])]
    [] fn = "caballero" -> [y |-> Caballero(a.precipitable_water, a.airmass_absolute, a.aod500, Coef(k, CabCoef))]
    [] fn = "pvspec" -> [y |-> Pvspec(a.airmass_absolute, a.clearsky_index, Coef(k, PvspecCoef))]
    [] fn = "jrc" -> [y |-> Jrc(a.airmass, a.clearsky_index, Coef(k, JrcCoef))]
    [] fn = "polo" -> [y |-> IF k.coef = <<>>
                             THEN Polo(a.precipitable_water, a.airmass_absolute, a.aod500, a.aoi, a.pressure, PoloCoef[k.type], PoloAlb[k.type], a.albedo)
                             ELSE Polo(a.precipitable_water, a.airmass_absolute, a.aod500, a.aoi, a.pressure, SubSeq(k.coef, 1, 6), SubSeq(k.coef, 7, 9), a.albedo)]
    [] fn = "sr_to_qe" -> [y |-> (a.x // a.wavelength) ** HcQ]
    [] fn = "qe_to_sr" -> [y |-> (a.x ** a.wavelength) // HcQ]
Tol(fn) == <<"1e-9", "1e-10">>

\* ------------------------------------------------ spectra
\* linear interpolation, zero outside the table
RECURSIVE Seek(_, _, _, _)
Seek(w, x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF w[m] \preceq x THEN Seek(w, x, m, hi) ELSE Seek(w, x, lo, m)
Lerp(w, y, x) ==
  LET n == Len(w) IN
  IF x \prec w[1] \/ x \succ w[n] THEN "0"
  ELSE IF n = 1 THEN y[1]
  ELSE LET i == Seek(w, x, 1, n) IN
       IF w[i] \doteq x THEN y[i]
       ELSE y[i] ++ (((y[i + 1] -- y[i]) // (w[i + 1] -- w[i])) ** (x -- w[i]))
Trapz(w, y) == IF Len(w) < 2 THEN "0" ELSE RSum([i \in 1..(Len(w) - 1) |-> ((y[i] ++ y[i + 1]) ** (w[i + 1] -- w[i])) // "2"])
Product(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ** b[i]])
OnGrid(w, y, x) == TLCEval([i \in 1..Len(x) |-> Lerp(w, y, x[i])])
\* fraction of a spectrum usable by a device
Usable(srw, sry, w, e) == Trapz(w, Product(e, OnGrid(srw, sry, w))) // Trapz(w, e)
Mismatch(srw, sry, w, e, rw, re) == Usable(srw, sry, w, e) // Usable(srw, sry, rw, re)
MismatchDefault(srw, sry, w, e) == Mismatch(srw, sry, w, e, w, OnGrid(RefWl, RefGlobal, w))
\* mean photon energy [eV]
Ape(w, e) == LET flux == TLCEval([i \in 1..Len(w) |-> e[i] // (Hc // (w[i] ** "1e-9"))])
             IN  (Trapz(w, e) // Trapz(w, flux)) // Eq
AnyNaN(e) == \E i \in 1..Len(e) : IsNaN(e[i])

\* ------------------------------------------------ SPECTRL2
S2Mass(z) == LET h == "22" // "6370" IN ("1" ++ h) // RSqrt((CosD(z) ** CosD(z)) ++ ("2" ** h))
Trans(i, z, am, q) ==
  LET um == S2Wl[i] // "1000"
      um2 == um ** um
      amp == (am ** q.pressure) // "101300"
      tau == q.aod ** ((S2Wl[i] // "500") ^^ RNeg(q.alpha))
      l == RLog(S2Wl[i] // "400")
      w == q.albedo400 ** RExp(RNeg(q.variation ** (l ** l)))
      wm == (S2Water[i] ** q.pw) ** am
      um_ == S2Mixed[i] ** amp
  IN  [r |-> RExp(RNeg(amp // ((um2 ** um2) ** ("115.6406" -- ("1.3366" // um2))))),
       a |-> RExp(RNeg(tau ** am)),
       w |-> RExp(RNeg(("0.2385" ** wm) // (("1" ++ ("20.07" ** wm)) ^^ "0.45"))),
       o |-> RExp(RNeg((S2Ozone[i] ** q.ozone) ** S2Mass(z))),
       u |-> RExp(RNeg(("1.41" ** um_) // (("1" ++ ("118.3" ** um_)) ^^ "0.45"))),
       s |-> RExp(RNeg((w ** tau) ** am)),
       b |-> RExp(RNeg((("1" -- w) ** tau) ** am))]
\* q: one row of inputs; i: wavelength number
S2(i, q) ==
  LET z == q.apparent_zenith
      cz == CosD(z)
      t == TLCEval(Trans(i, z, q.airmass, q))
      p == TLCEval(Trans(i, z, "1.8", q))
      et == S2Et[i] ** Spencer(q.doy, "1")
      dni == et ** (t.r ** (t.a ** (t.w ** (t.o ** t.u))))
      cs == IF S2Wl[i] \preceq "450" THEN ((S2Wl[i] ++ "550") // "1000") ^^ "1.8" ELSE "1"
      alg == RLog("1" -- q.asymmetry)
      bfs == alg ** ("0.0783" ++ (alg ** ("-0.3824" -- (alg ** "0.5874"))))
      afs == alg ** ("1.459" ++ (alg ** ("0.1595" ++ (alg ** "0.4129"))))
      fs == "1" -- ("0.5" ** RExp((afs ++ (bfs ** cz)) ** cz))
      fsp == "1" -- ("0.5" ** RExp((afs ++ (bfs // "1.8")) // "1.8"))
      rs == (p.u ** (p.w ** p.b)) ** (("0.5" ** ("1" -- p.r)) ++ ((("1" -- fsp) ** p.r) ** ("1" -- p.s)))
      com == (et ** cz) ** (t.o ** (t.u ** (t.w ** t.b)))
      ray == (com ** ("1" -- (t.r ^^ "0.95"))) ** "0.5"
      aer == ((com ** (t.r ^^ "1.5")) ** ("1" -- t.s)) ** fs
      rg == q.albedo
      grd == (RSum(<<dni ** cz, ray, aer>>) ** (rs ** rg)) // ("1" -- (rs ** rg))
      dhi == RSum(<<ray, aer, grd>>) ** cs
      proj == RMax(CosD(q.aoi), "0")
      beam == dni ** proj
      sky == HayDaviesRb([dni |-> dni, dni_extra |-> et, dhi |-> dhi, surface_tilt |-> q.surface_tilt], proj // RMax(cz, "0.01745")).total
      gnd == (((dni ** cz) ++ dhi) ** rg) ** (("1" -- CosD(q.surface_tilt)) ** "0.5")
  IN  [wavelength |-> S2Wl[i], dni_extra |-> et, dni |-> dni, dhi |-> dhi, poa_direct |-> beam, poa_sky_diffuse |-> sky,
       poa_ground_diffuse |-> gnd, poa_global |-> RSum(<<beam, sky, gnd>>)]
S2Cols == {"dni_extra", "dni", "dhi", "poa_direct", "poa_sky_diffuse", "poa_ground_diffuse", "poa_global"}

\* ------------------------------------------------ observations
Doy(e, j) == IF e.day = "given" THEN e.doy[j] ELSE SOfInt(DoyOf(e.days[j]))
S2Clauses(e) ==
  IF e.expect = "raise" THEN Clause("spectrl2.accepted-without-day", e.exc # "")
  ELSE IF e.exc # "" THEN {"spectrl2.raised-" \o e.exc}
  ELSE Clause("spectrl2.wavelength", SeqNear(e.wavelength, S2Wl))
       \cup Clause("spectrl2.inputs-changed", e.kept)
       \cup Clause("spectrl2.shape", \A k \in S2Cols : k \in DOMAIN e.out /\ Len(e.out[k]) = Len(S2Wl) /\ \A i \in DOMAIN e.out[k] : Len(e.out[k][i]) = e.n)
       \cup UNION {UNION {
              LET q == TLCEval([apparent_zenith |-> e.rows[j].apparent_zenith, doy |-> Doy(e, j),
                               albedo |-> IF Len(e.spectral_albedo) = 0 THEN e.rows[j].ground_albedo ELSE e.spectral_albedo[i]] @@ e.rows[j])
                  v == TLCEval(S2(i, q))
              IN  {"spectrl2." \o k : k \in {x \in S2Cols : ~RClose(e.out[x][i][j], v[x], "1e-8", "1e-11")}}
              : i \in e.picked} : j \in 1..e.n}
       \* every wavelength: the components add up, nothing is negative in daylight
       \cup Clause("spectrl2.sum", \A i \in DOMAIN S2Wl, j \in 1..e.n :
              RClose(e.out.poa_global[i][j], RSum(<<e.out.poa_direct[i][j], e.out.poa_sky_diffuse[i][j], e.out.poa_ground_diffuse[i][j]>>), "1e-9", "1e-12"))
       \cup Clause("spectrl2.negative", \A i \in DOMAIN S2Wl, j \in 1..e.n, k \in S2Cols :
              (e.rows[j].apparent_zenith \succ "90") \/ ~(e.out[k][i][j] \prec "0"))
       \cup Clause("spectrl2.behind", \A i \in DOMAIN S2Wl, j \in 1..e.n :
              (e.rows[j].aoi \succ "90.0001") => (IsNaN(e.out.poa_direct[i][j]) \/ e.out.poa_direct[i][j] \doteq "0"))
FieldClauses(e) ==
  IF e.exc # "" THEN {"field.raised-" \o e.exc}
  ELSE Clause("field.index-or-type", e.typed) \cup Clause("field.inputs-changed", e.kept)
       \cup Clause("field.shape", Len(e.out) = Len(e.sun))
       \cup UNION {Clause("field.mismatch@" \o SOfInt(j), Len(e.out) # Len(e.sun) \/ RClose(e.out[j],
              IF Len(e.refw) = 0 THEN MismatchDefault(e.srw, e.sr, e.w, e.sun[j]) ELSE Mismatch(e.srw, e.sr, e.w, e.sun[j], e.refw, e.ref),
              "1e-9", "1e-12")) : j \in 1..Len(e.sun)}
       \* scaling any spectrum leaves the factor as it was
       \cup Clause("field.scale", Len(e.out) # Len(e.scaled) \/ SeqNear(e.out, e.scaled))
ApeClauses(e) ==
  IF e.expect # "" THEN Clause("ape.not-rejected-as-" \o e.expect, e.exc = e.expect)
  ELSE IF e.exc # "" THEN {"ape.raised-" \o e.exc}
  ELSE Clause("ape.index-or-type", e.typed) \cup Clause("ape.inputs-changed", e.kept)
       \cup Clause("ape.shape", Len(e.out) = Len(e.spectra))
       \cup UNION {Clause("ape.value@" \o SOfInt(j), Len(e.out) # Len(e.spectra) \/ RClose(e.out[j],
              IF AnyNaN(e.spectra[j]) THEN NaN ELSE Ape(e.w, e.spectra[j]), "1e-9", "1e-12")) : j \in 1..Len(e.spectra)}
       \cup Clause("ape.scale", Len(e.out) # Len(e.scaled) \/ SeqNear(e.out, e.scaled))
       \* the mean lies between the energies of the extreme wavelengths
       \cup Clause("ape.range", \A j \in 1..Len(e.out) : IsNaN(e.out[j]) \/
              (~(e.out[j] \prec ((HcQ // e.w[Len(e.w)]) ** "0.9999")) /\ ~(e.out[j] \succ ((HcQ // e.w[1]) ** "1.0001"))))
RefClauses(e) ==
  IF e.expect # "" THEN Clause("reference.not-rejected-as-" \o e.expect, e.exc = e.expect)
  ELSE IF e.exc # "" THEN {"reference.raised-" \o e.exc}
  ELSE LET w == IF Len(e.w) = 0 THEN RefWl ELSE e.w IN
       Clause("reference.columns", e.columns = <<"extraterrestrial", "global", "direct">>)
       \cup Clause("reference.index", SeqNear(e.index, w))
       \cup UNION {Clause("reference." \o k,
              Len(e.out[k]) = Len(w) /\ \A i \in DOMAIN w :
                 RClose(e.out[k][i], Lerp(RefWl, CASE k = "global" -> RefGlobal [] k = "direct" -> RefDirect [] OTHER -> RefEt, w[i]), "1e-10", "1e-30"))
              : k \in {x \in {"global", "direct", "extraterrestrial"} : x \in DOMAIN e.out}}
\* response <-> efficiency; normalised results have the largest magnitude one
ConvClauses(e) ==
  IF e.expect # "" THEN Clause(e.fn \o ".not-rejected-as-" \o e.expect, e.exc = e.expect)
  ELSE IF e.exc # "" THEN {e.fn \o ".raised-" \o e.exc}
  ELSE LET raw(j) == TLCEval([i \in 1..Len(e.w) |-> IF e.fn = "sr_to_qe" THEN (e.x[j][i] // e.w[i]) ** HcQ ELSE (e.x[j][i] ** e.w[i]) // HcQ])
           top(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN "0" ELSE RMax(f[i - 1], RAbs(s[i])) IN f[Len(s)]
           want(j) == LET r == raw(j) t == IF e.normalize THEN top(r) ELSE "1" IN TLCEval([i \in 1..Len(r) |-> r[i] // t])
       IN  Clause(e.fn \o ".shape", Len(e.out) = Len(e.x))
           \cup UNION {Clause(e.fn \o ".value", Len(e.out) # Len(e.x) \/ RSeqClose(e.out[j], want(j), "1e-9", "1e-12")) : j \in 1..Len(e.x)}
           \cup Clause(e.fn \o ".inverse", e.normalize \/ Len(e.back) # Len(e.x) \/ \A j \in 1..Len(e.x) : SeqNear(e.back[j], e.x[j]))
           \cup Clause(e.fn \o ".index-or-type", e.typed) \cup Clause(e.fn \o ".inputs-changed", e.kept)
\* the example response is a cubic spline through its knots, zero outside them
ExKnots == <<"290", "350", "400", "500", "650", "800", "900", "950", "1000", "1050", "1100", "1150", "1190">>
ExSr == <<"0", "0.27", "0.37", "0.52", "0.71", "0.88", "0.97", "1", "0.93", "0.58", "0.21", "0.05", "0">>
\* cubic through four equally spaced points f[1..4] (step h): first and second
\* derivatives at both ends, third derivative
Cub(f, h) ==
  [d1a |-> RSum(<<"-11" ** f[1], "18" ** f[2], "-9" ** f[3], "2" ** f[4]>>) // ("6" ** h),
   d1b |-> RSum(<<"11" ** f[4], "-18" ** f[3], "9" ** f[2], "-2" ** f[1]>>) // ("6" ** h),
   d2a |-> RSum(<<"2" ** f[1], "-5" ** f[2], "4" ** f[3], "-1" ** f[4]>>) // (h ** h),
   d2b |-> RSum(<<"2" ** f[4], "-5" ** f[3], "4" ** f[2], "-1" ** f[1]>>) // (h ** h),
   d3 |-> RSum(<<"-1" ** f[1], "3" ** f[2], "-3" ** f[3], f[4]>>) // (h ** (h ** h))]
\* e.seg[j]: the response at 7 equally spaced wavelengths across knot interval j
ExampleClauses(e) ==
  IF e.exc # "" THEN {"example.raised-" \o e.exc}
  ELSE LET H(j) == (ExKnots[j + 1] -- ExKnots[j]) // "6"
           c == TLCEval([j \in 1..12 |-> Cub(<<e.seg[j][1], e.seg[j][3], e.seg[j][5], e.seg[j][7]>>, "2" ** H(j))])
       IN  Clause("example.knots", \A j \in 1..12 : RClose(e.seg[j][1], ExSr[j], "1e-9", "1e-9") /\ RClose(e.seg[j][7], ExSr[j + 1], "1e-9", "1e-9"))
           \cup Clause("example.outside", \A i \in DOMAIN e.outside : e.outside[i] \doteq "0")
           \cup Clause("example.cubic", \A j \in 1..12, i \in 1..3 :
                  RClose(RSum(<<e.seg[j][i], "-4" ** e.seg[j][i + 1], "6" ** e.seg[j][i + 2], "-4" ** e.seg[j][i + 3], e.seg[j][i + 4]>>), "0", "0", "1e-11"))
           \cup Clause("example.slope", \A j \in 1..11 : RClose(c[j].d1b, c[j + 1].d1a, "1e-8", "1e-10"))
           \cup Clause("example.curvature", \A j \in 1..11 : RClose(c[j].d2b, c[j + 1].d2a, "1e-7", "1e-11"))
           \cup Clause("example.ends", RClose(c[1].d3, c[2].d3, "1e-5", "1e-12") /\ RClose(c[11].d3, c[12].d3, "1e-5", "1e-12"))
           \cup Clause("example.names", e.names = <<"wavelength", "spectral_response">>)
           \cup Clause("example.index", SeqNear(e.defindex, TLCEval([i \in 1..185 |-> SOfInt(275 + (5 * i))])))
           \cup Clause("example.default", SeqNear(e.default, e.again))

Clauses(e) == CASE e.kind = "point" -> PointClauses(e, Val, Tol)
                [] e.kind = "spectrl2" -> S2Clauses([e EXCEPT !.picked = {e.picked[i] : i \in DOMAIN e.picked}])
                [] e.kind = "field" -> FieldClauses(e)
                [] e.kind = "ape" -> ApeClauses(e)
                [] e.kind = "reference" -> RefClauses(e)
                [] e.kind = "conv" -> ConvClauses(e)
                [] e.kind = "example" -> ExampleClauses(e)
SInit(meta) == 0
SStep(meta, st, e) == <<st, Clauses(e)>>
=============================================================================
