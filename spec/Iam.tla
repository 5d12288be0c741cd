-------------------------------- MODULE Iam --------------------------------
(* Incidence-angle modifiers: direct models, their isotropic-diffuse         *)
(* averages, and fits/conversions between models.                            *)
EXTENDS Point

Behind(aoi) == RAbs(aoi) \succeq "90"

Ashrae(aoi, b) ==
  IF Behind(aoi) THEN "0" ELSE RMax("0", "1" -- (b ** (("1" // CosD(aoi)) -- "1")))

\* Fresnel reflectances of one interface, for cosines ci (in, index ni) and co (out, index no)
RhoS(ni, ci, no, co) == LET r == ((ni ** ci) -- (no ** co)) // ((ni ** ci) ++ (no ** co)) IN r ** r
RhoP(ni, ci, no, co) == LET r == ((ni ** co) -- (no ** ci)) // ((ni ** co) ++ (no ** ci)) IN r ** r
CosOut(ni, ci, no) == RSqrt("1" -- (((ni // no) ** (ni // no)) ** ("1" -- (ci ** ci))))
Physical(aoi, n, K, L, nar) ==
  LET coated == nar # "None" /\ ~RClose(nar, "1", "1e-5", "1e-8")
      n2 == IF coated THEN nar ELSE n
      two == ~RClose(n, n2, "1e-5", "1e-8")
      Tau(ci) ==
        LET c2 == CosOut("1", ci, n2)
            c3 == IF two THEN CosOut(n2, c2, n) ELSE c2
            s1 == RhoS("1", ci, n2, c2)  p1 == RhoP("1", ci, n2, c2)
            s2 == IF two THEN RhoS(n2, c2, n, c3) ELSE "0"
            p2 == IF two THEN RhoP(n2, c2, n, c3) ELSE "0"
            T(r1, r2) == (("1" -- r1) ** ("1" -- r2)) // ("1" -- (r1 ** r2))
        IN  ((T(s1, s2) ++ T(p1, p2)) // "2") ** RExp((RNeg(K) ** L) // c3)
      ci == RMax("0", CosD(aoi))
  IN  IF IsNaN(aoi) THEN NaN
      ELSE IF Behind(aoi) THEN "0"
      ELSE Tau(ci) // Tau("1")

MartinRuiz(aoi, ar) ==
  IF Behind(aoi) THEN "0"
  ELSE ("1" -- RExp(RNeg(CosD(aoi) // ar))) // ("1" -- RExp("-1" // ar))

MRDiffuse(tilt0, ar, c1, c2o) ==
  LET c2 == IF c2o = "None" THEN ("0.5" ** ar) -- "0.154" ELSE c2o
      tilt == RMin(RMax(tilt0, "1e-6"), "179.999999")
      b == Rad(tilt)  s == IF tilt \prec "90" THEN RSin(b) ELSE RSin(Pi -- b)
      sky == s ++ (((Pi -- b) -- s) // ("1" ++ RCos(b)))
      gnd == s ++ ((b -- s) // ("1" -- RCos(b)))
      F(x) == "1" -- RExp(RNeg(((c1 ++ (c2 ** x)) ** x) // ar))
  IN  [sky |-> F(sky), gnd |-> F(gnd)]

Poly(x, cs) == LET N == Len(cs)
                   G[i \in 1..N] == IF i = N THEN cs[i] ELSE cs[i] ++ (x ** G[i + 1])
               IN G[1]
Sapm(aoi, k) ==
  LET v == RMax(Poly(aoi, k.B), "0")
  IN  IF IsNaN(aoi) THEN NaN ELSE IF aoi \prec "0" THEN "0"
      ELSE IF k.upper = "None" THEN v ELSE RMin(v, k.upper)

Schlick(aoi) == IF Behind(aoi) THEN "0" ELSE "1" -- (("1" -- CosD(aoi)) ^^ "5")

SchlickDiffuse(tilt) ==
  LET cb == CosD(tilt)  sb == SinD(tilt)  t == Rad(tilt)
      cuk == ("2" // (Pi ** ("1" ++ cb))) ** RSum(<<("30" // "7") ** Pi, RNeg(("160" // "21") ** t),
               RNeg((("10" // "3") ** Pi) ** cb), (("160" // "21") ** cb) ** sb,
               RNeg(((("5" // "3") ** Pi) ** cb) ** (sb ** sb)), (("20" // "7") ** cb) ** (sb ^^ "3"),
               RNeg(((("5" // "16") ** Pi) ** cb) ** (sb ^^ "4")), (("16" // "105") ** cb) ** (sb ^^ "5")>>)
      cug == ("40" // ("21" ** ("1" -- cb))) -- ((("1" ++ cb) // ("1" -- cb)) ** cuk)
  IN  [sky |-> cuk, gnd |-> IF tilt \prec "1e-3" THEN "0" ELSE cug]

\* piecewise linear with constant-slope extrapolation, clipped at 0
RECURSIVE Seg(_, _, _)
Seg(x, xs, i) == IF i >= Len(xs) - 1 \/ x \preceq xs[i + 1] THEN i ELSE Seg(x, xs, i + 1)
Lin(x, xs, ys) == LET i == Seg(x, xs, 1)
                  IN ys[i] ++ (((x -- xs[i]) // (xs[i + 1] -- xs[i])) ** (ys[i + 1] -- ys[i]))
Interp(aoi, k) ==
  IF IsNaN(aoi) THEN NaN
  ELSE LET v == RMax("0", Lin(RAbs(aoi), k.theta, k.iam))
       IN IF k.normalize THEN v // Lin("0", k.theta, k.iam) ELSE v

Direct(fn, aoi, k) ==
  CASE fn = "ashrae" -> Ashrae(aoi, k.b)
    [] fn = "physical" -> Physical(aoi, k.n, k.K, k.L, k.n_ar)
    [] fn = "martin_ruiz" -> MartinRuiz(aoi, k.a_r)
    [] fn = "sapm" -> Sapm(aoi, k)
    [] fn = "schlick" -> Schlick(aoi)
    [] fn = "interp" -> Interp(aoi, k)

\* Isotropic average of the direct model over a region of the hemisphere seen
\* from a surface tilted by beta: cells of size a = pi/num in zenith and azimuth.
RegionCell(reg, p, a, half) ==
  CASE reg = "sky" -> RLe(p ++ a, half)
    [] reg = "ground" -> RLe(half, p)
    [] reg = "horizon" -> RLe("1.562069680534925", p) /\ RLe(p ++ a, half)
Marion(fn, k, tilt, reg, num) ==
  LET a == Pi // num  half == Pi // "2"  b == Rad(tilt)
      cells == [i \in 1..num |-> (i - 1) ** a]
      rows == {i \in 1..num : RegionCell(reg, cells[i], a, half)}
      Cell(i, j) == LET p == cells[i] ++ ("0.5" ** a)  q == ((j - 1) ** a) ++ ("0.5" ** a)
                        c == (RCos(b) ** RCos(p)) ++ ((RSin(b) ** RSin(p)) ** RCos(q))
                    IN IF c \succ "0" THEN c ELSE "0"
      W(i) == a ** (RCos(cells[i]) -- RCos(cells[i] ++ a))
      NumR(i) == RSum([j \in 1..(2 * num) |->
                  LET c == Cell(i, j) IN IF c \doteq "0" THEN "0"
                      ELSE Direct(fn, Deg(RAcos(RMin(c, "1"))), k) ** (c ** W(i))])
      DenR(i) == RSum([j \in 1..(2 * num) |-> Cell(i, j) ** W(i)])
      n == RSum([i \in 1..num |-> IF i \in rows THEN NumR(i) ELSE "0"])
      d == RSum([i \in 1..num |-> IF i \in rows THEN DenR(i) ELSE "0"])
  IN  IF IsNaN(tilt) THEN NaN ELSE IF d \doteq "0" THEN "0" ELSE n // d

Val(fn, a, k) ==
  CASE fn \in {"ashrae", "physical", "sapm", "schlick", "interp"} -> [y |-> Direct(fn, a.aoi, k)]
    [] fn = "martin_ruiz" -> IF RLe(k.a_r, "0") THEN [raise |-> "raise"] ELSE [y |-> MartinRuiz(a.aoi, k.a_r)]
    [] fn = "martin_ruiz_diffuse" -> MRDiffuse(a.surface_tilt, k.a_r, k.c1, k.c2)
    [] fn = "schlick_diffuse" -> SchlickDiffuse(a.surface_tilt)
    [] fn = "marion_integrate" -> [y |-> Marion(k.model, k.p, a.surface_tilt, k.region, k.num)]
    [] fn = "reject" -> [raise |-> "raise"]
Tol(fn) == IF fn = "schlick_diffuse" THEN <<"1e-6", "1e-4">> ELSE IF fn = "martin_ruiz_diffuse" THEN <<"1e-6", "1e-6">> ELSE <<"1e-7", "1e-9">>

\* default-resolution diffuse factors: within discretisation error of a coarse average
DiffuseClauses(e) ==
  IF e.exc # "" THEN {"marion_diffuse.raised"}
  ELSE UNION {Clause("marion_diffuse." \o r,
         LET x == IF r = "horizon" THEN e.fine[r] ELSE Marion(e.model, e.p, e.tilt, r, e.num)
         IN  (e.tilt \prec "15" /\ r = "ground")
             \/ RClose(e.out[r], x, "0.02", "0.01")) : r \in {"sky", "horizon", "ground"}}
      \cup UNION {Clause("marion_diffuse=integrate." \o r, Near(e.out[r], e.fine[r])) : r \in {"sky", "horizon", "ground"}}

\* fits: no parameter on the grid beats the returned one
Weight(w, x) == CASE w = "default" -> "1" -- SinD(x) [] w = "flat" -> "1" [] w = "cos" -> CosD(x)
Resid(name, p, aoi, iam, w) ==
  RSum([i \in 1..Len(aoi) |->
     IF (aoi[i] \prec "0") \/ (aoi[i] \succ "90") THEN "0"
     ELSE LET d == Direct(name, aoi[i], p)
          IN Weight(w, aoi[i]) ** RAbs(iam[i] -- (IF IsNaN(d) THEN "0" ELSE d))])
FitClauses(e) ==
  IF e.exc # "" THEN {"fit.raised"}
  ELSE Clause("fit.not-optimal",
         LET best == Resid(e.target, e.p, e.aoi, e.iam, e.weight)
             slack == IF e.target = "physical" THEN "1.4" ELSE "1.002"
             off == IF e.target = "physical" THEN "2e-2" ELSE "5e-4"
         IN  \A i \in 1..Len(e.alts) :
               RLe(best, (Resid(e.target, e.alts[i], e.aoi, e.iam, e.weight) ** slack) ++ off))
       \cup Clause("fit.own-data", e.own =>
               \A i \in 1..Len(e.aoi) : (e.aoi[i] \prec "0") \/ (e.aoi[i] \succ "85")
                  \/ RClose(e.iam[i], Direct(e.target, e.aoi[i], e.p), "0", "0.006"))

\* relations on the observed curve of one model
CurveClauses(e) ==
  IF e.exc # "" THEN {"curve.raised"}
  ELSE LET N == 1..Len(e.aoi) IN
       Clause(e.fn \o ".one-at-normal", \A i \in N : (e.aoi[i] \doteq "0") => RClose(e.y[i], e.at0, "1e-6", "1e-9"))
       \cup Clause(e.fn \o ".negative", \A i \in N : ~(e.y[i] \prec "0"))
       \cup Clause(e.fn \o ".nan", \A i \in N : IsNaN(e.y[i]) = IsNaN(e.aoi[i]))
       \cup Clause(e.fn \o ".behind", \A i \in N : e.fn \in {"sapm", "interp"} \/ ~Behind(e.aoi[i]) \/ RClose(e.y[i], "0", "0", "1e-9"))
       \cup Clause(e.fn \o ".monotone", e.fn \in {"sapm", "interp"} \/
             \A i \in 2..Len(e.aoi) : (e.aoi[i - 1] \succeq "0" /\ e.aoi[i] \succeq e.aoi[i - 1])
                  => ~(e.y[i] \succ (e.y[i - 1] ++ "1e-9")))

Clauses(e) == CASE e.kind = "point" -> PointClauses(e, Val, Tol)
                [] e.kind = "diffuse" -> DiffuseClauses(e)
                [] e.kind = "fit" -> FitClauses(e)
                [] e.kind = "curve" -> CurveClauses(e)
SInit(meta) == 0
SStep(meta, st, e) == <<st, Clauses(e)>>
=============================================================================
