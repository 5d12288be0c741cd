------------------------------- MODULE FitsOps -----------------------------
(* Parameter estimation: what a fitted parameter set has to reproduce, and    *)
(* the documented closed-form estimators.                                     *)
EXTENDS DcOps, Diode, TLC

Q(IL, I0, Rs, Rsh, a) == Full([Iph |-> IL, I0 |-> I0, Rs |-> Rs, Rsh |-> Rsh, a |-> a])
OfPar(r) == Q(r.IL, r.I0, r.Rs, r.Rsh, r.nNsVth)
\* current error of the curve q at a measured point
CurveErr(v, i, q) ==
  LET vd == v ++ (i ** q.Rs) IN RAbs(DI(vd, q) -- i) // ("1" -- (DI1(vd, q) ** q.Rs))
\* slope of power with voltage at a point assumed on the curve, relative to the current
MppErr(v, i, q) == LET vd == v ++ (i ** q.Rs) IN RAbs((v ** DIDV(vd, q)) ++ i) // RAbs(i)
Worst(S) == IF S = {} THEN "0" ELSE CHOOSE x \in S : \A y \in S : IsNaN(x) \/ (~IsNaN(y) /\ (y \preceq x))
KeyErr(d, q) == Worst({CurveErr("0", d.i_sc, q) // d.i_sc, CurveErr(d.v_oc, "0", q) // d.i_sc, CurveErr(d.v_mp, d.i_mp, q) // d.i_sc})

\* key points of a curve
RECURSIVE BisV(_, _, _, _)
BisV(q, lo, hi, n) == IF n = 0 THEN (lo ++ hi) // "2"
  ELSE LET m == (lo ++ hi) // "2" IN IF DV(m, q) \prec "0" THEN BisV(q, m, hi, n - 1) ELSE BisV(q, lo, m, n - 1)
RECURSIVE BisP(_, _, _, _)
BisP(q, lo, hi, n) == IF n = 0 THEN (lo ++ hi) // "2"
  ELSE LET m == (lo ++ hi) // "2" IN IF "0" \prec DPDV(m, q) THEN BisP(q, m, hi, n - 1) ELSE BisP(q, lo, m, n - 1)
KeyPts(q) ==
  LET sc == BisV(q, "0", q.Iph ** q.Rs, 60)
      pk == BisP(q, sc, Hi(q), 60)
  IN  TLCEval([i_sc |-> DI(sc, q), v_oc |-> VocOf(q), v_mp |-> DV(pk, q), i_mp |-> DI(pk, q)])
\* n+1 points of the curve from short circuit to open circuit
CurvePts(q, n) ==
  LET sc == BisV(q, "0", q.Iph ** q.Rs, 60)
      oc == Bisect(q, "0", Hi(q), 60)
  IN  TLCEval([k \in 1..n + 1 |-> LET t == (k - 1) // n
                                      \* denser towards open circuit
                                      vd == sc ++ ((oc -- sc) ** ("1" -- (("1" -- t) ** (("1" -- t)))))
                                  IN  <<IF k = 1 THEN "0" ELSE DV(vd, q), IF k = n + 1 THEN "0" ELSE DI(vd, q)>>])

\* De Soto's five equations at (i_sc, v_oc, i_mp, v_mp, beta), scaled
DesotoRef(m) == [alpha_sc |-> m.alpha_sc, a_ref |-> m.a_ref, I_L_ref |-> m.I_L_ref, I_o_ref |-> m.I_o_ref, R_sh_ref |-> m.R_sh_ref, R_s |-> m.R_s,
                 EgRef |-> m.EgRef, dEgdT |-> m.dEgdT, irrad_ref |-> m.irrad_ref, temp_ref |-> m.temp_ref]
DesotoEqErr(d, m) ==
  LET q == OfPar(DesotoPar(m.irrad_ref, m.temp_ref, m))
      w == [DesotoPar(m.irrad_ref, m.temp_ref ++ "2", m) EXCEPT !.Rsh = m.R_sh_ref]
      v2 == d.v_oc ++ ("2" ** d.beta_voc)
  IN  Worst({CurveErr("0", d.i_sc, q) // d.i_sc, CurveErr(d.v_oc, "0", q) // d.i_sc, CurveErr(d.v_mp, d.i_mp, q) // d.i_sc,
             MppErr(d.v_mp, d.i_mp, q), CurveErr(v2, "0", OfPar(w)) // d.i_sc})

\* Batzelis' explicit De Soto parameters
Batzelis(d) ==
  LET t0 == "298.15"
      al == d.alpha_sc // d.i_sc
      be == d.beta_voc // d.v_oc
      del == ("1" -- (be ** t0)) // ("50.1" -- (al ** t0))
      w == RLambertW(RExp(("1" // del) ++ "1"))
      a == del ** d.v_oc
      rs == ((a ** (w -- "1")) -- d.v_mp) // d.i_mp
      rsh == (a ** (w -- "1")) // ((d.i_sc ** ("1" -- ("1" // w))) -- d.i_mp)
      il == ("1" ++ (rs // rsh)) ** d.i_sc
  IN  [alpha_sc |-> d.alpha_sc, a_ref |-> a, I_L_ref |-> il, I_o_ref |-> il ** RExp(RNeg("1" // del)), R_sh_ref |-> rsh, R_s |-> rs]

\* ---- least squares ----
Dot(a, b) == RSum([i \in 1..Len(a) |-> a[i] ** b[i]])
Axpy(a, k, b) == TLCEval([i \in 1..Len(a) |-> a[i] -- (k ** b[i])])
Ones(n) == [i \in 1..n |-> "1"]
Mean(a) == RSum(a) // Len(a)
\* straight line through points: <<intercept, slope>>
LineFit(x, y) ==
  LET mx == Mean(x) my == Mean(y)
      sl == RSum([i \in 1..Len(x) |-> (x[i] -- mx) ** (y[i] -- my)]) // RSum([i \in 1..Len(x) |-> (x[i] -- mx) ** (x[i] -- mx)])
  IN  <<my -- (sl ** mx), sl>>
SlopeThroughOrigin(x, y) == Dot(x, y) // Dot(x, x)
\* multiple regression by Gram-Schmidt: columns X (sequence of columns), response y
RECURSIVE Ortho(_, _, _)
Ortho(x, Z, j) == IF j > Len(Z) THEN x ELSE Ortho(Axpy(x, Dot(x, Z[j]) // Dot(Z[j], Z[j]), Z[j]), Z, j + 1)
RECURSIVE Basis(_, _, _)
Basis(X, Z, j) == IF j > Len(X) THEN Z ELSE Basis(X, Append(Z, Ortho(Ortho(X[j], Z, 1), Z, 1)), j + 1)
\* coefficient of the last column
LastCoef(X, y) == LET Z == Basis(X, <<>>, 1) z == Z[Len(Z)] IN Dot(Ortho(y, SubSeq(Z, 1, Len(Z) - 1), 1), z) // Dot(z, z)
\* coefficient of column j: move it to the end
CoefOf(X, y, j) == LastCoef([i \in 1..Len(X) |-> IF i < j THEN X[i] ELSE IF i < Len(X) THEN X[i + 1] ELSE X[j]], y)

Pick(s, I) == LET RECURSIVE P(_) P(i) == IF i > Len(s) THEN <<>> ELSE (IF i \in I THEN <<s[i]>> ELSE <<>>) \o P(i + 1) IN TLCEval(P(1))
Map2(f(_, _), a, b) == TLCEval([i \in 1..Len(a) |-> f(a[i], b[i])])

\* ---- PVsyst parameters from an IEC 61853-1 matrix ----
\* d: sequences G, T, i_sc, v_oc, i_mp, v_mp; o: options ("None" when not given)
Iec(d, o) ==
  LET n == Len(d.G)
      Gs == {i \in 1..n : RAbs(d.G[i] -- "1000") \preceq o.gtol}
      Ts == {i \in 1..n : RAbs(d.T[i] -- "25") \preceq o.ttol}
      Rel(y) == LET l == LineFit(Pick(d.T, Gs), Pick(y, Gs)) IN l[2] // (l[1] ++ ("25" ** l[2]))
      ref == CHOOSE i \in Gs \cap Ts : TRUE
      alpha == IF o.alpha_sc = "None" THEN Rel(d.i_sc) ** d.i_sc[ref] ELSE o.alpha_sc
      bmp == IF o.beta_mp = "None" THEN Rel(d.v_mp) ELSE o.beta_mp
      \* shunt resistance
      M == {i \in 1..n : o.gmin = "None" \/ (o.gmin \preceq d.G[i])}
      rest == TLCEval([i \in 1..n |-> (d.v_mp[i] // ("1" ++ (bmp ** (d.T[i] -- "25")))) // (o.coeff ** (d.i_sc[i] -- d.i_mp[i]))])
      ex == TLCEval([i \in 1..n |-> RExp(("-5.5" ** d.G[i]) // "1000")])
      rl == LineFit(Pick(ex, M), Pick(rest, M))
      rsh0 == rl[1] ++ rl[2]
      e55 == RExp("-5.5")
      rshref == (rl[1] ** ("1" -- e55)) ++ (rsh0 ** e55)
      base == RMax("0", (rshref -- (rsh0 ** e55)) // ("1" -- e55))
      Rsh(i) == base ++ ((rsh0 -- base) ** RExp(("-5.5" ** d.G[i]) // "1000"))
      rsh == TLCEval([i \in 1..n |-> Rsh(i)])
      \* series resistance
      rs == IF o.R_s = "None"
            THEN CoefOf(<<Ones(n), d.i_mp, [i \in 1..n |-> RLog(d.i_mp[i])], d.v_mp>>, d.v_oc, 2) ELSE o.R_s
      \* ideality at 25 C
      nv(i) == (KQ ** d.cells) ** Kel(d.T[i])
      x1 == TLCEval([i \in 1..n |-> nv(i) ** RLog((((d.i_sc[i] -- d.i_mp[i]) ** ("1" ++ (rs // rsh[i]))) -- (d.v_mp[i] // rsh[i])) //
                                            ((d.i_sc[i] ** ("1" ++ (rs // rsh[i]))) -- (d.v_oc[i] // rsh[i])))])
      y1 == TLCEval([i \in 1..n |-> (d.v_mp[i] ++ (d.i_mp[i] ** rs)) -- d.v_oc[i]])
      g0 == SlopeThroughOrigin(Pick(x1, Ts), Pick(y1, Ts))
      \* saturation current: geometric mean
      ioT(i) == ((Kel(d.T[i]) // "298.15") ^^ "3") ** RExp((o.EgRef // (KQ ** g0)) ** (("1" // "298.15") -- ("1" // Kel(d.T[i]))))
      lio == RSum([i \in 1..n |-> RLog(((d.i_sc[i] ** ("1" ++ (rs // rsh[i]))) -- (d.v_oc[i] // rsh[i])) // RExpm1(d.v_oc[i] // (g0 ** nv(i)))) -- RLog(ioT(i))]) // n
      io == RExp(lio)
      \* photocurrent
      gk == TLCEval([i \in 1..n |-> d.G[i] // "1000"])
      il == SlopeThroughOrigin(gk, [i \in 1..n |->
              ((d.i_sc[i] ++ ((io ** ioT(i)) ** RExpm1((d.i_sc[i] ** rs) // (g0 ** nv(i))))) ++ ((d.i_sc[i] ** rs) // rsh[i]))
              -- ((gk[i] ** alpha) ** (d.T[i] -- "25"))])
      \* ideality and its temperature coefficient
      IL(i) == gk[i] ** (il ++ (alpha ** (d.T[i] -- "25")))
      ge == TLCEval([i \in 1..n |->
              LET u == d.v_mp[i] ++ (d.i_mp[i] ** rs)
              IN  (((o.EgRef // KQ) ** (("1" // "298.15") -- ("1" // Kel(d.T[i])))) ++ (u // nv(i)))
                  // (RLog(((IL(i) -- d.i_mp[i]) -- (u // rsh[i])) // io) -- ("3" ** RLog(Kel(d.T[i]) // "298.15")))])
      gl == LineFit([i \in 1..n |-> d.T[i] -- "25"], ge)
  IN  TLCEval([alpha_sc |-> alpha, gamma_ref |-> gl[1], mu_gamma |-> gl[2], I_L_ref |-> il, I_o_ref |-> io, R_sh_ref |-> rshref, R_sh_0 |-> rsh0,
       R_sh_exp |-> "5.5", R_s |-> rs, cells_in_series |-> d.cells, EgRef |-> o.EgRef])

\* ---- curve preparation ----
\* first quadrant, sorted by voltage, equal voltages averaged
Rectified(v, i) ==
  LET ok == {k \in 1..Len(v) : ~IsNaN(v[k]) /\ ~IsNaN(i[k]) /\ ("0" \preceq v[k]) /\ ("0" \preceq i[k])}
      RECURSIVE Build(_, _)
      Build(left, acc) ==
        IF left = {} THEN acc
        ELSE LET m == CHOOSE k \in left : \A j \in left : v[k] \preceq v[j]
                 same == {k \in left : v[k] \doteq v[m]}
             IN  Build(left \ same, Append(acc, <<v[m], RSum(Pick(i, same)) // Len(Pick(i, same))>>))
  IN  TLCEval(Build(ok, <<>>))

\* ASTM E1036 end points: the nearest point if near enough, else a line through the nearest three
Nearest(s, cand) == CHOOSE k \in cand : \A j \in cand : (RAbs(s[k]) \preceq RAbs(s[j])) /\ (RAbs(s[k]) \doteq RAbs(s[j]) => k <= j)
RECURSIVE NearestN(_, _, _)
NearestN(s, cand, n) == IF n = 0 THEN {} ELSE LET k == Nearest(s, cand) IN {k} \cup NearestN(s, cand \ {k}, n - 1)
AstmEnds(v, i, nv, ni) ==
  LET all == 1..Len(v)
      ko == Nearest(i, all)
      ks == Nearest(v, all)
      O == NearestN(i, all, nv)
      S == NearestN(v, all, ni)
  IN  [voc |-> IF RAbs(i[ko]) \preceq (i[ks] ** "0.001") THEN v[ko] ELSE LineFit(Pick(i, O), Pick(v, O))[1],
       isc |-> IF RAbs(v[ks]) \preceq (v[ko] ** "0.005") THEN i[ks] ELSE LineFit(Pick(v, S), Pick(i, S))[1]]
=============================================================================
