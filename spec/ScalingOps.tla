----------------------------- MODULE ScalingOps ----------------------------
(* The wavelet variability model: a clear-sky index series is split into the  *)
(* differences of centred moving averages over doubling windows, each mode is *)
(* divided by the square root of the plant's variability reduction at that    *)
(* time scale, and the modes are added up again.                              *)
EXTENDS R64, Sequences, Integers, TLC

RECURSIVE Pow2(_)
Pow2(i) == IF i = 0 THEN 1 ELSE 2 * Pow2(i - 1)

\* time scales dt, 2 dt, 4 dt ... not above 4096 s
RECURSIVE Scales(_)
Scales(dt) == IF dt \succ "4096" THEN <<>> ELSE <<dt>> \o Scales("2" ** dt)
NLevels(dt) == Len(Scales(dt))

\* the series mirrored at both ends: positions 1..3n, the original at n+1..2n
Padded(x) == LET n == Len(x)
                 rev == [i \in 1..n |-> x[n + 1 - i]]
             IN  rev \o x \o rev
RECURSIVE Sums(_, _, _)
Sums(p, i, acc) == IF i > Len(p) THEN acc ELSE Sums(p, i + 1, Append(acc, acc[i] ++ p[i]))
Prefix(x) == Sums(Padded(x), 1, <<"0">>)

Lower(i) == IF i < 1 THEN 1 ELSE i
Upper(i, m) == IF i > m THEN m ELSE i
\* moving average of window 2^lev around each original sample (the window reaches
\* one sample further ahead than back), clipped to the mirrored series
Average(x, pre, lev, k) ==
  IF lev = 0 THEN x[k]
  ELSE LET n == Len(x)
           w == Pow2(lev)
           lo == Lower(n + k - w \div 2 + 1)
           hi == Upper(n + k + w \div 2, 3 * n)
       IN  (pre[hi + 1] -- pre[lo]) // (hi - lo + 1)

\* modes: successive differences of the averages; the last keeps the lowest average
Wavelet(x, dt) ==
  LET nl == NLevels(dt)
      pre == TLCEval(Prefix(x))
      av == TLCEval([l \in 0..nl - 1 |-> [k \in 1..Len(x) |-> Average(x, pre, l, k)]])
  IN  TLCEval([l \in 1..nl |-> [k \in 1..Len(x) |-> IF l = nl THEN av[l - 1][k] ELSE av[l - 1][k] -- av[l][k]]])

\* correlation of two sites at a time scale
Dist(a, b) == RSqrt(((a[1] -- b[1]) ** (a[1] -- b[1])) ++ ((a[2] -- b[2]) ** (a[2] -- b[2])))
Rho(d, speed, t) == RExp(RNeg((d // (speed // "2")) // t))
RECURSIVE RhoSum(_, _, _, _, _)
RhoSum(pos, i, j, speed, t) ==
  IF i > Len(pos) THEN "0"
  ELSE IF j > Len(pos) THEN RhoSum(pos, i + 1, 1, speed, t)
  ELSE Rho(Dist(pos[i], pos[j]), speed, t) ++ RhoSum(pos, i, j + 1, speed, t)
\* variability reduction: (number of sites)^2 over the sum of all correlations
VR(pos, speed, t) == (Len(pos) * Len(pos)) // RhoSum(pos, 1, 1, speed, t)
Factor(pos, speed, t) == "1" // RSqrt(VR(pos, speed, t))
Factors(pos, speed, sc) == TLCEval([l \in 1..Len(sc) |-> IF l = Len(sc) THEN "1" ELSE Factor(pos, speed, sc[l])])

RECURSIVE Weighted(_, _, _, _)
Weighted(w, f, k, l) == IF l = 0 THEN "0" ELSE Weighted(w, f, k, l - 1) ++ (w[l][k] ** f[l])
Smooth(x, pos, speed, dt) ==
  LET w == Wavelet(x, dt)
      f == Factors(pos, speed, Scales(dt))
  IN  TLCEval([k \in 1..Len(x) |-> Weighted(w, f, k, Len(w))])

\* local east/north metres of (latitude, longitude) pairs
REarth == "6371008.7714"
MeanLat(c) == RSum([i \in 1..Len(c) |-> c[i][1]]) // Len(c)
ToXY(c) == LET m == MeanLat(c)
           IN  [i \in 1..Len(c) |-> <<(REarth ** CosD(m)) ** Rad(c[i][2]), REarth ** Rad(c[i][1])>>]
=============================================================================
