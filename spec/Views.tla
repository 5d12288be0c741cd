-------------------------------- MODULE Views --------------------------------
(* Two-dimensional geometry of parallel rows: shadows, visible intervals and  *)
(* view factors, written from rays and angles rather than from closed forms.  *)
(* Row k has its centre at (k*p, h) and width W = gcr*p; a positive rotation  *)
(* raises the right edge, so its front faces up and to the left.              *)
EXTENDS SkyDiffuse, Integers, TLC

\* ----- one facing row (distances in units of the row width; pitch 1/gcr) ---
\* angle above the horizon of the facing row's top edge, from position x on the slant
MaskAngle(b, g, x) == Deg(RAtan2((g ** ("1" -- x)) ** SinD(b), "1" -- ((g ** ("1" -- x)) ** CosD(b))))
\* angle below the horizon of the facing row's lower edge
GroundAngle(b, g, x) == Deg(RAtan2((g ** x) ** SinD(b), "1" ++ ((g ** x) ** CosD(b))))
RowSky(b, g, x) == ("1" ++ CosD(RAbs(b) ++ MaskAngle(RAbs(b), g, x))) // "2"
RowGround(b, g, x) == ("1" -- CosD(RAbs(b) -- GroundAngle(RAbs(b), g, x))) // "2"
\* mean of a smooth function over [x0, x1] (two-point Gauss on n pieces)
Mean(F(_), x0, x1, n) ==
  LET w == (x1 -- x0) // n
      At(i, t) == F(x0 ++ (w ** (RNum(i) ++ t)))
  IN  RSum([j \in 1..(2 * n) |-> At((j - 1) \div 2, IF j % 2 = 1 THEN "0.21132486540518713" ELSE "0.7886751345948129")]) // (2 * n)
RowSkyMean(b, g, x0, x1) ==
  LET u == IF b \prec "0" THEN "1" -- x1 ELSE x0
      v == IF b \prec "0" THEN "1" -- x0 ELSE x1
      F(x) == RowSky(b, g, x)
  IN  IF (x1 -- x0) \prec "1e-6" THEN RowSky(b, g, u) ELSE Mean(F, u, v, 24)
MaskMean(b, g) == LET F(x) == MaskAngle(b, g, x) IN Mean(F, "0", "1", 40)

\* ----- ground ------------------------------------------------------------------
\* fraction of the ground [g0,g1] (in pitches) lit by the beam at projected angle phi
Lit(rot, phi, g, hp, g0, g1, rows) ==   \* hp = height/pitch
  LET shadow(k) ==
        LET lx == (g ** CosD(rot)) // "2"  ly == (g ** SinD(rot)) // "2"  t == TanD(phi)
            u == (RNum(k) ++ lx) ++ ((hp ++ ly) ** t)  v == (RNum(k) -- lx) ++ ((hp -- ly) ** t)
        IN  <<RMin(u, v), RMax(u, v)>>
      over(k) == LET s == shadow(k) IN RMax("0", RMin(s[2], g1) -- RMax(s[1], g0)) // (g1 -- g0)
      dark == RSum([i \in 1..(2 * rows + 2) |-> over(i - 1 - rows)])
  IN  IF IsNaN(phi) \/ IsNaN(rot) THEN NaN ELSE IF RAbs(phi) \succ "85" THEN "0" ELSE "1" -- RClip(dark, "0", "1")

\* sky seen from the ground at x pitches, through the gaps between consecutive rows
GroundSky(rot, g, hp, x, rows) ==
  LET lx == (g ** CosD(rot)) // "2"  ly == (g ** SinD(rot)) // "2"
      Cosine(dx, dy) == dx // RSqrt((dx ** dx) ++ (dy ** dy))
      edge == TLCEval([i \in 1..(2 * rows + 2) |->     \* cosines of the directions to the two edges of row i-1-rows
                LET d == RNum(i - 1 - rows) -- x
                    u == Cosine(d ++ lx, hp ++ ly)  v == Cosine(d -- lx, hp -- ly) IN <<RMin(u, v), RMax(u, v)>>])
  IN  RSum([i \in 1..(2 * rows + 1) |-> RMax("0", edge[i + 1][1] -- edge[i][2])]) // "2"
GroundSkyMean(rot, g, hp, g0, g1, rows, n) ==
  LET F(x) == GroundSky(rot, g, hp, x, rows) IN Mean(F, g0, g1, n)

\* ground interval [k+g0, k+g1] seen from position x on the row, all k (|rot| <= 180)
RowGroundSeg(rot, g, hp, x, g0, g1, rows) ==
  LET neg == rot \prec "0"
      b == RAbs(rot)
      xx == IF neg THEN "1" -- x ELSE x
      a0 == IF neg THEN RNeg(g1) ELSE g0
      a1 == IF neg THEN RNeg(g0) ELSE g1
      c == CosD(b)  s == SinD(b)
      px == (g ** (xx -- "0.5")) ** c   py == hp ++ ((g ** (xx -- "0.5")) ** s)
      \* the plane of the row meets the ground at xr; the facing row's lower edge is e
      xr == IF s \prec "1e-12" THEN (IF b \prec "90" THEN "-1e9" ELSE "1e9") ELSE px -- ((py ** c) // s)
      ex == "-1" -- ((g ** c) // "2")   ey == hp -- ((g ** s) // "2")
      xl == IF (py -- ey) \preceq "1e-9" THEN "-1e9" ELSE px ++ ((py // (py -- ey)) ** (ex -- px))
      \* the normal of the front is (-s, c); sine of the angle from it toward the lower edge
      Sine(xg) == LET dx == xg -- px  dy == RNeg(py)
                  IN  RNeg((dx ** c) ++ (dy ** s)) // RSqrt((dx ** dx) ++ (dy ** dy))
      part(k) == IF (k ++ a1) \preceq xl \/ (k ++ a0) \succeq xr THEN "0"
                 ELSE RAbs(Sine(RMin(k ++ a1, xr)) -- Sine(RMax(k ++ a0, xl))) // "2"
      whole == a0 \doteq "0" /\ a1 \doteq "1"
      far == RMax(RNum(-rows), xl)  near == RMin(RNum(rows), xr)
  IN  IF whole THEN (IF far \prec near THEN RAbs(Sine(near) -- Sine(far)) // "2" ELSE "0")
      ELSE RSum([i \in 1..(2 * rows) |-> part(i - 1 - rows)])
RowGroundSegMean(rot, g, hp, x0, x1, g0, g1, rows, n) ==
  LET F(x) == RowGroundSeg(rot, g, hp, x, g0, g1, rows) IN Mean(F, x0, x1, n)

\* ----- beam shading of one row by the next ---------------------------------------
\* widths of the two rows seen by the sun overlap; S is the projected solar zenith.
\* "?" where the shadow is cast on the middle of the row (not an edge) or the sun is
\* below the plane of the rows.
Shaded1D(S, th2, th1, w, pitch, off, slope) ==
  LET h1 == RAbs((w ** CosD(th1 -- S)) // "2")   h2 == RAbs((w ** CosD(th2 -- S)) // "2")
      spacing == (pitch ** CosD(S -- slope)) // CosD(slope)
      d == (RSign(S) ** spacing) ++ (off ** (SinD(th1 -- S) -- SinD(th2 -- S)))
      ov == (h1 ++ h2) -- (IF S \doteq "0" THEN spacing ELSE RSign(S) ** d)
      f == RClip(ov // ("2" ** h2), "0", "1")
  IN  IF \E z \in {S, th1, th2, w, pitch, off, slope} : IsNaN(z) THEN NaN
      ELSE IF (RAbs(S -- slope) \succeq "90") \/ (h2 \prec ("1e-6" ** w)) THEN "?"
      ELSE IF (ov \succ "0") /\ (RAbs(d) \prec RAbs(h2 -- h1)) /\ (h1 \prec h2) THEN "?" ELSE f
\* part of the segment [x0,x1] that is shaded, x = 0 at the left edge
ShadedSeg(rot, phi, g, x0, x1) ==
  LET f == Shaded1D(phi, rot, rot, "1", "1" // g, "0", "0")
      lo == IF rot \prec "0" THEN "1" -- x1 ELSE x0
  IN  IF f = "?" \/ IsNaN(f) THEN f ELSE RClip((f -- lo) // (x1 -- x0), "0", "1")

Martinez(glob, dir, f, blocks, n) ==
  "1" -- (((dir ** (("1" -- f) ** ("1" -- (RCeil(blocks) // ("1" ++ n))))) ++ (glob -- dir)) // glob)
=============================================================================
