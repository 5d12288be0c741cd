------------------------------ MODULE Tracker ------------------------------
(* Single-axis tracker rotation (operators): sun following, backtracking to   *)
(* the edge of row-to-row shade, and mechanical limits.                       *)
EXTENDS SolarGeometry

\* rows one collector width wide, 1/gcr apart along a ground inclined by cross:
\* ratio of the row spacing to the width of a sun-facing row's shadow
Spacing(w, gcr, cross) == RAbs(CosD(w -- cross) // (gcr ** CosD(cross)))
Shades(w, gcr, cross) == Spacing(w, gcr, cross) \prec "1"
Backtracked(w, gcr, cross) == w -- (RSign(w) ** Deg(RAcos(Spacing(w, gcr, cross))))
\* rotation before the limits
Wanted(zen, az, axt, axaz, bt, gcr, cross) ==
  LET w == PSZA(zen, az, axt, axaz)
  IN  IF zen \succ "90" THEN NaN
      ELSE IF bt /\ Shades(w, gcr, cross) THEN Backtracked(w, gcr, cross) ELSE w
Rotation(zen, az, axt, axaz, bt, gcr, cross, lo, hi) == RClip(Wanted(zen, az, axt, axaz, bt, gcr, cross), lo, hi)
\* fraction of the next row in shadow when both rows have rotation th and the
\* projected sun stands at w
ShadedAt(th, w, gcr, cross) ==
  LET cd == RAbs(CosD(th -- w))
  IN  RClip("1" -- ((CosD(w -- cross) // (gcr ** CosD(cross))) // cd), "0", "1")
=============================================================================
