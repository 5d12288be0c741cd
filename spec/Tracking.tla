------------------------------ MODULE Tracking ------------------------------
(* Observations of tracking.singleaxis and SingleAxisTrackerMount.           *)
EXTENDS Tracker, TLC
Lo(k) == IF k.lo = "None" THEN RNeg(k.hi) ELSE k.lo
Val(fn, a, k) ==
  LET zen == a.apparent_zenith  az == a.solar_azimuth
      w == PSZA(zen, az, k.axis_tilt, k.axis_azimuth)
      th == Rotation(zen, az, k.axis_tilt, k.axis_azimuth, k.backtrack = "yes", k.gcr, k.cross, Lo(k), k.hi)
      o == Orientation(th, k.axis_tilt, k.axis_azimuth)
      n == TrackerNormal(th, k.axis_tilt, k.axis_azimuth)
      \* sign of the rotation is arbitrary where the projected sun is straight below or exactly on the axis
      vague == RAbs(w) \succ "179.9999" \/ (LET s == Dir(zen, az) x == Dot(s, AxX(k.axis_azimuth)) z == Dot(s, AxZ(k.axis_tilt, k.axis_azimuth)) IN RSqrt((x ** x) ++ (z ** z)) \prec "1e-6")
        \/ (k.backtrack = "yes" /\ RAbs(w) \prec "1e-7" /\ k.gcr \succ "0.999")
  IN  IF IsNaN(th) THEN [tracker_theta |-> NaN, surface_tilt |-> NaN, surface_azimuth |-> NaN, aoi |-> NaN]
      ELSE IF vague THEN [az_range |-> "1"]
      ELSE o @@ [tracker_theta |-> th, aoi |-> Deg(RAcos(RClip(Dot(n, Dir(zen, az)), "-1", "1")))]
Tol(fn) == <<"1e-7", "2e-5">>
SInit(m) == "x"
\* statements about the observed numbers alone
Own(e) ==
  IF e.exc # "" \/ ~({"tracker_theta", "surface_tilt", "surface_azimuth", "aoi"} \subseteq DOMAIN e.out) THEN {}
  ELSE UNION {LET th == e.out.tracker_theta[i] a == Row(e, i) IN
       IF i > Len(e.out.tracker_theta) THEN {"rows"}
       ELSE IF IsNaN(th) THEN {}
       ELSE LET w == PSZA(a.apparent_zenith, a.solar_azimuth, e.k.axis_tilt, e.k.axis_azimuth)
                want == Wanted(a.apparent_zenith, a.solar_azimuth, e.k.axis_tilt, e.k.axis_azimuth, e.k.backtrack = "yes", e.k.gcr, e.k.cross)
            IN  Clause("beyond-limit", Lo(e.k) \preceq th /\ th \preceq e.k.hi)
                \cup Clause("aoi-not-of-reported-orientation", RClose(CosD(e.out.aoi[i]), Projection(e.out.surface_tilt[i], e.out.surface_azimuth[i], a.apparent_zenith, a.solar_azimuth), "1e-7", "1e-7"))
                \cup Clause("row-shade-left", e.k.backtrack = "yes" /\ Lo(e.k) \preceq want /\ want \preceq e.k.hi /\ CosD(w -- e.k.cross) \succ "0.001" /\ RAbs(w) \succ "1e-6"
                                => ShadedAt(th, w, e.k.gcr, e.k.cross) \prec "1e-5")
       : i \in 1..e.n}
SStep(m, st, e) == <<st, PointClauses(e, Val, Tol) \cup Own(e)>>
=============================================================================
