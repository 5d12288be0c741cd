----------------------------- MODULE TrackingMC -----------------------------
EXTENDS Tracking, IOUtils
VARIABLES p, c
Zen == {"0", "20", "60", "80", "88", "90", "90.001", "NaN"}
Az == {"90", "135", "180", "250", "270", "359"}
Axes == {<<"0", "180">>, <<"0", "0">>, <<"0", "97.3">>, <<"20", "180">>, <<"-15", "30">>}
Limits == {<<"None", "90">>, <<"None", "45">>, <<"-60", "30">>, <<"10", "50">>, <<"None", "0">>}
Gcr == {"0.2857142857142857", "0.5", "0.9"}
Crosses == {"0", "10", "-7.5"}
Init == p \in Zen \X Az \X Axes \X Limits /\ c = [fn |-> "none"]
Next == c.fn = "none" /\ p' = p /\
  \/ \E g \in Gcr, x \in Crosses : c' = [fn |-> "singleaxis", a |-> [apparent_zenith |-> p[1], solar_azimuth |-> p[2]],
        k |-> [axis_tilt |-> p[3][1], axis_azimuth |-> p[3][2], lo |-> p[4][1], hi |-> p[4][2], backtrack |-> "yes", gcr |-> g, cross |-> x]]
  \/ c' = [fn |-> "singleaxis", a |-> [apparent_zenith |-> p[1], solar_azimuth |-> p[2]],
        k |-> [axis_tilt |-> p[3][1], axis_azimuth |-> p[3][2], lo |-> p[4][1], hi |-> p[4][2], backtrack |-> "no", gcr |-> "0.4", cross |-> "0"]]
Go == c.fn # "none" /\ ~IsNaN(c.a.apparent_zenith) /\ c.a.apparent_zenith \preceq "90"
W == PSZA(c.a.apparent_zenith, c.a.solar_azimuth, c.k.axis_tilt, c.k.axis_azimuth)
Want == Wanted(c.a.apparent_zenith, c.a.solar_azimuth, c.k.axis_tilt, c.k.axis_azimuth, c.k.backtrack = "yes", c.k.gcr, c.k.cross)
Rot == RClip(Want, Lo(c.k), c.k.hi)
InLimits == Go => Lo(c.k) \preceq Rot /\ Rot \preceq c.k.hi
FollowsSun == (Go /\ c.k.backtrack = "no" /\ Lo(c.k) \preceq W /\ W \preceq c.k.hi) => Rot = W
\* the backtracked rotation is exactly at the edge of shade: none is left, and turning further toward the sun would shade
EdgeOfShade == (Go /\ c.k.backtrack = "yes" /\ CosD(W -- c.k.cross) \succ "0.001" /\ Shades(W, c.k.gcr, c.k.cross) /\ RAbs(W) \succ "1") =>
    /\ ShadedAt(Want, W, c.k.gcr, c.k.cross) \prec "1e-6"
    /\ "1e-6" \prec ShadedAt(Want ++ (RSign(W) ** "0.5"), W, c.k.gcr, c.k.cross)
Emit == c.fn = "none" \/ VEmit(IOEnv.VOUT, c)
=============================================================================
