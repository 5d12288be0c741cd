------------------------------- MODULE SnowMC ------------------------------
EXTENDS Snow, IOUtils, FiniteSets
CONSTANT N
VARIABLES h, cov
\* snowfall (cm), irradiance, air temperature, depth (cm)
Alpha == { <<"0", "0", "-5", "5">>, <<"0", "800", "5", "5">>, <<"3", "0", "-5", "5">>, <<"3", "0", "-5", "0.5">>,
           <<"0.9", "800", "-9", "5">>, <<"0", "800", "-11", "1">>, <<"0", "400", "2", "0">> }
M == [kind |-> "snow", regular |-> TRUE, threshold_snowfall |-> "1", threshold_depth |-> "1", can_slide |-> "-80", slide |-> "0.197", initial |-> "0.4"]
Ev(x) == [snowfall |-> x[1], poa |-> x[2], temp_air |-> x[3], depth |-> x[4], hours |-> "1", tilt |-> "40"]
Init == h = <<>> /\ cov = M.initial
Next == Len(h) < N /\ \E x \in Alpha : h' = Append(h, x) /\ cov' = Cover(M, h = <<>>, cov, Ev(x))
InRange == RLe("0", cov) /\ RLe(cov, "1")
Last == h[Len(h)]
\* coverage rises only by a covering snowfall, and vanishes when the ground is bare
RiseOnlyBySnow == [][cov' \succ cov => Covers(M, h = <<>>, Ev(h'[Len(h')]))]_<<h, cov>>
BareGround == Len(h) > 0 /\ Melts(M, Ev(Last)) => cov \doteq "0"
StaysWhenCold == [][(~CanSlide(M, Ev(h'[Len(h')])) /\ ~Melts(M, Ev(h'[Len(h')])) /\ ~Covers(M, h = <<>>, Ev(h'[Len(h')]))) => cov' \doteq cov]_<<h, cov>>
Emit == Len(h) = N => VEmit(IOEnv.VOUT, [h |-> h])
=============================================================================
