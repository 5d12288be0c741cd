----------------------------- MODULE SoilingMC -----------------------------
EXTENDS Soiling, IOUtils
CONSTANT N
VARIABLES h, k, u
Alpha == { <<"0", FALSE>>, <<"2", FALSE>>, <<"3.5", FALSE>>, <<"7", FALSE>>, <<"0", TRUE>>, <<"7", TRUE>> }
\* 12-hourly rain; daily accumulation; two days of grace
MK == [kind |-> "kimber", period |-> "86400", threshold |-> "5", grace |-> "172800", initial |-> "0.01", rate |-> "0.02", step |-> "43200", max |-> "0.03"]
MH == [kind |-> "hsu", period |-> "86400", threshold |-> "5", depo2 |-> "0.0009", depo10 |-> "0.004"]
Ev(x, i) == [t |-> i ** "43200", rain |-> x[1], wash |-> x[2], pm2_5 |-> "1e-4", pm10 |-> "3e-4", tilt |-> "20", seconds |-> "43200"]
Init == h = <<>> /\ k = SInit(MK) /\ u = SInit(MH)
Next == Len(h) < N /\ \E x \in Alpha : LET e == Ev(x, Len(h)) IN
          /\ h' = Append(h, x) /\ k' = KNext(MK, k, e) /\ u' = HNext(MH, u, e)
Bounded == RLe("0", KOut(MK, k)) /\ RLe(KOut(MK, k), MK.max) /\ RLe(HOut(u), "1")
Last == h[Len(h)]
WashCleans == Len(h) > 0 /\ Last[2] => KOut(MK, k) \doteq "0"
\* soiling falls only by rain in the window, grace or washing
Monotone == [][KOut(MK, k') \prec KOut(MK, k) /\ ~k.first => (k'.soil \doteq "0")]_<<h, k, u>>
GraceHolds == Len(h) >= 3 /\ h[Len(h)][1] = "0" /\ h[Len(h) - 2][1] = "7" => KOut(MK, k) \doteq "0"
HsuClean == Len(h) > 0 /\ Last[1] = "7" => HOut(u) \doteq "1"
Emit == Len(h) = N => VEmit(IOEnv.VOUT, [h |-> h])
=============================================================================
