------------------------------ MODULE ScalingMC ----------------------------
EXTENDS ScalingOps, IOUtils, FiniteSets
CONSTANT N
VARIABLES p, c
Vals == {"0", "0.5", "1.25"}
Intervals == {"0.5", "1", "7", "60", "300", "1024", "3000", "4096", "5000"}
Layouts == [ one |-> <<<<"5", "3">>>>,
             coincident |-> <<<<"0", "0">>, <<"0", "0">>>>,
             two |-> <<<<"0", "0">>, <<"300", "400">>>>,
             line |-> <<<<"-200", "0">>, <<"0", "0">>, <<"1000", "0">>>>,
             square |-> <<<<"0", "0">>, <<"0", "600">>, <<"600", "0">>, <<"600", "600">>>> ]
Speeds == {"1", "10", "25"}
Grow(pos, k) == [i \in 1..Len(pos) |-> <<pos[i][1] ** k, pos[i][2] ** k>>]

Init == /\ p \in [layout : DOMAIN Layouts, speed : Speeds, dt : Intervals]
        /\ c = [fn |-> "none"]
Next == /\ c.fn = "none"
        /\ \E n \in 2..N : \E x \in [1..n -> Vals] :
              /\ x[1] # "1.25" \/ n > 2
              /\ c' = TLCEval([fn |-> "wvm", x |-> x, dt |-> p.dt, layout |-> p.layout, pos |-> Layouts[p.layout], speed |-> p.speed,
                               w |-> Wavelet(x, p.dt), f |-> Factors(Layouts[p.layout], p.speed, Scales(p.dt)),
                               y |-> IF NLevels(p.dt) = 0 THEN <<>> ELSE Smooth(x, Layouts[p.layout], p.speed, p.dt)])
        /\ p' = p
Done == c.fn = "wvm"
Valid == Done /\ Len(c.w) > 0
Ks == 1..Len(c.x)
\* the modes add up to the series
ModesSum == Valid => RSeqClose([k \in Ks |-> Weighted(c.w, [l \in 1..Len(c.w) |-> "1"], k, Len(c.w))], c.x, "1e-12", "1e-12")
\* no mode is amplified, none is damped by more than the square root of the number of sites
FactorRange == Valid => \A l \in 1..Len(c.f) : c.f[l] \preceq ("1" ++ "1e-12") /\ (c.f[l] \succeq (("1" // RSqrt(Len(c.pos))) -- "1e-12"))
PointPlant == Valid /\ c.layout \in {"one", "coincident"} => RSeqClose(c.y, c.x, "1e-12", "1e-12")
\* a larger plant, a slower cloud and a shorter time scale are smoothed at least as much
Monotone == Valid =>
  LET big == Factors(Grow(c.pos, "2"), c.speed, Scales(c.dt))
      slow == Factors(c.pos, c.speed // "2", Scales(c.dt))
  IN  \A l \in 1..Len(c.f) : (big[l] \preceq (c.f[l] ++ "1e-12")) /\ (slow[l] \preceq (c.f[l] ++ "1e-12"))
      /\ (l + 1 < Len(c.f) => c.f[l] \preceq (c.f[l + 1] ++ "1e-12"))
\* a constant series passes unchanged, a shifted and scaled series shifts and scales
ConstantKept == Valid /\ Cardinality({c.x[k] : k \in Ks}) = 1 => RSeqClose(c.y, c.x, "1e-12", "1e-12")
Affine == Valid /\ Len(c.x) = 2 =>
  RSeqClose(Smooth([k \in Ks |-> ("2" ** c.x[k]) ++ "0.25"], c.pos, c.speed, c.dt), [k \in Ks |-> ("2" ** c.y[k]) ++ "0.25"], "1e-12", "1e-12")
\* scales run from dt by doubling to between 2048 and 4096 s
ScaleRange == Valid => LET s == Scales(c.dt) IN s[1] = c.dt /\ (s[Len(s)] \succ "2048") /\ (s[Len(s)] \preceq "4096")
\* local coordinates agree with great-circle distances over short ranges
Haversine(a, b) ==
  LET dl == SinD((a[1] -- b[1]) // "2")
      dn == SinD((a[2] -- b[2]) // "2")
  IN  ("2" ** REarth) ** RAsin(RSqrt((dl ** dl) ++ ((CosD(a[1]) ** CosD(b[1])) ** (dn ** dn))))
Geo == \A lat \in {"-60", "-30", "0", "21.3", "55"} : \A lon \in {"-158", "0", "120"} :
  LET a == <<<<lat, lon>>, <<lat ++ "0.01", lon ++ "0.02">>>>
      xy == ToXY(a)
  IN  RClose(Dist(xy[1], xy[2]), Haversine(a[1], a[2]), "1e-3", "0")
GeoOK == (~Done /\ p.layout = "one") => Geo
Emit == ~Done \/ VEmit(IOEnv.VOUT, [x |-> c.x, dt |-> c.dt, pos |-> c.pos, speed |-> c.speed])
=============================================================================
