------------------------------- MODULE IamMC -------------------------------
EXTENDS Iam, IOUtils
VARIABLE c
Aoi == {"-180", "-90", "-89.999999", "-60", "-1e-9", "0", "1e-9", "15", "30", "45", "60", "75", "80", "85",
        "88", "89", "89.9", "89.999999", "90", "90.000001", "91", "120", "179", "180", "NaN"}
Tilt == {"0", "0.01", "1", "20", "45", "89.9", "90", "90.1", "120", "160"}
B == {"0", "0.03", "0.05", "0.1", "0.3", "1"}
Ar == {"0.08", "0.14", "0.16", "0.25", "1"}
SapmB == {<<"1", "-0.002438", "3.103e-4", "-1.246e-5", "2.112e-7", "-1.359e-9">>,
          <<"1", "-5.0e-3", "7.0e-4", "-3.0e-5", "5.0e-7", "-4.0e-9">>,
          <<"0.95", "1e-3", "0", "0", "0", "0">>}
Tables == {[theta |-> <<"0", "60", "90">>, iam |-> <<"1", "0.9", "0">>],
           [theta |-> <<"0", "30", "50", "70", "85">>, iam |-> <<"0.95", "0.94", "0.9", "0.7", "0.3">>],
           [theta |-> <<"10", "80">>, iam |-> <<"1", "0.5">>]}
Init ==
  \/ \E x \in Aoi, b \in B : c = [fn |-> "ashrae", a |-> [aoi |-> x], k |-> [b |-> b]]
  \/ \E x \in Aoi, n \in {"1.1", "1.526", "1.9"}, K \in {"4", "20"}, L \in {"0", "0.002"},
        ar \in {"None", "1", "1.29", "1.526"} :
       c = [fn |-> "physical", a |-> [aoi |-> x], k |-> [n |-> n, K |-> K, L |-> L, n_ar |-> ar]]
  \/ \E x \in Aoi, ar \in Ar \cup {"0", "-0.1"} : c = [fn |-> "martin_ruiz", a |-> [aoi |-> x], k |-> [a_r |-> ar]]
  \/ \E x \in Tilt \cup {"1e-7", "1e-6", "179.99", "180", "179.9999", "NaN"}, ar \in Ar, c1 \in {"0.4244", "0.5"}, c2 \in {"None", "-0.1"} :
       c = [fn |-> "martin_ruiz_diffuse", a |-> [surface_tilt |-> x], k |-> [a_r |-> ar, c1 |-> c1, c2 |-> c2]]
  \/ \E x \in Aoi, b \in SapmB, u \in {"None", "1", "0.9"} :
       c = [fn |-> "sapm", a |-> [aoi |-> x], k |-> [B |-> b, upper |-> u]]
  \/ \E x \in Aoi : c = [fn |-> "schlick", a |-> [aoi |-> x], k |-> [none |-> 0]]
  \/ \E x \in Tilt \cup {"NaN", "1e-7", "1e-6", "1e-5", "1e-4"} : c = [fn |-> "schlick_diffuse", a |-> [surface_tilt |-> x], k |-> [none |-> 0]]
  \/ \E x \in Aoi \ {"180", "-180", "179"}, t \in Tables, nz \in BOOLEAN :
       c = [fn |-> "interp", a |-> [aoi |-> x], k |-> [theta |-> t.theta, iam |-> t.iam, normalize |-> nz]]
Next == UNCHANGED c
isDir == c.fn \in {"ashrae", "physical", "martin_ruiz", "schlick"} /\ Val(c.fn, c.a, c.k) # [raise |-> "raise"]
D(x) == Direct(c.fn, x, c.k)
OneAtNormal == isDir => RClose(D("0"), "1", "1e-9", "0")
Even == isDir => Near(D(c.a.aoi), D(RNeg(c.a.aoi)))
Bounded == isDir => ~(D(c.a.aoi) \succ "1.000000001") /\ ~(D(c.a.aoi) \prec "0")
ZeroBehind == isDir /\ Behind(c.a.aoi) => D(c.a.aoi) \doteq "0"
NaNOnly == isDir => (IsNaN(D(c.a.aoi)) <=> IsNaN(c.a.aoi))
Monotone == isDir => \A y \in Aoi : (c.a.aoi \succeq "0" /\ y \succeq c.a.aoi) => ~(D(y) \succ (D(c.a.aoi) ++ "1e-9"))
DiffuseBand == c.fn \in {"martin_ruiz_diffuse", "schlick_diffuse"} /\ (c.fn = "schlick_diffuse" \/ c.k.a_r \prec "0.5") => LET v == Val(c.fn, c.a, c.k) IN
      ~(v.sky \succ "1.001") /\ ~(v.gnd \succ "1.001") /\ ~(v.sky \prec "-1e-4") /\ ~(v.gnd \prec "-1e-4")
\* the closed-form Schlick sky factor is the isotropic average of the direct model
SchlickAverage == c.fn = "schlick_diffuse" /\ c.a.surface_tilt \preceq "90" =>
      RClose(SchlickDiffuse(c.a.surface_tilt).sky, Marion("schlick", c.k, c.a.surface_tilt, "sky", 16), "0.03", "0")
Emit == VEmit(IOEnv.VOUT, c)
=============================================================================
