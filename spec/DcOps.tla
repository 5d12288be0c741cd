-------------------------------- MODULE DcOps --------------------------------
(* DC-side models: power, diode parameters, losses, transformer.             *)
EXTENDS R64, Sequences, Integers
kB == "1.380649e-23"
qe == "1.602176634e-19"
kBeV == "8.617333262145179e-05"
KQ == kB // qe
Kel(t) == t ++ "273.15"

\* PVWatts with optional Marion low-light correction k ("None" = off)
PvwCorr(g, k, cap) == IF cap /\ "1000" \preceq g THEN "0"
  ELSE IF g \preceq "200" THEN k ** ("1" -- (("1" -- (g // "200")) ^^ "4"))
  ELSE (k ** ("1000" -- g)) // "800"
PvwDc(g, t, pdc0, gam, tref, k, cap) ==
  LET p == ((g ** "0.001") ** pdc0) ** ("1" ++ (gam ** (t -- tref)))
      c == p -- (pdc0 ** PvwCorr(g, k, cap))
  IN  IF k = "None" THEN p ELSE IF c \prec "0" THEN "0" ELSE c

\* Sandia array performance model; a voltage never is negative
\* effective irradiance of the Sandia model: spectral factor F1 on everything,
\* reflection factor F2 on the beam, fraction FD of the diffuse
SapmPoly(x, cs) == LET P[i \in 1..Len(cs)] == IF i = Len(cs) THEN cs[i] ELSE cs[i] ++ (x ** P[i + 1]) IN P[1]
SapmEe(beam, diff, am, aoi, m) ==
  LET f1 == LET v == SapmPoly(am, m.A) IN IF IsNaN(v) THEN "0" ELSE RMax(v, "0")
      f2 == IF IsNaN(aoi) THEN NaN ELSE IF aoi \prec "0" THEN "0" ELSE RMax(SapmPoly(aoi, m.B), "0")
  IN  f1 ** ((beam ** f2) ++ (m.FD ** diff))
SapmV(base, lin, ee) == IF IsNaN(ee) THEN NaN ELSE RMax("0", base ++ lin)
Sapm(G, t, m, tref, gref) ==
  LET ee == G // gref
      delta == (m.N ** KQ) ** Kel(t)
      dt == t -- tref
      lg == RLog(ee)
      cd == m.Cells_in_Series ** delta
      dark == ee \doteq "0"
      neg == ee \prec "0"
      bo == (m.Bvoco ++ (m.Mbvoc ** ("1" -- ee))) ** dt
      bm == (m.Bvmpo ++ (m.Mbvmp ** ("1" -- ee))) ** dt
      voc == IF neg THEN NaN ELSE IF dark THEN (IF IsNaN(dt) THEN NaN ELSE "0") ELSE RMax("0", (m.Voco ++ (cd ** lg)) ++ bo)
      vmp == IF neg THEN NaN ELSE IF dark THEN (IF IsNaN(dt) THEN NaN ELSE "0") ELSE RMax("0", ((m.Vmpo ++ ((m.C2 ** cd) ** lg)) ++ ((m.C3 ** m.Cells_in_Series) ** ((delta ** lg) ^^ "2"))) ++ bm)
      imp == (m.Impo ** ((m.C0 ** ee) ++ (m.C1 ** (ee ** ee)))) ** ("1" ++ (m.Aimp ** dt))
      b == [i_sc |-> (m.Isco ** ee) ** ("1" ++ (m.Aisc ** dt)), i_mp |-> imp, v_oc |-> voc, v_mp |-> vmp, p_mp |-> imp ** vmp]
      x == [i_x |-> (m.IXO ** ((m.C4 ** ee) ++ (m.C5 ** (ee ** ee)))) ** ("1" ++ (m.Aisc ** dt))]
      y == [i_xx |-> (m.IXXO ** ((m.C6 ** ee) ++ (m.C7 ** (ee ** ee)))) ** ("1" ++ (m.Aimp ** dt))]
      D == DOMAIN m
      hx == {"IXO", "C4", "C5"} \subseteq D
      hy == {"IXXO", "C6", "C7"} \subseteq D
  IN  [f \in DOMAIN b \cup (IF hx THEN {"i_x"} ELSE {}) \cup (IF hy THEN {"i_xx"} ELSE {}) |->
        IF f = "i_x" THEN x.i_x ELSE IF f = "i_xx" THEN y.i_xx ELSE b[f]]

\* Huld (PVGIS); the logarithm is taken as 0 without light
HuldK == [pvgis5 |-> [csi |-> <<"-0.017237", "-0.040465", "-0.004702", "0.000149", "0.000170", "0.000005">>,
                      cis |-> <<"-0.005554", "-0.038724", "-0.003723", "-0.000905", "-0.001256", "0.000001">>,
                      cdte |-> <<"-0.046689", "-0.072844", "-0.002262", "0.000276", "0.000159", "-0.000006">>],
          pvgis6 |-> [csi |-> <<"-0.0067560", "-0.016444", "-0.003015", "-0.000045", "-0.000043", "0">>,
                      cis |-> <<"-0.011001", "-0.029734", "-0.002887", "0.000217", "-0.000163", "0">>,
                      cdte |-> <<"-0.020644", "-0.035136", "-0.003406", "0.000073", "-0.000141", "0.000002">>]]
Huld(G, t, pdc0, k) ==
  LET g == G // "1000" d == t -- "25" l == IF "0" \prec g THEN RLog(g) ELSE "0"
  IN  g ** ((((((pdc0 ++ (k[1] ** l)) ++ (k[2] ** (l ** l))) ++ (k[3] ** d)) ++ ((k[4] ** d) ** l)) ++ ((k[5] ** d) ** (l ** l))) ++ (k[6] ** (d ** d)))
HuldKOf(ver, cell, pdc0) == [i \in 1..6 |-> HuldK[ver][cell][i] ** pdc0]

\* ADR efficiency
Ten(x) == "10" ^^ x
AdrEta(G, t, ka, kd, tcd, krs, krsh) ==
  LET s == G // "1000" so == Ten(kd ++ ((t -- "25") ** tcd))
      v == RLog((s // so) ++ "1") // RLog(("1" // Ten(kd)) ++ "1")
  IN  ka ** (((((("1" ++ krs) ++ krsh) ** v) -- (krs ** s)) -- (krsh ** (v ** v))))

\* Batzelis explicit five points from datasheet values
BatzDs(G, t, d) ==
  LET t0 == "298.15" al == d.alpha_sc // d.i_sc be == d.beta_voc // d.v_oc
      dT == t -- "25" lam == Kel(t) // t0 g == G // "1000"
      del == ("1" -- (be ** t0)) // ("50.1" -- (al ** t0))
      w == RLambertW(RExp(("1" // del) ++ "1"))
      aimp == al ++ ((be -- ("1" // t0)) // (w -- "1"))
      r == d.v_oc // d.v_mp
      bvmp == r ** ((be // ("1" ++ del)) ++ (((del ** (w -- "1")) -- ("1" // ("1" ++ del))) // t0))
      e0 == (del // ("1" ++ del)) ** r
      e1 == ((del ** (w -- "1")) ** r) -- "1"
      lg == RLog(g)
      isc == (g ** d.i_sc) ** ("1" ++ (al ** dT))
      imp == (g ** d.i_mp) ** ("1" ++ (aimp ** dT))
      vz == IF IsNaN(g) \/ IsNaN(t) THEN NaN ELSE "0"
      voc == IF "0" \prec g THEN RMax("0", d.v_oc ** (("1" ++ ((del ** lam) ** lg)) ++ (be ** dT))) ELSE vz
      vmp == IF "0" \prec g THEN RMax("0", d.v_mp ** ((("1" ++ ((e0 ** lam) ** lg)) ++ (e1 ** ("1" -- g))) ++ (bvmp ** dT))) ELSE vz
  IN  [p_mp |-> vmp ** imp, i_mp |-> imp, v_mp |-> vmp, i_sc |-> isc, v_oc |-> voc]
\* Batzelis explicit points from single-diode parameters
BatzSd(iph, io, rs, rsh, a) ==
  LET w == RLambertW(("2.718281828459045" ** iph) // io)
      imp == (iph ** ("1" -- ("1" // w))) -- ((a ** (w -- "1")) // rsh)
      vmp == (a ** (w -- "1")) -- (rs ** imp)
  IN  IF "0" \prec iph THEN [p_mp |-> imp ** vmp, i_mp |-> imp, v_mp |-> vmp, i_sc |-> iph // ((rs // rsh) ++ "1"), v_oc |-> a ** RLog(iph // io)]
      ELSE [p_mp |-> "0", i_mp |-> "0", v_mp |-> "0", i_sc |-> "0", v_oc |-> "0"]

\* single-diode parameters as functions of irradiance and temperature
DesotoPar(G, t, m) ==
  LET tr == Kel(m.temp_ref) tc == Kel(t)
      eg == m.EgRef ** ("1" ++ (m.dEgdT ** (tc -- tr)))
  IN  [IL |-> (G // m.irrad_ref) ** (m.I_L_ref ++ (m.alpha_sc ** (tc -- tr))),
       I0 |-> (m.I_o_ref ** ((tc // tr) ^^ "3")) ** RExp((m.EgRef // (kBeV ** tr)) -- (eg // (kBeV ** tc))),
       Rs |-> m.R_s, Rsh |-> m.R_sh_ref ** (m.irrad_ref // G), nNsVth |-> m.a_ref ** (tc // tr)]
CecPar(G, t, m) == DesotoPar(G, t, [m EXCEPT !.alpha_sc = @ ** ("1" -- (m.Adjust // "100"))])
PvsystPar(G, t, m) ==
  LET tr == Kel(m.temp_ref) tc == Kel(t)
      gam == m.gamma_ref ++ (m.mu_gamma ** (t -- m.temp_ref))
      e == RExp(RNeg(m.R_sh_exp))
      base == RMax("0", (m.R_sh_ref -- (m.R_sh_0 ** e)) // ("1" -- e))
  IN  [IL |-> (G // m.irrad_ref) ** (m.I_L_ref ++ (m.alpha_sc ** (tc -- tr))),
       I0 |-> (m.I_o_ref ** ((tc // tr) ^^ "3")) ** RExp((m.EgRef // (KQ ** gam)) ** (("1" // tr) -- ("1" // tc))),
       Rs |-> m.R_s, Rsh |-> base ++ ((m.R_sh_0 -- base) ** RExp(RNeg((m.R_sh_exp ** G) // m.irrad_ref))),
       nNsVth |-> ((gam ** KQ) ** m.cells_in_series) ** tc]

\* losses
RECURSIVE Keep(_, _)
Keep(s, i) == IF i > Len(s) THEN "1" ELSE ("1" -- (s[i] // "100")) ** Keep(s, i + 1)
PvwLosses(s) == ("1" -- Keep(s, 1)) ** "100"
RECURSIVE KeepF(_, _)
KeepF(s, i) == IF i > Len(s) THEN "1" ELSE ("1" -- s[i]) ** KeepF(s, i + 1)
OhmsFromPercent(v, i, pct, ms, st) == (pct // "100") ** ((ms ** v) // (st ** i))
OhmicLoss(r, i) == (r ** i) ** i
\* output power whose quadratic loss model consumes the input power
Transformer(pin, nl, ll, rate) ==
  LET x == pin // rate
      c == nl -- x
      disc == RSqrt("1" -- (("4" ** ll) ** c))
  IN  IF ll \doteq "0" THEN (x -- nl) ** rate ELSE ((RNeg("1") ++ disc) // ("2" ** ll)) ** rate
TransformerIn(pout, nl, ll, rate) == LET y == pout // rate IN (((y ++ nl) ++ (ll ** (y ** y)))) ** rate
=============================================================================
