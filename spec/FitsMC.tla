------------------------------- MODULE FitsMC ------------------------------
EXTENDS FitsOps, IOUtils
CONSTANTS Cells, Ideal, VocCell, IL, Rs, Rsh, NCurve, NMatrix
VARIABLES p, c
\* physical modules
Init == /\ p \in [n : Cells, g : Ideal, vc : VocCell, IL : IL, rs : Rs, rsh : Rsh]
        /\ c = [fn |-> "none"]
A(m) == ((m.g ** KQ) ** m.n) ** "298.15"
Module(m) == LET a == A(m) IN
  [alpha_sc |-> m.IL ** "0.0005", a_ref |-> a, I_L_ref |-> m.IL, I_o_ref |-> m.IL ** RExp(RNeg((m.vc ** m.n) // a)), R_sh_ref |-> m.rsh,
   R_s |-> (m.rs ** m.n) // "60", EgRef |-> "1.121", dEgdT |-> "-0.0002677", irrad_ref |-> "1000", temp_ref |-> "25"]
PsModule(m) == LET d == Module(m) IN
  [alpha_sc |-> d.alpha_sc, gamma_ref |-> m.g, mu_gamma |-> "-0.0003", I_L_ref |-> m.IL, I_o_ref |-> d.I_o_ref, R_sh_ref |-> m.rsh, R_sh_0 |-> "4" ** m.rsh,
   R_s |-> d.R_s, cells_in_series |-> m.n, R_sh_exp |-> "5.5", EgRef |-> "1.121", irrad_ref |-> "1000", temp_ref |-> "25"]
\* IEC 61853-1 matrix
Matrix == <<<<"100", "15">>, <<"100", "25">>, <<"200", "15">>, <<"200", "25">>, <<"400", "15">>, <<"400", "25">>, <<"400", "50">>, <<"600", "15">>, <<"600", "25">>,
            <<"600", "50">>, <<"600", "75">>, <<"800", "15">>, <<"800", "25">>, <<"800", "50">>, <<"800", "75">>, <<"1000", "15">>, <<"1000", "25">>, <<"1000", "50">>,
            <<"1000", "75">>, <<"1100", "25">>, <<"1100", "50">>, <<"1100", "75">>>>
Key2(par) == KeyPts(OfPar(par))
Next == /\ c.fn = "none" /\ p' = p
        /\ \/ LET m == Module(p)
                  q == OfPar(DesotoPar("1000", "25", m))
                  q2 == OfPar([DesotoPar("1000", "27", m) EXCEPT !.Rsh = m.R_sh_ref])
                  k == KeyPts(q)
              IN  c' = TLCEval([fn |-> "curve", m |-> m, key |-> k, beta |-> (VocOf(q2) -- k.v_oc) // "2", pts |-> CurvePts(q, NCurve)])
           \/ /\ p.g \in NMatrix
              /\ LET m == PsModule(p)
                 IN  c' = TLCEval([fn |-> "matrix", m |-> m, rows |-> [j \in 1..Len(Matrix) |-> Key2(PvsystPar(Matrix[j][1], Matrix[j][2], m))]])
Is(f) == c.fn = f
TrueQ == OfPar(DesotoPar("1000", "25", c.m))
Dc == [i_sc |-> c.key.i_sc, v_oc |-> c.key.v_oc, v_mp |-> c.key.v_mp, i_mp |-> c.key.i_mp, alpha_sc |-> c.m.alpha_sc, beta_voc |-> c.beta]
\* the module's own parameters solve De Soto's equations
TrueSolves == Is("curve") => DesotoEqErr(Dc, c.m) \preceq "1e-8"
\* explicit parameters reproduce the data sheet approximately
BatzelisNear == Is("curve") => LET b == Batzelis(Dc) IN KeyErr(Dc, Q(b.I_L_ref, b.I_o_ref, b.R_s, b.R_sh_ref, b.a_ref)) \preceq "0.05"
\* the curve falls, lies on the model, and no point beats the maximum power
CurveShape == Is("curve") => \A k \in 1..Len(c.pts) :
  /\ CurveErr(c.pts[k][1], c.pts[k][2], TrueQ) \preceq "1e-8"
  /\ (c.pts[k][1] ** c.pts[k][2]) \preceq (("1" ++ "1e-9") ** (c.key.i_mp ** c.key.v_mp))
  /\ k > 1 => (c.pts[k - 1][1] \prec c.pts[k][1]) /\ (c.pts[k][2] \prec c.pts[k - 1][2])
AstmExact == Is("curve") => LET e == AstmEnds([k \in 1..Len(c.pts) |-> c.pts[k][1]], [k \in 1..Len(c.pts) |-> c.pts[k][2]], 3, 3)
                            IN  RClose(e.voc, c.key.v_oc, "1e-9", "0") /\ RClose(e.isc, c.key.i_sc, "1e-9", "0")
D == [G |-> [j \in 1..Len(Matrix) |-> Matrix[j][1]], T |-> [j \in 1..Len(Matrix) |-> Matrix[j][2]], i_sc |-> [j \in 1..Len(Matrix) |-> c.rows[j].i_sc],
      v_oc |-> [j \in 1..Len(Matrix) |-> c.rows[j].v_oc], i_mp |-> [j \in 1..Len(Matrix) |-> c.rows[j].i_mp], v_mp |-> [j \in 1..Len(Matrix) |-> c.rows[j].v_mp], cells |-> c.m.cells_in_series]
NoOpt == [alpha_sc |-> "None", beta_mp |-> "None", R_s |-> "None", coeff |-> "0.12", gmin |-> "None", gtol |-> "20", ttol |-> "1", EgRef |-> "1.121"]
\* the matrix estimate reproduces power within some percent
IecNear == Is("matrix") =>
  LET f == Iec(D, NoOpt)
      m == [PsModule(p) EXCEPT !.gamma_ref = f.gamma_ref, !.mu_gamma = f.mu_gamma, !.I_L_ref = f.I_L_ref, !.I_o_ref = f.I_o_ref, !.R_sh_ref = f.R_sh_ref,
                               !.R_sh_0 = f.R_sh_0, !.R_s = f.R_s, !.alpha_sc = f.alpha_sc]
  IN  /\ RClose(f.I_L_ref, c.m.I_L_ref, "0.01", "0") /\ RClose(f.R_s, c.m.R_s, "0.5", "0")
      /\ \A j \in 1..Len(Matrix) : LET k == Key2(PvsystPar(Matrix[j][1], Matrix[j][2], m)) IN RClose(k.v_mp ** k.i_mp, c.rows[j].v_mp ** c.rows[j].i_mp, "0.12", "0")
\* without light, or brought to a datasheet's reference, quantities scale
Emit == Is("none") \/ VEmit(IOEnv.VOUT, IF Is("curve") THEN [fn |-> "curve", m |-> c.m, key |-> c.key, beta |-> c.beta, pts |-> c.pts, n |-> p.n]
                                        ELSE [fn |-> "matrix", m |-> c.m, d |-> D])
=============================================================================
