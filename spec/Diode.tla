-------------------------------- MODULE Diode --------------------------------
(* The single-diode equation with Bishop's explicit parametrisation by the   *)
(* diode voltage, PVsyst recombination loss and Bishop's breakdown term.     *)
EXTENDS R64, Sequences, Integers
Full(q) == [Iph |-> q.Iph, I0 |-> q.I0, Rs |-> q.Rs, Rsh |-> q.Rsh, a |-> q.a,
            d2 |-> IF "d2" \in DOMAIN q THEN q.d2 ELSE "0", vbi |-> IF "vbi" \in DOMAIN q THEN q.vbi ELSE Inf,
            bf |-> IF "bf" \in DOMAIN q THEN q.bf ELSE "0", bv |-> IF "bv" \in DOMAIN q THEN q.bv ELSE "-5.5",
            be |-> IF "be" \in DOMAIN q THEN q.be ELSE "3.28"]
Gsh(q) == "1" // q.Rsh
Recomb(vd, q) == IF "0" \prec q.d2 THEN (q.Iph ** q.d2) // (q.vbi -- vd) ELSE "0"
BrkT(vd, q) == "1" -- (vd // q.bv)
Brk(vd, q) == IF q.bf \doteq "0" THEN "0" ELSE (q.bf ** vd) ** (Gsh(q) ** (BrkT(vd, q) ^^ RNeg(q.be)))
\* terminal current and voltage at diode voltage vd
DI(vd, q) == (((q.Iph -- (q.I0 ** RExpm1(vd // q.a))) -- (vd ** Gsh(q))) -- Recomb(vd, q)) -- Brk(vd, q)
DV(vd, q) == vd -- (DI(vd, q) ** q.Rs)
DP(vd, q) == DI(vd, q) ** DV(vd, q)
\* derivatives with respect to vd
BrkFctr(q) == q.bf ** Gsh(q)
Brk1(vd, q) == IF q.bf \doteq "0" THEN "0" ELSE BrkFctr(q) ** ((BrkT(vd, q) ^^ RNeg(q.be)) ++ (((vd ** q.be) // q.bv) ** (BrkT(vd, q) ^^ (RNeg(q.be) -- "1"))))
Brk2(vd, q) == IF q.bf \doteq "0" THEN "0" ELSE BrkFctr(q) ** ((q.be // q.bv) ** (("2" ** (BrkT(vd, q) ^^ (RNeg(q.be) -- "1"))) ++ (((vd ** (q.be ++ "1")) // q.bv) ** (BrkT(vd, q) ^^ (RNeg(q.be) -- "2")))))
Rec1(vd, q) == IF "0" \prec q.d2 THEN Recomb(vd, q) // (q.vbi -- vd) ELSE "0"
Rec2(vd, q) == IF "0" \prec q.d2 THEN ("2" ** Rec1(vd, q)) // (q.vbi -- vd) ELSE "0"
GDiode(vd, q) == (q.I0 ** RExp(vd // q.a)) // q.a
DI1(vd, q) == ((RNeg(GDiode(vd, q)) -- Gsh(q)) -- Rec1(vd, q)) -- Brk1(vd, q)
DI2(vd, q) == (RNeg(GDiode(vd, q) // q.a) -- Rec2(vd, q)) -- Brk2(vd, q)
DV1(vd, q) == "1" -- (DI1(vd, q) ** q.Rs)
DV2(vd, q) == RNeg(DI2(vd, q) ** q.Rs)
DIDV(vd, q) == DI1(vd, q) // DV1(vd, q)
DPDV(vd, q) == (DV(vd, q) ** DIDV(vd, q)) ++ DI(vd, q)
\* d(dP/dV)/dvd
D2P(vd, q) == ((DV1(vd, q) ** DIDV(vd, q)) ++ (DV(vd, q) ** ((DI2(vd, q) // DV1(vd, q)) -- ((DI1(vd, q) ** DV2(vd, q)) // (DV1(vd, q) ** DV1(vd, q)))))) ++ DI1(vd, q)

\* estimate of the open-circuit voltage: no shunt, no recombination
VocMax(q) == q.a ** RLog((q.Iph // q.I0) ++ "1")
Hi(q) == IF "0" \prec q.d2 /\ q.vbi \preceq VocMax(q) THEN "0.9999" ** q.vbi ELSE VocMax(q)

\* (v, i) satisfies the equation: current residual small in current or in voltage
OnCurve(v, i, q) ==
  LET vd == v ++ (i ** q.Rs)
      r == RAbs(DI(vd, q) -- i)
      s == RAbs(DI1(vd, q))
  IN  r \preceq ((("1e-7" ** q.Iph) ++ "1e-10") ++ (s ** (("2e-7" ** RAbs(vd)) ++ "1e-6")))
\* root of the decreasing DI between lo and hi
RECURSIVE Bisect(_, _, _, _)
Bisect(q, lo, hi, n) == IF n = 0 THEN (lo ++ hi) // "2"
  ELSE LET m == (lo ++ hi) // "2" IN IF "0" \prec DI(m, q) THEN Bisect(q, m, hi, n - 1) ELSE Bisect(q, lo, m, n - 1)
VocOf(q) == IF q.Iph \doteq "0" THEN "0" ELSE DV(Bisect(q, "0", Hi(q), 60), q)
\* maximum of DP between lo and hi by ternary search
RECURSIVE Peak(_, _, _, _)
Peak(q, lo, hi, n) == IF n = 0 THEN (lo ++ hi) // "2"
  ELSE LET d == (hi -- lo) // "3" m1 == lo ++ d m2 == hi -- d
       IN  IF DP(m1, q) \prec DP(m2, q) THEN Peak(q, m1, hi, n - 1) ELSE Peak(q, lo, m2, n - 1)
MaxP(q) == IF q.Iph \doteq "0" THEN "0" ELSE DP(Peak(q, "0", Hi(q), 50), q)
=============================================================================
