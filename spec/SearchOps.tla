------------------------------ MODULE SearchOps ----------------------------
(* Bounded search for the maximum of a unimodal function: a bracket that      *)
(* shrinks by the golden ratio and never loses the maximum.                   *)
EXTENDS R64, Sequences, Integers, TLC
Phi == "0.6180339887498949"
\* families of unimodal functions, q = [f |-> family, m |-> location, s |-> scale]
F(q, x) ==
  CASE q.f = "quad" -> RNeg(q.s ** ((x -- q.m) ** (x -- q.m)))
    [] q.f = "abs" -> RNeg(q.s ** RAbs(x -- q.m))
    [] q.f = "up" -> q.s ** x
    [] q.f = "down" -> RNeg(q.s ** x)
    [] q.f = "skew" -> q.s ** ((x -- q.m) -- RExp(x -- q.m))
    [] q.f = "step" -> IF x \prec q.m THEN q.s ** (x -- q.m) ELSE ("10" ** q.s) ** (q.m -- x)
\* where the maximum over [lo, hi] lies
Best(q, lo, hi) ==
  CASE q.f = "up" -> hi
    [] q.f = "down" -> lo
    [] OTHER -> RClip(q.m, lo, hi)
\* one narrowing of the bracket
Narrow(q, b) ==
  LET d == Phi ** (b.hi -- b.lo)
      v1 == b.lo ++ d
      v2 == b.hi -- d
  IN  IF F(q, v1) \succ F(q, v2) THEN [lo |-> v2, hi |-> b.hi] ELSE [lo |-> b.lo, hi |-> v1]
\* the interior points are closer together than the tolerance
Small(b, atol) == ((("2" ** Phi) -- "1") ** (b.hi -- b.lo)) \prec atol
\* narrowings needed for a bracket of width w
Steps(w, atol) == IF (w ** "0.2360679774997898") \prec atol THEN 0 ELSE RToInt(RCeil(RLog((w ** "0.2360679774997898") // atol) // RLog("1" // Phi))) + 1
\* how far a returned location may be from the maximum: half the last bracket, and the resolution of a flat top
LocTol(q, lo, hi, atol) ==
  ("2.2" ** atol) ++ (IF q.f \in {"quad", "skew"} THEN ("1e-7" ** ("1" ++ (RAbs(q.m) ++ (hi -- lo)))) ELSE "1e-12" ** (RAbs(lo) ++ RAbs(hi)))
=============================================================================
