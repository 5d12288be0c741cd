-------------------------------- MODULE R64 --------------------------------
(***************************************************************************)
(* IEEE-754 double arithmetic on numbers written as strings ("0.5", "NaN", *)
(* "Infinity") or TLA+ integers.  The Java class vr.R64 overrides every     *)
(* operator; the definitions here only fix the arity.                       *)
(***************************************************************************)
RNum(a) == CHOOSE x \in {a} : TRUE
RIsNum(a) == CHOOSE x \in BOOLEAN : TRUE
RAdd(a, b) == a
RSub(a, b) == a
RMul(a, b) == a
RDiv(a, b) == a
RPow(a, b) == a
RMod(a, b) == a
RNeg(a) == a
RAbs(a) == a
RSqrt(a) == a
RExp(a) == a
RExpm1(a) == a
RLog(a) == a
RLog10(a) == a
RSin(a) == a
RCos(a) == a
RTan(a) == a
RAsin(a) == a
RAcos(a) == a
RAtan(a) == a
RAtan2(y, x) == y
RFloor(a) == a
RCeil(a) == a
RRint(a) == a
RSign(a) == a
RMax(a, b) == a
RMin(a, b) == a
RFmax(a, b) == a
RFmin(a, b) == a
RLambertW(a) == a
RErf(a) == a
RLt(a, b) == a = b
RLe(a, b) == a = b
REq(a, b) == a = b
RIsNaN(a) == a = a
RIsFinite(a) == a = a
RClose(a, b, rtol, atol) == a = b
RSeqClose(a, b, rtol, atol) == a = b
RSum(s) == s
RToInt(a) == a
SOfInt(a) == a
SPad(a, w) == a
SLower(a) == a
STrim(a) == a
SFix(a, k) == a
SStarts(a, p) == a = p
SContains(a, p) == a = p
SReplace(a, p, q) == a
SSub(a, i, j) == a
VEmit(file, v) == TRUE

a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
a ^^ b == RPow(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b == RLt(b, a)
a \succeq b == RLe(b, a)
a \doteq b == REq(a, b)

Pi == "3.141592653589793"
Rad(x) == RMul(x, "0.017453292519943295")
Deg(x) == RMul(x, "57.29577951308232")
CosD(x) == RCos(Rad(x))
SinD(x) == RSin(Rad(x))
TanD(x) == RTan(Rad(x))
NaN == "NaN"
Inf == "Infinity"
RClip(x, lo, hi) == RMin(RMax(x, lo), hi)
NonNeg(x) == RMax(x, "0")
IsNaN(x) == RIsNaN(x)
\* Standard comparison used by most trace clauses.
Near(a, b) == RClose(a, b, "1e-7", "1e-9")
SeqNear(a, b) == RSeqClose(a, b, "1e-7", "1e-9")
\* name the clause when the predicate fails
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
