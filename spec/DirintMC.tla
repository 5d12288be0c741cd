------------------------------ MODULE DirintMC -------------------------------
EXTENDS DirintOps, IOUtils, Integers, Sequences, FiniteSets
CONSTANTS N, Ghi
VARIABLES p, c
Zen == [noon |-> <<"20", "20", "20", "20">>, ramp |-> <<"86", "72", "57", "41">>, edge |-> <<"87.5", "90", "95", "10">>, mixed |-> <<"24.99", "25", "79.9", "80.1">>]
Use == {TRUE, FALSE}
Mk(ghi) == LET n == Len(ghi) IN
  [ghi |-> ghi, z |-> SubSeq(Zen[p.zen], 1, n), doy |-> [k \in 1..n |-> p.doy], pres |-> [k \in 1..n |-> p.pres],
   dew |-> [k \in 1..n |-> p.dew], use |-> p.use, mincos |-> "0.065", maxz |-> "87"]
Init == /\ p \in [zen : DOMAIN Zen, use : Use, dew : {"None", "-10", "12"}, doy : {"1", "190"}, pres : {"101325"}]
        /\ c = [n |-> 0]
Next == /\ c.n = 0 /\ p' = p
        /\ \E n \in 1..N : \E g \in [1..n -> Ghi] : LET s == Mk(g) IN
             c' = TLCEval([n |-> n, s |-> s, o |-> DirintOpts(s), d |-> DiscAll(s)])
Done == c.n > 0
\* no beam (or none known) where DISC has none
FollowsDisc == Done => \A k \in 1..c.n : (c.d[k].dni \doteq "0" => \A x \in c.o[k] : (x \doteq "0") \/ IsNaN(x)) /\ (IsNaN(c.d[k].dni) => c.o[k] = {NaN})
NonNegative == Done => \A k \in 1..c.n : \A x \in c.o[k] : ~(x \prec "0")
\* changing one sample changes no sample but itself and its neighbours
Local == Done => \A j \in 1..c.n : LET t == DirintOpts([c.s EXCEPT !.ghi[j] = "400"]) IN
   \A k \in 1..c.n : (IF c.s.use THEN k \notin {j - 1, j, j + 1} ELSE k # j) => t[k] = c.o[k]
\* time may run either way
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Reversible == Done => DirintOpts([c.s EXCEPT !.ghi = Rev(@), !.z = Rev(@)]) = Rev(c.o)
\* with clear sky as measured, DIRINDEX returns the clear-sky beam
IndexIdentity == Done => \A k \in 1..c.n : \A x \in c.o[k] : x \succ "0" => RClose(Index("850", x, x), "850", "1e-12", "0")
Emit == ~Done \/ VEmit(IOEnv.VOUT, c.s)
=============================================================================
