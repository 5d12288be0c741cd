---------------------------- MODULE ElementwiseMC ----------------------------
(* How a caller may lay out the rows of an element-wise function: any selection
   (permutation, slice, repetition) of N rows, some positions spoilt by NaN, in
   any container.  A function that is not element-wise is refuted by the set of
   programs; an element-wise one never is.                                    *)
EXTENDS Integers, Sequences, FiniteSets, IOUtils, TLC, R64
CONSTANTS N, MaxLen, Forms
VARIABLES p, c
Row == 1..N
Missing == 0
Sels == UNION {[1..n -> Row] : n \in 1..MaxLen}
Progs(n) == {<<s, m>> : s \in [1..n -> Row], m \in SUBSET (1..n)}
Val(s, m) == [j \in 1..Len(s) |-> IF j \in m THEN Missing ELSE s[j]]

\* what the programs are for: behaviours of a function on a list of values
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Present(v) == {v[j] : j \in 1..Len(v)} \ {Missing}
Sum(v) == LET f[j \in 0..Len(v)] == IF j = 0 THEN 0 ELSE f[j - 1] + v[j] IN f[Len(v)]
Fn(name, v) ==
  LET n == Len(v) IN
  CASE name = "pointwise" -> v
    [] name = "running" -> [j \in 1..n |-> MaxOf({v[i] : i \in 1..j})]
    [] name = "centred" -> [j \in 1..n |-> v[j] + (MaxOf({v[i] : i \in 1..n}) - v[1])]
    [] name = "neighbour" -> [j \in 1..n |-> IF j > 1 /\ v[j - 1] > v[j] THEN v[j - 1] ELSE v[j]]
    [] name = "poisoned" -> [j \in 1..n |-> IF \E i \in 1..n : v[i] = Missing THEN Missing ELSE v[j]]
    [] name = "branch-on-any" -> [j \in 1..n |-> IF \E i \in 1..n : v[i] = N THEN v[j] + 1 ELSE v[j]]
    [] name = "branch-on-all" -> [j \in 1..n |-> IF \A i \in 1..n : v[i] < N THEN v[j] ELSE N]
    [] name = "first-only" -> [j \in 1..n |-> v[1]]
    [] name = "drops-missing" -> SelectSeq(v, LAMBDA x : x # Missing)
    [] name = "deduplicated" -> [j \in 1..n |-> IF \E i \in 1..(j - 1) : v[i] = v[j] THEN Missing ELSE v[j]]
    [] name = "length-branch" -> IF n > 2 THEN [j \in 1..n |-> v[j] + 1] ELSE v
    [] OTHER -> v
Impostors == {"running", "centred", "neighbour", "poisoned", "branch-on-any", "branch-on-all", "first-only", "drops-missing", "deduplicated", "length-branch"}
\* the promise, as the observer tests it
Agrees(out, s, m) == Len(out) = Len(s) /\ \A j \in 1..Len(s) : j \in m \/ out[j] = s[j]

Init == c = "" /\ p \in UNION {Progs(n) : n \in 1..MaxLen}
Next == c = "" /\ c' \in Forms /\ p' = p
Sound == Agrees(Fn("pointwise", Val(p[1], p[2])), p[1], p[2])
ASSUME Refuting == \A f \in Impostors : \E n \in 1..MaxLen : \E q \in Progs(n) : ~Agrees(Fn(f, Val(q[1], q[2])), q[1], q[2])
\* one permutation without NaN cannot refute them all: repetitions, slices and NaN are needed
ASSUME NeedsVariety == \A m \in {{}} : \E f \in Impostors : \A s \in Sels : Agrees(Fn(f, Val(s, m)), s, m)
Emit == c = "" \/ VEmit(IOEnv.VOUT, [sel |-> p[1], nan |-> [j \in 1..Len(p[1]) |-> IF j \in p[2] THEN 1 ELSE 0], form |-> c])
=============================================================================
