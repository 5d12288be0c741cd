------------------------------ MODULE LendingMC ------------------------------
(* Which sequences of loans refute a function that writes into what it was lent,
   keeps it, or answers from an earlier loan.                                  *)
EXTENDS Integers, Sequences, FiniteSets, IOUtils, TLC, R64
CONSTANT MaxLen
VARIABLES h
V == {"a", "b"}
Seqs == UNION {[1..n -> V] : n \in 1..MaxLen}
\* content of a version: 0 as lent, 1 written
\* each impostor: <<content of the versions, memory>> after one more call, and what it answers
Sat(name, s) ==
  LET step[i \in 0..Len(s)] ==
        IF i = 0 THEN [c |-> [a |-> 0, b |-> 0], mem |-> "", out |-> ""]
        ELSE LET q == step[i - 1]
                 v == s[i]
                 fresh == v \o (IF q.c[v] = 0 THEN "" ELSE "'")
             IN CASE name = "honest" -> [q EXCEPT !.out = fresh]
                  [] name = "writes" -> [q EXCEPT !.c = [q.c EXCEPT ![v] = 1], !.out = fresh]
                  [] name = "writes-second-time" -> [q EXCEPT !.c = IF q.mem = v THEN [q.c EXCEPT ![v] = 1] ELSE q.c, !.mem = v, !.out = fresh]
                  [] name = "answers-first" -> [q EXCEPT !.mem = IF q.mem = "" THEN v ELSE q.mem, !.out = IF q.mem = "" THEN v ELSE q.mem]
                  [] name = "writes-previous" -> [q EXCEPT !.c = IF q.mem \in V THEN [q.c EXCEPT ![q.mem] = 1] ELSE q.c, !.mem = v, !.out = fresh]
                  [] OTHER -> [q EXCEPT !.mem = v, !.out = IF q.mem = "" THEN fresh ELSE q.mem]
  IN step
\* what the observer demands of every call of a sequence
Good(name, s) ==
  LET f == Sat(name, s) IN
  \A i \in 1..Len(s) : /\ f[i].c[s[i]] = 0 /\ f[i - 1].c[s[i]] = 0
                       /\ f[i].out = s[i]
Impostors == {"writes", "writes-second-time", "answers-first", "writes-previous", "answers-previous"}
Init == h = <<>>
Next == Len(h) < MaxLen /\ \E v \in V : h' = Append(h, v)
Sound == h = <<>> \/ Good("honest", h)
ASSUME Refuted == \A f \in Impostors : \E s \in Seqs : ~Good(f, s)
\* one call, or the same loan twice, is not enough
ASSUME NeedsBoth == \E f \in Impostors : \A n \in 1..1 : \A s \in [1..n -> V] : Good(f, s)
ASSUME NeedsOther == \E f \in Impostors : \A s \in {<<"a", "a">>, <<"a", "a", "a">>} : Good(f, s)
Emit == Len(h) < MaxLen \/ VEmit(IOEnv.VOUT, [seq |-> h])
=============================================================================
