------------------------------- MODULE SharedMC ------------------------------
(* Calls into the library and callers that overwrite what they were given.
   Each operation hands out either a value of its own or a view of a cell the
   library keeps.  Promise: the value of a call depends on its arguments only.
   The model decides which operations may keep cells (none), and shows that the
   histories it emits expose every operation that does.                        *)
EXTENDS Naturals, Sequences, FiniteSets, IOUtils, TLC, R64
CONSTANTS Ops, MaxLen
VARIABLES keeps, cell, res, hist
\* res[i] = [op, spoilt, shared]; cell[o] = TRUE while intact
Init == keeps \in SUBSET Ops /\ cell = [o \in Ops |-> TRUE] /\ res = <<>> /\ hist = <<>>
Call(o) == /\ hist' = Append(hist, [a |-> "call", op |-> o, i |-> 0, good |-> (o \notin keeps \/ cell[o])])
           /\ res' = Append(res, [op |-> o, spoilt |-> FALSE])
           /\ UNCHANGED <<keeps, cell>>
Poke(i) == /\ ~res[i].spoilt
           /\ hist' = Append(hist, [a |-> "poke", op |-> res[i].op, i |-> i, good |-> TRUE])
           /\ res' = [res EXCEPT ![i].spoilt = TRUE]
           /\ cell' = IF res[i].op \in keeps THEN [cell EXCEPT ![res[i].op] = FALSE] ELSE cell
           /\ UNCHANGED keeps
Next == Len(hist) < MaxLen /\ ((\E o \in Ops : Call(o)) \/ (\E i \in 1..Len(res) : Poke(i)))
Pure == \A k \in 1..Len(hist) : hist[k].good
\* an owner of its values answers every call alike
OwnersArePure == keeps = {} => Pure
\* an operation that keeps a cell is exposed by calling, overwriting and calling again
Exposing(h) == \E i, j, k \in 1..Len(h) : i < j /\ j < k /\ h[j].a = "poke" /\ h[j].op = h[k].op /\ h[k].a = "call"
Exposed == Exposing(hist) => (\E k \in 1..Len(hist) : hist[k].a = "poke" /\ hist[k].op \in keeps /\ \E j \in (k + 1)..Len(hist) : hist[j].op = hist[k].op /\ hist[j].a = "call") = ~Pure
LeakNeedsHistory == ~Pure => Exposing(hist)
Emit == ~(keeps = {} /\ Len(hist) = MaxLen /\ hist[MaxLen].a = "call" /\ \E k \in 1..MaxLen : hist[k].a = "poke")
        \/ VEmit(IOEnv.VOUT, [k \in 1..MaxLen |-> [a |-> hist[k].a, op |-> hist[k].op, i |-> hist[k].i]])
=============================================================================
