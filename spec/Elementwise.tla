----------------------------- MODULE Elementwise -----------------------------
(* One recorded call of an element-wise function.  e.base: per column, the value
   of each distinct row evaluated on its own; e.sel: which row each position
   holds; e.nan: positions spoilt by a NaN argument; e.out: what came back.    *)
EXTENDS R64, Integers, Sequences
Agree(o, b, tol) == (o = "NaN" /\ b = "NaN") \/ o = b \/ ((o # "NaN" /\ b # "NaN") /\ RClose(o, b, tol, "1e-9"))
SInit(m) == 0
SStep(m, st, e) ==
  <<st,
    IF e.exc # "" THEN (IF e.form # "scalar" /\ \A i \in 1..Len(e.nan) : e.nan[i] = 1 THEN {} ELSE {e.fn \o ".raised." \o e.form})
    ELSE Clause(e.fn \o ".columns", DOMAIN e.out = DOMAIN e.base)
         \cup {e.fn \o "." \o c \o ".length" : c \in {x \in DOMAIN e.out : Len(e.out[x]) # Len(e.sel)}}
         \cup {e.fn \o "." \o c \o (IF \E i \in 1..Len(e.nan) : e.nan[i] = 1 THEN ".nan-spreads" ELSE ".depends-on-others." \o e.form) :
               c \in {x \in (DOMAIN e.out) \cap (DOMAIN e.base) :
                      Len(e.out[x]) = Len(e.sel) /\ \E j \in 1..Len(e.sel) : e.nan[j] = 0 /\ ~Agree(e.out[x][j], e.base[x][e.sel[j]], m.tol)}}
         \cup Clause(e.fn \o ".inputs-changed", e.kept)
         \cup Clause(e.fn \o ".index", e.index \in {"same", "none"})
         \cup Clause(e.fn \o ".container", e.index # "none" \/ m.plain \/ ~e.series)>>
=============================================================================
