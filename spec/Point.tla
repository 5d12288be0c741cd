------------------------------- MODULE Point -------------------------------
(* Events of functions that act element by element.  An event carries n rows *)
(* of array arguments a, scalar arguments k, and the observed columns out.   *)
EXTENDS R64, Sequences, Integers

Row(e, i) == [c \in DOMAIN e.a |-> e.a[c][i]]

\* V(fn, row, k): record of expected columns ("?" = unconstrained), or the
\* string "raise" when the call must be rejected.
PointClauses(e, V(_, _, _), Tl(_)) ==
  IF e.n = 0 THEN {}
  ELSE IF V(e.fn, Row(e, 1), e.k) = [raise |-> "raise"]
  THEN Clause(e.fn \o ".accepted", e.exc # "")
  ELSE IF e.exc # "" THEN {e.fn \o ".raised-" \o e.exc}
  ELSE LET t == Tl(e.fn)
           cols == DOMAIN V(e.fn, Row(e, 1), e.k)
           bad == {c \in cols : c \notin DOMAIN e.out}
           short == {c \in cols \ bad : Len(e.out[c]) # e.n}
       IN  IF bad \cup short # {} THEN {e.fn \o "." \o c \o ".shape" : c \in bad \cup short}
           ELSE UNION {LET v == V(e.fn, Row(e, i), e.k)
                       IN  {e.fn \o "." \o c \o "@" \o SOfInt(i) :
                             c \in {x \in DOMAIN v : v[x] # "?" /\
                                    ~RClose(e.out[x][i], v[x], t[1], t[2])}}
                       : i \in 1..e.n}
                \cup Clause(e.fn \o ".inputs-changed", e.kept)
                \cup Clause(e.fn \o ".index-or-type", e.typed)
=============================================================================
