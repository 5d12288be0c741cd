------------------------------ MODULE ReadFile ------------------------------
(* Observed reads of weather files: rows, labels, columns, values, metadata.  *)
(* e.recs: the records printed; e.names/e.cells: the columns and texts         *)
(* printed; e.lab/e.offs/e.vals: what came back.                              *)
EXTENDS ReaderOps, ReaderTables, FiniteSets
OutName(e, j) ==
  CASE e.f = "srml" -> IF j % 2 = 1 THEN SrmlName(e.names[j], e.map) ELSE SrmlName(e.names[j - 1], e.map) \o "_flag"
    [] e.f \in {"midc", "midcraw"} -> LET h == {i \in 1..Len(e.vmap) : e.vmap[i][1] = e.names[j]} IN IF h = {} THEN e.names[j] ELSE e.vmap[CHOOSE i \in h : TRUE][2]
    [] OTHER -> IF e.map THEN Mapped(e.f, e.names[j]) ELSE e.names[j]
Same(x, v) == IF RIsNum(x) /\ RIsNum(v) THEN RClose(v, x, "1e-12", "0") ELSE STrim(x) = STrim(v)
\* printed text to value
Val(e, i, j, v) ==
  LET x == e.cells[i][j]
      n == e.names[j]
      nx == IF j < Len(e.names) THEN e.cells[i][j + 1] ELSE ""
  IN  IF Missing(e.f, n, x, nx) THEN v = "NaN"
      ELSE IF e.f = "epw" /\ n = "year" /\ e.o.year # 0 THEN REq(v, e.o.year)
      ELSE IF e.f = "cams" /\ e.o.style # "integrated" /\ n \in Integrated THEN RIsNum(v) /\ RClose(v, RDiv(x, Hours(e.o, e.recs[i])), "1e-12", "0")
      ELSE Same(x, v)
Sgn(h) == IF h \in {"N", "E"} THEN "1" ELSE "-1"
MetaOk(m) == LET x == m.v IN
  CASE m.kind = "same" -> Same(x[1], m.got)
    [] m.kind = "less" -> RIsNum(m.got) /\ RClose(m.got, RSub(x[1], x[2]), "1e-12", "1e-9")
    [] m.kind = "feet" -> RIsNum(m.got) /\ RClose(m.got, RMul(x[1], "0.3048"), "1e-12", "0")
    [] m.kind = "dms" -> RIsNum(m.got) /\ RClose(m.got, RMul(Sgn(x[1]), RAdd(x[2], RDiv(x[3], "60"))), "1e-12", "0")
File(e) ==
  IF ~e.ok THEN {e.f \o ".read-raised-" \o e.err}
  ELSE Clause(e.f \o ".one-row-per-record", Len(e.lab) = Len(e.recs))
  \cup Clause(e.f \o ".columns", {e.cols[i] : i \in 1..Len(e.cols)} = {OutName(e, j) : j \in 1..Len(e.names)} /\ Len(e.cols) = Len(e.names))
  \cup (IF Len(e.lab) # Len(e.recs) THEN {} ELSE
        Clause(e.f \o ".labels", \A i \in 1..Len(e.recs) : REq(e.lab[i], Label(e.f, e.o, e.recs, i)))
        \cup Clause(e.f \o ".zone", \A i \in 1..Len(e.recs) : IF Naive(e.f, e.o) THEN e.offs[i] = "naive" ELSE e.offs[i] # "naive" /\ REq(e.offs[i], Zone(e.f, e.tz, e.zone)))
        \cup UNION {LET n == OutName(e, j) IN IF n \notin DOMAIN e.vals THEN {} ELSE Clause(e.f \o ".values-of " \o n, \A i \in 1..Len(e.recs) : Val(e, i, j, e.vals[n][i])) : j \in 1..Len(e.names)})
  \cup UNION {Clause(e.f \o ".metadata " \o e.meta[i].key, MetaOk(e.meta[i])) : i \in 1..Len(e.meta)}
(* PAN and OND files: indented lines key=value; a line whose successor is      *)
(* indented deeper opens a group named by its key, holding its own value first.*)
Opens(L, i) == L[i + 1].d > L[i].d
Parent(L, i) == LET ps == {j \in 1..(i - 1) : L[j].d = L[i].d - 1 /\ Opens(L, j) /\ \A m \in (j + 1)..(i - 1) : L[m].d >= L[i].d}
                IN  IF ps = {} THEN 0 ELSE CHOOSE j \in ps : \A m \in ps : m <= j
RECURSIVE Path(_, _)
Path(L, i) == IF i = 0 THEN <<>> ELSE Append(Path(L, Parent(L, i)), L[i].key)
Place(L, i) == IF Opens(L, i) THEN Append(Path(L, i), L[i].key) ELSE Path(L, i)
Typed(x, g) == IF RIsNum(x) THEN g.t = (IF SContains(x, ".") THEN "float" ELSE "int") /\ RIsNum(g.v[1]) /\ REq(g.v[1], x) ELSE g.t = "str" /\ g.v[1] = x
Tree(e) ==
  IF ~e.ok THEN {"panond.read-raised-" \o e.err}
  ELSE LET N == Len(e.lines) - 1      \* the last line only closes the component
           want == {i \in 1..N : e.lines[i].parts # <<>>}
       IN  Clause("panond.keys", {Place(e.lines, i) : i \in want} = {e.got[i].path : i \in 1..Len(e.got)} /\ Len(e.got) = Cardinality(want))
           \cup UNION {LET hit == {j \in 1..Len(e.got) : e.got[j].path = Place(e.lines, i)}
                           ps == e.lines[i].parts
                       IN  IF hit = {} THEN {} ELSE LET g == e.got[CHOOSE j \in hit : TRUE].val
                           IN  Clause("panond.value", IF Len(ps) = 1 THEN Typed(ps[1], g) ELSE g.t = "list" /\ Len(g.v) = Len(ps) /\ \A m \in 1..Len(ps) : Typed(ps[m], g.v[m])) : i \in want}
=============================================================================
