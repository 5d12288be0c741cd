----------------------------- MODULE Deprecation -----------------------------
(* Deprecation wrappers: what a call through a wrapper warns, raises and        *)
(* passes on.  A function is described by sig = [names, req, varkw, ret]: the   *)
(* parameter names in order, how many of them have no default, whether other    *)
(* keywords are taken.  A call is [pos: sequence of values, kw: record].        *)
EXTENDS R64, Sequences, Integers, FiniteSets, TLC

NoKw == [none |-> "none"]
Kw(call) == IF call.kw = NoKw THEN <<>> ELSE call.kw
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* what the function itself does with arguments: bound parameters, or TypeError
Bind(sig, pos, kw) ==
  LET n == Len(pos)
      N == DOMAIN sig.names
      name(i) == sig.names[i]
      dup == \E i \in N : i <= n /\ name(i) \in DOMAIN kw
      unknown == {k \in DOMAIN kw : \A i \in N : name(i) # k}
      missing == \E i \in N : i > n /\ i <= sig.req /\ name(i) \notin DOMAIN kw
      val(i) == IF i <= n THEN pos[i] ELSE IF name(i) \in DOMAIN kw THEN kw[name(i)] ELSE "default"
  IN  IF n > Len(sig.names) \/ dup \/ missing \/ (unknown # {} /\ ~sig.varkw) THEN [exc |-> "TypeError", got |-> <<>>, extra |-> <<>>]
      ELSE [exc |-> "", got |-> [i \in N |-> val(i)], extra |-> [k \in unknown |-> kw[k]]]

\* layers of wrappers, outermost first:
\*   [kind |-> "renamed", old, new, since, removal] or [kind |-> "deprecated", ...]
Text(l) ==
  IF l.kind = "renamed"
  THEN <<"'" \o l.old \o "'", "'" \o l.new \o "'", l.since, IF l.removal = "" THEN "soon" ELSE "in " \o l.removal>>
  ELSE IF l.message # "" THEN <<l.message>>
  ELSE <<l.name>> \o (IF l.pending THEN <<"will be deprecated in a future version">>
                      ELSE <<l.since>> \o (CASE l.removal = "None" -> <<>> [] l.removal = "" -> <<"removed soon">> [] OTHER -> <<"removed in " \o l.removal>>))
       \o (IF l.alternative = "" THEN <<>> ELSE <<"Use " \o l.alternative \o " instead">>)
       \o (IF l.addendum = "" THEN <<>> ELSE <<l.addendum>>)
NotText(l) == IF l.kind = "renamed" THEN {} ELSE
              (IF l.alternative = "" /\ l.message = "" THEN {"instead"} ELSE {})
              \cup (IF l.message = "" /\ (l.pending \/ l.removal = "None") THEN {"removed"} ELSE {})
Category(l) == IF l.kind = "deprecated" /\ l.pending THEN "PendingDeprecationWarning" ELSE "pvlibDeprecationWarning"

RECURSIVE Through(_, _, _, _, _)
\* strict: warnings are errors (the first one stops the call)
Through(ls, sig, pos, kw, strict) ==
  IF ls = <<>> THEN [warns |-> <<>>] @@ Bind(sig, pos, kw)
  ELSE LET l == Head(ls)
           rest(k) == Through(Tail(ls), sig, pos, k, strict)
           warned(k) == IF strict THEN [warns |-> <<l>>, exc |-> Category(l), got |-> <<>>, extra |-> <<>>]
                        ELSE LET r == rest(k) IN [r EXCEPT !.warns = <<l>> \o @]
       IN  IF l.kind = "deprecated" THEN warned(kw)
           ELSE IF l.old \notin DOMAIN kw THEN rest(kw)
           ELSE IF l.new \in DOMAIN kw THEN [warns |-> <<>>, exc |-> "ValueError", got |-> <<>>, extra |-> <<>>]
           ELSE warned(Without(kw, l.old) @@ (l.new :> kw[l.old]))

\* decorating is refused for a pending deprecation with a planned removal
Refused(ls) == \E i \in DOMAIN ls : ls[i].kind = "deprecated" /\ ls[i].pending /\ ls[i].removal # "" /\ ls[i].removal # "None"

\* ------------------------------------------------ observations
CallClauses(ls, sig, x, strict) ==
  LET t == TLCEval(Through(ls, sig, x.pos, Kw(x), strict))
      W == x.warns
  IN  Clause("exception", x.exc = t.exc)
      \cup Clause("warned-on-each-use", Len(W) = (IF strict THEN 0 ELSE Len(t.warns)))
      \cup Clause("category", strict \/ \A i \in DOMAIN W : i > Len(t.warns) \/ W[i].cat = Category(t.warns[i]))
      \cup Clause("message", strict \/ \A i \in DOMAIN W : i > Len(t.warns) \/
              ((\A j \in DOMAIN Text(t.warns[i]) : SContains(W[i].msg, Text(t.warns[i])[j]))
               /\ \A s \in NotText(t.warns[i]) : ~SContains(W[i].msg, s)))
      \cup Clause("points-at-caller", strict \/ Len(ls) > 1 \/ \A i \in DOMAIN W : i > 1 \/ W[i].here)
      \cup Clause("arguments", x.exc # "" \/ t.exc # "" \/ (x.got = t.got /\ x.extra = (IF t.extra = <<>> THEN NoKw ELSE t.extra)))
      \cup Clause("called", x.ncalls = (IF t.exc = "" THEN 1 ELSE 0))
      \cup Clause("returns", x.exc # "" \/ x.returned)
SeqClauses(e) ==
  IF Refused(e.layers) THEN Clause("decorator.accepted", e.decorexc = "ValueError")
  ELSE IF e.decorexc # "" THEN {"decorator.raised-" \o e.decorexc}
  ELSE UNION {{"call." \o k \o "@" \o SOfInt(i) : k \in CallClauses(e.layers, e.sig, e.calls[i], e.strict)} : i \in DOMAIN e.calls}
       \cup Clause("wrapper.name", e.name = "target")
       \cup Clause("wrapper.doc", IF \E i \in DOMAIN e.layers : e.layers[i].kind = "deprecated"
                                  THEN SContains(e.doc, "deprecated::") /\ SContains(e.doc, "the doc") ELSE e.doc = "the doc")
       \cup Clause("wrapper.identity", e.identity)

\* the library's own deprecated entry points: old and new spelling
PairClauses(e) ==
     Clause(e.name \o ".old-warns", e.old.nwarn >= 1)
  \cup Clause(e.name \o ".old-warns-once", e.many \/ e.old.nwarn = 1)
  \cup Clause(e.name \o ".old-warns-again", e.again.nwarn = e.old.nwarn)
  \cup Clause(e.name \o ".new-warns", e.new.nwarn = 0)
  \cup Clause(e.name \o ".same-exception", e.old.exc = e.new.exc)
  \cup Clause(e.name \o ".same-columns", DOMAIN e.old.out = DOMAIN e.new.out)
  \cup Clause(e.name \o ".same-result", DOMAIN e.old.out # DOMAIN e.new.out \/
           \A k \in DOMAIN e.new.out : e.old.out[k] = e.new.out[k])
  \cup Clause(e.name \o ".works", e.mayfail \/ e.new.exc = "")
  \cup Clause(e.name \o ".both", e.both = "" \/ e.both = e.bothexc)
\* current spellings stay silent
QuietClauses(e) == Clause(e.name \o ".silent", e.nwarn = 0) \cup Clause(e.name \o ".works", e.exc = "")

Clauses(e) == CASE e.kind = "seq" -> SeqClauses(e) [] e.kind = "pair" -> PairClauses(e) [] e.kind = "quiet" -> QuietClauses(e)
SInit(meta) == 0
SStep(meta, st, e) == <<st, Clauses(e)>>
=============================================================================
