---------------------------- MODULE DeprecationMC ----------------------------
EXTENDS Deprecation, IOUtils
VARIABLES w, calls
R1 == [kind |-> "renamed", old |-> "old", new |-> "new", since |-> "1.4.0", removal |-> ""]
R1r == [R1 EXCEPT !.removal = "1.6.0"]
R2 == [kind |-> "renamed", old |-> "older", new |-> "old", since |-> "1.2.0", removal |-> "1.5"]
R3 == [kind |-> "renamed", old |-> "was", new |-> "other", since |-> "1.3", removal |-> ""]
D(rem, pend, alt, add, msg) == [kind |-> "deprecated", since |-> "2.1", removal |-> rem, pending |-> pend, alternative |-> alt, addendum |-> add, message |-> msg, name |-> "the.name"]
Layers == {<<R1>>, <<R1r>>, <<R2, R1>>, <<R3, R1>>, <<R1, R3>>,
           <<D("", FALSE, "", "", "")>>, <<D("9.9", FALSE, "mod.newer", "", "")>>, <<D("None", FALSE, "mod.newer", "See also.", "")>>,
           <<D("", TRUE, "x", "", "")>>, <<D("9.9", TRUE, "", "", "")>>, <<D("None", TRUE, "", "More.", "")>>, <<D("", FALSE, "a", "b", "custom text")>>,
           <<D("", FALSE, "", "", ""), R1>>}
Sigs == {[names |-> <<"new", "other">>, req |-> 1, varkw |-> FALSE],
         [names |-> <<"first", "new", "other">>, req |-> 1, varkw |-> FALSE],
         [names |-> <<"new">>, req |-> 0, varkw |-> TRUE]}
Where == {"function", "method", "static", "class", "classmethod"}
Vals == <<"p1", "p2", "p3">>
KwVals == ("old" :> "None") @@ ("new" :> "n") @@ ("other" :> "o") @@ ("older" :> "0") @@ ("was" :> "w") @@ ("bogus" :> "b")
Kws == {NoKw} \cup {[k \in S |-> KwVals[k]] : S \in {T \in SUBSET {"old", "new", "other", "older", "was", "bogus"} : T # {} /\ Cardinality(T) <= 3}}
Calls == [pos : {SubSeq(Vals, 1, n) : n \in 0..3}, kw : Kws]
Init == w \in [layers : Layers, sig : Sigs, where : Where, strict : BOOLEAN] /\ calls = <<>>
\* wrapping as a classmethod and as a class only applies to "deprecated"
Applies == (w.where \in {"class", "classmethod"} => (Len(w.layers) = 1 /\ w.layers[1].kind = "deprecated"))
Next == /\ Applies
        /\ calls = <<>>
        /\ \E z \in Calls : calls' = <<z>> /\ w' = w
Done == Len(calls) = 1
x == calls[1]
T(strict) == Through(w.layers, w.sig, x.pos, Kw(x), strict)
Old(kw) == \E i \in DOMAIN w.layers : w.layers[i].kind = "renamed" /\ w.layers[i].old \in DOMAIN kw
\* the new form never warns; the old form does or is refused
NewSilent == Done /\ ~Old(Kw(x)) /\ (\A i \in DOMAIN w.layers : w.layers[i].kind = "renamed") => T(FALSE).warns = <<>>
OldSpeaks == Done /\ Old(Kw(x)) => T(FALSE).exc # "" \/ T(FALSE).warns # <<>>
BothRefused == Done /\ Len(w.layers) = 1 /\ w.layers[1].kind = "renamed" /\ {"old", "new"} \subseteq DOMAIN Kw(x) => T(FALSE).exc = "ValueError"
\* the old spelling is passed on exactly as the new one
SameAsNew == Done /\ w.layers = <<R1>> /\ "old" \in DOMAIN Kw(x) /\ "new" \notin DOMAIN Kw(x) =>
   LET n == Without(Kw(x), "old") @@ ("new" :> Kw(x)["old"])
       u == Through(w.layers, w.sig, x.pos, n, FALSE)
   IN  u.got = T(FALSE).got /\ u.exc = T(FALSE).exc /\ u.extra = T(FALSE).extra
\* a warning turned into an error stops the call before the function runs
Strict == Done => (T(FALSE).warns # <<>> => T(TRUE).exc \in {"pvlibDeprecationWarning", "PendingDeprecationWarning"})
Emit == ~Done \/ VEmit(IOEnv.VOUT, [w |-> w, call |-> x])
=============================================================================
