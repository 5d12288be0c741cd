---------------------------- MODULE DispatchMC ----------------------------
EXTENDS DispatchOps, IOUtils
VARIABLES sc, done
Init == done = FALSE /\ sc = [method |-> "none"]
Forms(b, i) == {"each", "short", "long", "one"}
Next == /\ ~done /\ done' = TRUE
        /\ \E m \in DOMAIN Ops, n \in 1..3, keys \in {"all", "required", "some", "missing"}, u \in BOOLEAN :
             LET b == Ops[m] k == Len(b.per) IN
             \* at most one input has a form other than one value per array
             \E at \in 0..k, f \in {"each", "short", "long", "one"}, share \in BOOLEAN :
               /\ (at = 0) = (f = "each")
               /\ ~u => m \notin SystemLevel /\ at = 0
               /\ (share => at = 0) /\ (f = "short" => n > 1)
               /\ keys = "missing" => (at = 0 /\ ~share /\ u /\ \E i \in 1..Len(b.par) : b.par[i][4] /\ b.par[i][3] # "array")
               /\ sc' = [method |-> m, n |-> n, keys |-> keys, unwrap |-> u, bind |-> b,
                         \* share: every input that may is one value for all
                         form |-> [i \in 1..k |-> IF i = at THEN f ELSE IF share /\ b.per[i].wide THEN "one" ELSE IF n = 1 /\ share THEN "one" ELSE "each"]]
Good == done => (BadForm(sc.bind, sc.n, sc.form) = (\E i \in DOMAIN sc.form : sc.form[i] \in {"short", "long"} \/ (sc.form[i] = "one" /\ sc.n > 1 /\ ~sc.bind.per[i].wide)))
\* a method looks at each parameter once
OneSource == done => \A i, j \in 1..Len(sc.bind.par) : i # j => sc.bind.par[i][2] # sc.bind.par[j][2]
Emit == ~done \/ VEmit(IOEnv.VOUT, sc)
=============================================================================
