---------------------------- MODULE ClearDetectMC ----------------------------
EXTENDS ClearDetectOps, IOUtils
CONSTANT NMax
VARIABLES p, c
\* small windows of whole numbers: every comparison is exact, limits are hit exactly
Levels == {"0", "4", "8"}
K0 == [infer |-> FALSE, window_length |-> "9", mean_diff |-> "4", max_diff |-> "4", lower_line_length |-> "-4", upper_line_length |-> "4",
       var_diff |-> "0.3", slope_dev |-> "8", max_iterations |-> 1]
Loose == [infer |-> FALSE, window_length |-> "9", mean_diff |-> "100", max_diff |-> "100", lower_line_length |-> "-100", upper_line_length |-> "100",
          var_diff |-> "100", slope_dev |-> "100", max_iterations |-> 1]
Ks == {K0, Loose, [Loose EXCEPT !.mean_diff = "4"], [Loose EXCEPT !.max_diff = "4"], [Loose EXCEPT !.upper_line_length = "2"], [Loose EXCEPT !.lower_line_length = "-2"],
       [Loose EXCEPT !.var_diff = "0.6666666666666666"], [Loose EXCEPT !.slope_dev = "4"], [Loose EXCEPT !.slope_dev = "4", !.max_iterations = 4],
       [Loose EXCEPT !.window_length = "12"], [Loose EXCEPT !.window_length = "6"], [Loose EXCEPT !.window_length = "8.9"], [Loose EXCEPT !.window_length = "15", !.mean_diff = "4"]}
Init == p = "go" /\ \E n \in 3..NMax : \E k \in Ks : c = [n |-> n, k |-> k, meas |-> <<>>, clear |-> <<>>]
Next == p = "go" /\ p' = "done" /\ \E m \in [1..c.n -> Levels] : \E s \in {[i \in 1..c.n |-> "4"], [i \in 1..c.n |-> IF i % 2 = 1 THEN "4" ELSE "8"], [i \in 1..c.n |-> IF i <= 3 THEN "0" ELSE "4"]} :
   c' = [c EXCEPT !.meas = m, !.clear = s]
Done == p = "done"
\* keep the emitted set representative: decided by the pattern of the data
Rare == LET f(v) == CASE v = "0" -> 0 [] v = "4" -> 1 [] OTHER -> 2
            h[i \in 0..c.n] == IF i = 0 THEN 0 ELSE (h[i - 1] * 3 + f(c.meas[i])) % 9973
        IN  c.n <= 4 \/ h[c.n] % (IF c.n = 5 THEN 5 ELSE 17) = 0
Dt == "3"
Ok == Done /\ Rare /\ ~Refused(c.k, c.n, Dt, TRUE)
Q == Detect(c.meas, c.clear, c.k, Dt, TRUE)
W == PerWindow(c.k, Dt)
\* a sample is flagged exactly when a full window containing it is clear
InSomeWindow == Ok => Q.on = {i \in 1..c.n : \E j \in 1..(c.n - W + 1) : j <= i /\ i < j + W /\ Q.win[j] = "yes"}
\* tightening a limit never flags more at a fixed scaling
Monotone == Ok /\ c.k.max_iterations = 1 => Q.on \subseteq Detect(c.meas, c.clear, [Loose EXCEPT !.window_length = c.k.window_length], Dt, TRUE).on
\* data identical to the model is clear wherever the model's slopes are constant and the model is not zero
Identity == Ok /\ c.meas = c.clear => \A j \in 1..(c.n - W + 1) : (\A i \in j..(j + W - 1) : c.meas[i] = "4") => Q.win[j] = "yes"
\* windows without a model value are never clear
NoModel == Ok => \A j \in 1..(c.n - W + 1) : (\A i \in j..(j + W - 1) : c.clear[i] = "0") => Q.win[j] = "no"
Emit == ~(Done /\ Rare) \/ VEmit(IOEnv.VOUT, c)
=============================================================================
