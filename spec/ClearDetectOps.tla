---------------------------- MODULE ClearDetectOps ----------------------------
(* Reno-Hansen clear-sky detection as a transition system.  The state is the   *)
(* scaling factor alpha; a step marks every full window meeting all criteria   *)
(* at alpha, then refits alpha to the marked samples; it ends when alpha is     *)
(* stable to four decimals or after the allowed number of steps.               *)
EXTENDS R64, Sequences, Integers, FiniteSets, TLC

Lerp(x, xs, ys) ==
  LET i == CHOOSE j \in 1..(Len(xs) - 1) : (xs[j] \preceq x) /\ (x \preceq xs[j + 1]) /\ (j = 1 \/ ~(x \doteq xs[j]))
  IN  ys[i] ++ ((ys[i + 1] -- ys[i]) ** ((x -- xs[i]) // (xs[i + 1] -- xs[i])))
\* Table 1 of Jordan and Hansen, by sampling interval in minutes
Steps == <<"1", "5", "15", "30">>
Table(dt) == [window_length |-> Lerp(dt, Steps, <<"50", "60", "90", "120">>), mean_diff |-> "75",
              max_diff |-> Lerp(dt, Steps, <<"60", "65", "75", "90">>),
              lower_line_length |-> "-45", upper_line_length |-> "80",
              var_diff |-> Lerp(dt, Steps, <<"0.005", "0.01", "0.032", "0.07">>),
              slope_dev |-> Lerp(dt, Steps, <<"50", "60", "75", "96">>)]
Limits(k, dt) == IF k.infer THEN Table(dt) ELSE k
PerWindow(k, dt) == RToInt(RFloor(Limits(k, dt).window_length // dt))
Refused(k, n, dt, regular) ==
  \/ ~regular \/ n < 3
  \/ k.infer /\ (dt \prec "1" \/ dt \succ "30")
  \/ PerWindow(k, dt) < 3 \/ n < PerWindow(k, dt)

Max(s) == LET F[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE RMax(F[i - 1], s[i]) IN F[Len(s)]
Mean(s) == RSum(s) // Len(s)
Diffs(s) == [i \in 1..(Len(s) - 1) |-> s[i + 1] -- s[i]]
LineLength(s, dt) == RSum([i \in 1..(Len(s) - 1) |-> RSqrt(((s[i + 1] -- s[i]) ** (s[i + 1] -- s[i])) ++ (dt ** dt))])
\* deviation of the slopes, divided by the mean level
SlopeNstd(s, dt) ==
  LET d == [i \in 1..(Len(s) - 1) |-> (s[i + 1] -- s[i]) // dt]
      m == Mean(d)
  IN  RSqrt(RSum([i \in 1..Len(d) |-> (d[i] -- m) ** (d[i] -- m)]) // (Len(d) - 1)) // Mean(s)

\* what a window shows at scaling alpha
Stats(ms, cs, alpha, dt) ==
  LET sc == [i \in 1..Len(cs) |-> alpha ** cs[i]]
      r == [i \in 1..Len(cs) |-> ms[i] -- sc[i]]
      d == Diffs(r)
      cm == Mean(cs)
  IN  [mean_diff |-> RAbs(Mean(ms) -- (alpha ** cm)), max_diff |-> RAbs(Max(ms) -- (alpha ** Max(cs))),
       line_length |-> LineLength(ms, dt) -- LineLength(sc, dt), slope_nstd |-> SlopeNstd(ms, dt),
       slope_max |-> Max([i \in 1..Len(d) |-> RAbs(d[i])]), level |-> cm]
\* strict comparison with a band of doubt around the limit (empty when exact)
Below(x, lim, exact) == IF IsNaN(x) THEN "no"
                        ELSE IF ~exact /\ RClose(x, lim, "1e-9", "1e-9") THEN "?" ELSE IF x \prec lim THEN "yes" ELSE "no"
And(v) == IF \E x \in v : x = "no" THEN "no" ELSE IF \E x \in v : x = "?" THEN "?" ELSE "yes"
Flags(s, k, exact) ==
  [mean_diff_flag |-> Below(s.mean_diff, k.mean_diff, exact), max_diff_flag |-> Below(s.max_diff, k.max_diff, exact),
   line_length_flag |-> And({Below(s.line_length, k.upper_line_length, exact), Below(k.lower_line_length, s.line_length, exact)}),
   slope_nstd_flag |-> Below(s.slope_nstd, k.var_diff, exact), slope_max_flag |-> Below(s.slope_max, k.slope_dev, exact),
   mean_nan_flag |-> IF IsNaN(s.level) \/ s.level \doteq "0" THEN "no" ELSE "yes"]
ClearWin(f) == And({f[c] : c \in DOMAIN f})

Rounded(x) == RRint(x ** "10000")
\* one pass at scaling alpha: per-window statistics, flags, samples, next alpha
Pass(meas, clear, alpha, k, w, dt, exact) ==
  LET nw == Len(meas) - w + 1
      st == TLCEval([j \in 1..nw |-> Stats(SubSeq(meas, j, j + w - 1), SubSeq(clear, j, j + w - 1), alpha, dt)])
      fl == TLCEval([j \in 1..nw |-> Flags(st[j], k, exact)])
      win == TLCEval([j \in 1..nw |-> ClearWin(fl[j])])
      on == TLCEval({i \in 1..Len(meas) : \E j \in 1..nw : win[j] = "yes" /\ j <= i /\ i <= j + w - 1})
      C == RSum([i \in 1..Len(meas) |-> IF i \in on THEN clear[i] ** clear[i] ELSE "0"])
      M == RSum([i \in 1..Len(meas) |-> IF i \in on THEN clear[i] ** meas[i] ELSE "0"])
      nx == IF C \succ "0" THEN M // C ELSE alpha
      y == nx ** "10000"
  IN  [st |-> st, fl |-> fl, win |-> win, on |-> on, used |-> alpha, next |-> nx,
       doubt |-> (\E j \in 1..nw : win[j] = "?")
                 \/ (~exact /\ RClose(RAbs(y -- RFloor(y)), "0.5", "0", "1e-6"))]
RECURSIVE Iterate(_, _, _, _, _, _, _, _)
Iterate(meas, clear, alpha, left, k, w, dt, exact) ==
  LET q == TLCEval(Pass(meas, clear, alpha, k, w, dt, exact))
  IN  IF q.doubt \/ left = 1 \/ Rounded(q.next) \doteq Rounded(alpha)
      THEN q @@ [converged |-> Rounded(q.next) \doteq Rounded(alpha)]
      ELSE Iterate(meas, clear, q.next, left - 1, k, w, dt, exact)
Detect(meas, clear, k, dt, exact) ==
  Iterate(meas, clear, "1", k.max_iterations, Limits(k, dt), PerWindow(k, dt), dt, exact)
=============================================================================
