------------------------------- MODULE WebMC -------------------------------
(* Every exchange a reader can have with its service: the server answers as it
   likes, the client follows the protocol.                                     *)
EXTENDS WebOps, R64, IOUtils, TLC
CONSTANTS MaxFiles, Budget
VARIABLES s, h, n0, out
vars == <<s, h, n0, out>>
Init == /\ \E k \in Kinds : \E n \in 1..(IF k \in {"many", "files", "ftp"} THEN MaxFiles ELSE 1) : s = Begin(k, n) /\ n0 = n
        /\ h = <<>> /\ out = "none"
Polls == Len(SelectSeq(h, LAMBDA r : r[1] = "poll"))
Late == LET k == Polls + 1 IN IF k < Budget THEN "no" ELSE IF k <= Budget + 1 THEN "may" ELSE "must"
Ask == /\ out = "none" /\ ~Final(s)
       /\ \E r \in Answers(s) : h' = Append(h, <<s.ph, r>>) /\ s' = After(s, r, Late)
       /\ UNCHANGED <<n0, out>>
GiveUp == out = "none" /\ s.may /\ s.ph # "raise" /\ s' = Fail(s) /\ UNCHANGED <<h, n0, out>>
End == out = "none" /\ Final(s) /\ out' = s.ph /\ UNCHANGED <<s, h, n0>>
Next == Ask \/ GiveUp \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Good(x) == x[2] = "ok" \/ (x[2] \in {"missing", "errtext"} /\ s.k \in {"files", "ftp"} /\ x[1] = "ask") \/ (x[1] = "poll" /\ x[2] \in {"pending", "errjson"})
\* data are only ever returned when every answer was usable and some data came
Loud == out = "data" => (\A i \in 1..Len(h) : Good(h[i])) /\ \E i \in 1..Len(h) : h[i][2] = "ok"
\* nothing is returned for an answer that carries none
NoData == (\E i \in 1..Len(h) : h[i][2] \in {"drop", "garbage", "payload", "denied", "partial", "failed"}) => out \in {"none", "raise"}
\* every file or variable was asked for exactly once
Complete == out = "data" => Len(SelectSeq(h, LAMBDA r : r[1] = "ask")) = (IF s.k \in {"many", "files", "ftp", "single"} THEN n0 ELSE 0)
Counted == out \in {"data", "empty"} => s.left = 0 /\ (s.k \in {"files", "ftp"} => s.ok + s.miss = n0)
Bounded == Polls <= Budget + 2
OnlyFtpEmpty == out = "empty" => s.k = "ftp" /\ s.ok = 0
Ends == <>(out # "none")
Emit == (out # "none") => VEmit(IOEnv.VOUT, [k |-> s.k, n |-> n0, script |-> [i \in 1..Len(h) |-> h[i][2]], out |-> out])
=============================================================================
