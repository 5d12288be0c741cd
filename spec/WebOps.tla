------------------------------- MODULE WebOps -------------------------------
(* Exchanges between a pvlib web reader and the service it asks.
   Kinds: single  one request, one answer
          many    log in, then one request per variable
          files   one request per day or month; missing files are skipped
          job     submit, poll until ready, (fetch the link, download)
          ftp     connect, enter the station's directory, retrieve each file
   s: kind, phase, requests left, data received, files missing, and whether the
   reader may also give up at this point.                                       *)
EXTENDS Integers, Sequences
Kinds == {"single", "many", "files", "job", "job2", "ftp"}
Begin(k, n) == [k |-> k, ph |-> CASE k \in {"single", "files"} -> "ask" [] k = "many" -> "login" [] k \in {"job", "job2"} -> "submit" [] k = "ftp" -> "connect",
                left |-> n, ok |-> 0, miss |-> 0, may |-> FALSE]
Fail(s) == [s EXCEPT !.ph = "raise", !.may = FALSE]
Go(s, ph) == [s EXCEPT !.ph = ph, !.may = FALSE]
\* one more file or variable dealt with
Took(s, r) ==
  LET l == s.left - 1
      o == IF r = "ok" THEN s.ok + 1 ELSE s.ok
      ph == IF l > 0 THEN "ask" ELSE IF o > 0 THEN "data" ELSE IF s.k = "ftp" THEN "empty" ELSE "raise"
  IN  [s EXCEPT !.left = l, !.ok = o, !.miss = IF r = "ok" THEN @ ELSE @ + 1, !.ph = ph, !.may = r = "errtext"]
\* late: "no" before the time allowed is over, "may" about then, "must" after it
After(s, r, late) ==
  CASE s.k = "single" -> IF r = "ok" THEN [Go(s, "data") EXCEPT !.ok = 1, !.left = 0] ELSE Fail(s)
    [] s.k = "many" /\ s.ph = "login" -> IF r = "ok" THEN Go(s, "ask") ELSE Fail(s)
    [] s.k = "many" -> IF r = "ok" THEN Took(s, "ok") ELSE Fail(s)
    \* a server error on one file may count as that file missing
    [] s.k = "files" -> IF r \in {"ok", "missing", "errtext"} THEN Took(s, r) ELSE Fail(s)
    [] s.ph = "submit" -> IF r = "ok" THEN Go(s, "poll") ELSE Fail(s)
    [] s.ph = "poll" -> CASE r = "ok" -> IF s.k = "job" THEN [Go(s, "data") EXCEPT !.ok = 1, !.left = 0] ELSE Go(s, "link")
                          [] r = "pending" -> IF late = "must" THEN Fail(s) ELSE [s EXCEPT !.may = late = "may"]
                          \* an error while polling may be taken for not ready yet
                          [] r = "errjson" -> IF late = "must" THEN Fail(s) ELSE [s EXCEPT !.may = TRUE]
                          [] OTHER -> Fail(s)
    [] s.ph = "link" -> IF r = "ok" THEN Go(s, "download") ELSE Fail(s)
    [] s.ph = "download" -> IF r = "ok" THEN [Go(s, "data") EXCEPT !.ok = 1, !.left = 0] ELSE Fail(s)
    [] s.ph = "connect" -> IF r = "ok" THEN Go(s, "enter") ELSE Fail(s)
    [] s.ph = "enter" -> IF r = "ok" THEN Go(s, "ask") ELSE Fail(s)
    [] s.k = "ftp" -> IF r \in {"ok", "missing"} THEN Took(s, r) ELSE Fail(s)
    [] OTHER -> Fail(s)
Final(s) == s.ph \in {"data", "empty", "raise"}
\* what a server may answer
Answers(s) ==
  CASE s.ph = "poll" -> {"ok", "pending", "failed", "errjson", "errtext", "garbage", "drop"}
    [] s.ph = "connect" -> {"ok", "denied", "drop"}
    [] s.ph = "enter" -> {"ok", "missing"}
    [] s.k = "ftp" -> {"ok", "missing", "denied", "partial", "drop"}
    [] s.k = "files" -> {"ok", "missing", "errtext", "garbage", "drop"}
    [] OTHER -> {"ok", "errjson", "errtext", "payload", "garbage", "drop"}
=============================================================================
