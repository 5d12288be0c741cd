----------------------------- MODULE Transient -----------------------------
(* Temperature models with memory: the Fuentes energy balance (state: last    *)
(* module temperature and absorbed irradiance) and the Prilliman weighted     *)
(* moving average (state: the temperatures of the window behind each sample). *)
EXTENDS R64, Sequences, Integers

Boltz == "5.669e-8"
P4(x) == (x ** x) ** (x ** x)
Hconv(tave, wind, dT, xlen, tilt, turb) ==
  LET dens == ("0.003484" ** "101325") // tave
      vis == ("0.24237e-6" ** (tave ^^ "0.76")) // dens
      cond == "2.1695e-4" ** (tave ^^ "0.84")
      re == (wind ** xlen) // vis
      forced == IF turb /\ re \succ "1.2e5"
        THEN ((("0.0282" // (re ^^ "0.2")) ** dens) ** (wind ** "1007")) // ("0.71" ^^ "0.4")
        ELSE ((("0.86" // (re ^^ "0.5")) ** dens) ** (wind ** "1007")) // ("0.71" ^^ "0.67")
      gr == (((("9.8" // tave) ** dT) ** (xlen ^^ "3")) // (vis ** vis)) ** SinD(tilt)
      free == (("0.21" ** ((gr ** "0.71") ^^ "0.32")) ** cond) // xlen
  IN  ((free ^^ "3") ++ (forced ^^ "3")) ^^ ("1" // "3")

\* constants fixed by the installed NOCT
Setup(m) ==
  LET tn == m.noct ++ "273.15"  d == tn -- "293.15"
      xlen == ("2" ** (m.width ** m.length)) // (m.width ++ m.length)
      em == m.emissivity
      h == Hconv((tn ++ "293.15") // "2", "1", d, xlen, m.tilt, FALSE)
      hg == ((em ** Boltz) ** ((tn ** tn) ++ ("293.15" ** "293.15"))) ** (tn ++ "293.15")
      back == RSum(<<m.absorption ** "800", RNeg((em ** Boltz) ** (P4(tn) -- P4("282.21"))), RNeg(h ** d)>>)
              // ((hg ++ h) ** d)
      tg == RClip((P4(tn) -- (back ** (P4(tn) -- P4("293.15")))) ^^ "0.25", "293.15", tn)
      conv == ((m.absorption ** "800") -- ((em ** Boltz) **
                  RSum(<<"2" ** P4(tn), RNeg(P4("282.21")), RNeg(P4(tg))>>))) // (h ** d)
      cap == "11000" ** (IF tn \succ "321.15" THEN "1" ++ ((tn -- "321.15") // "12") ELSE "1")
  IN  [xlen |-> xlen, tgrat |-> (tg -- "293.15") // d, convrat |-> conv, cap |-> cap]

Step(m, s, e) ==
  LET p == s.p  ta == e.temp_air ++ "273.15"  sun == e.poa ** m.absorption
      tsky == ("0.68" ** ("0.0552" ** (ta ^^ "1.5"))) ++ ("0.32" ** ta)
      wind == (e.wind ** ((m.module_height // m.wind_height) ^^ "0.2")) ++ "1e-4"
      eb == m.emissivity ** Boltz
      Iter[i \in 0..10] ==
        IF i = 0 THEN s.t
        ELSE LET t == Iter[i - 1]
                 hc == p.convrat ** Hconv((t ++ ta) // "2", wind, RAbs(t -- ta), p.xlen, m.tilt, TRUE)
                 hs == (eb ** ((t ** t) ++ (tsky ** tsky))) ** (t ++ tsky)
                 tg == ta ++ (p.tgrat ** (t -- ta))
                 hg == (eb ** ((t ** t) ++ (tg ** tg))) ** (t ++ tg)
                 H == RSum(<<hc, hs, hg>>)
                 eig == RNeg(((H // p.cap) ** e.hours) ** "3600")
                 ex == IF eig \succ "-10" THEN RExp(eig) ELSE "0"
             IN  (s.t ** ex) ++ ((("1" -- ex) ** RSum(<<hc ** ta, hs ** tsky, hg ** tg, s.sun, (sun -- s.sun) // eig>>)
                                  ++ (sun -- s.sun)) // H)
  IN  [s EXCEPT !.t = Iter[10], !.sun = sun]

\* ---- Prilliman: s.win = temperatures of the window, oldest first ----------
Rate(m, w) == RSum(<<m.c[1], m.c[2] ** w, m.c[3] ** m.unit_mass, m.c[4] ** (w ** m.unit_mass)>>)
POut(m, s, e) ==
  IF RLe("20", m.minutes) THEN e.temp
  ELSE IF s.n = 0 THEN (IF IsNaN(e.wind) THEN "?" ELSE e.temp)
  ELSE LET N == Len(s.win)
           ok == {i \in 1..N : ~IsNaN(s.win[i])}
           W(i) == RExp(RNeg(Rate(m, e.wind)) ** (((N + 1) - i) ** (m.minutes ** "60")))
       IN  IF ok = {} \/ IsNaN(e.wind) THEN NaN
           ELSE RSum([i \in 1..N |-> IF i \in ok THEN s.win[i] ** W(i) ELSE "0"])
                // RSum([i \in 1..N |-> IF i \in ok THEN W(i) ELSE "0"])
PStep(m, s, e) ==
  LET w == Append(s.win, e.temp) IN
  [s EXCEPT !.n = @ + 1, !.win = IF Len(w) > m.window THEN Tail(w) ELSE w]

SInit(m) == CASE m.kind = "fuentes" -> [p |-> Setup(m), t |-> "293.15", sun |-> "0"]
              [] m.kind = "prilliman" -> [n |-> 0, win |-> <<>>]
              [] OTHER -> 0
SStep(m, s, e) ==
  IF m.kind = "fuentes"
  THEN LET s2 == Step(m, s, e)
       IN <<s2, Clause("fuentes.temperature", RClose(e.out, s2.t -- "273.15", "1e-7", "1e-6"))
                \cup Clause("fuentes.index", e.idx)>>
  ELSE IF m.kind = "prilliman"
  THEN LET v == POut(m, s, e)
       IN <<PStep(m, s, e), Clause("prilliman.temperature", v = "?" \/ RClose(e.out, v, "1e-9", "1e-9"))
                \cup Clause("prilliman.index", e.idx)>>
  ELSE <<s, CASE e.want = "raise" -> Clause(e.fn \o ".accepted", e.exc # "")
              [] OTHER -> Clause(e.fn \o ".raised", e.exc = "") \cup Clause(e.fn \o "." \o e.what, e.ok)>>
=============================================================================
