------------------------------ MODULE ReadersMC ------------------------------
(* A weather file grows record by record from a start instant near a boundary
   (midnight, month and year end, leap day); the reader labels every record.
   Promises: no record is lost, doubled or moved; labels go up by one interval. *)
EXTENDS ReaderOps, ReaderTables, IOUtils, TLC
CONSTANTS MaxLen
VARIABLES p, c
Starts == { MinOf(2019, 12, 31, 22, 0), MinOf(2020, 2, 28, 22, 0), MinOf(2021, 2, 28, 22, 0), MinOf(2020, 3, 1, 0, 0), MinOf(2020, 2, 29, 23, 0),
            MinOf(2000, 2, 29, 12, 0), MinOf(2016, 12, 31, 23, 0), MinOf(2020, 6, 30, 9, 0), MinOf(2021, 10, 9, 9, 0), MinOf(1996, 1, 1, 0, 0), MinOf(1983, 12, 31, 21, 0), MinOf(1984, 2, 28, 22, 0), MinOf(1975, 4, 30, 22, 0) }
Typical == {"tmy3", "tmy2", "epw"}
Steps(f) == CASE f = "tmy3" -> {30, 60} [] f \in Typical -> {60}
              [] f \in {"surfrad", "bsrn", "bsrn3", "bsrn5", "midc", "midcraw"} -> {1}
              [] f \in {"solrad", "msn"} -> {1, 3} [] f = "crn" -> {5} [] f = "srml" -> {1, 5, 10, 15, 60}
              [] f = "psm4" -> {5, 30, 60} [] f = "pvgis" -> {60} [] f = "cams" -> {1, 15, 60, 1440, 43200} [] f = "sa" -> {5, 60}
Formats == {"tmy3", "tmy2", "epw", "surfrad", "solrad", "msn", "crn", "srml", "midc", "midcraw", "bsrn", "bsrn3", "bsrn5", "psm4", "pvgis", "cams", "sa"}
\* a start every format can print: whole intervals, months for monthly files, the month of the header
Fit(f, s, t) == CASE s = 43200 -> DayNum(YearOf(t \div Day), MonthOf(t \div Day), 1) * Day
                  [] s = 1440 -> (t \div Day) * Day
                  [] f \in Typical /\ MonthOf(t \div Day) = 2 /\ DomOf(t \div Day) = 29 -> t + Day
                  [] f = "srml" -> IF s = 60 THEN t - 60 ELSE t + s
                  [] f = "pvgis" -> t + 10
                  [] f \in Typical -> t + 60
                  [] s < 60 -> t + 60 - 2 * s      \* across the hour
                  [] OTHER -> t
Grow(f, s, t) == CASE s = 43200 -> LET d == t \div Day IN t + MDays(YearOf(d))[MonthOf(d)] * Day
                   [] f \in Typical -> NoLeap(t, s)
                   [] OTHER -> t + s
Opts(f) == CASE f = "tmy3" -> [year : {0, 2021, 2020}, label : {""}, style : {"24", "00"}]
             [] f = "epw" -> [year : {0, 2021}, label : {""}, style : {""}]
             [] f = "cams" -> [year : {0}, label : {"left", "right", "none"}, style : {"integrated", ""}]
             [] OTHER -> [year : {0}, label : {""}, style : {""}]
Full(o, s, f) == [year |-> o.year, label |-> IF f = "cams" /\ o.label = "none" THEN (IF s = 43200 THEN "right" ELSE "left") ELSE o.label, given |-> o.label, style |-> o.style, step |-> s]
\* tmy3 also comes with 00:00 in place of 24:00; months of typical years come from different years
Year(f, r, y0, m0) == IF f \in {"tmy3", "epw"} /\ r.m # m0 THEN [r EXCEPT !.y = y0 + 4 * ((r.m + 12 - m0) % 3)] ELSE r
Raw(f, o, t) == IF f = "tmy3" /\ o.style = "00" THEN Plain(t) ELSE Printed(f, t)
Rec(f, o, t, y0, m0) == Year(f, Raw(f, o, t), y0, m0)
Init == /\ c = <<>>
        /\ \E f \in Formats : \E s \in Steps(f) : \E q \in Opts(f) : \E t0 \in Starts :
             LET o == Full(q, s, f)
                 t == Fit(f, s, t0)
                 r == Raw(f, o, t)
             IN  (f = "tmy2" => r.y < 2000) /\ p = [f |-> f, s |-> s, o |-> o, t |-> t, y0 |-> r.y, m0 |-> r.m, ts |-> <<>>]
Next == /\ Len(c) < MaxLen
        /\ IF c = <<>> THEN TRUE
           ELSE LET r == Rec(p.f, p.o, p.t, p.y0, p.m0)
                IN  /\ IF p.f \in {"bsrn", "bsrn3", "bsrn5", "srml"} THEN r.m = p.m0 ELSE TRUE    \* one month per file
                    /\ IF p.f \in {"srml", "tmy2"} THEN r.y = c[1].y ELSE TRUE
        /\ c' = Append(c, Rec(p.f, p.o, p.t, p.y0, p.m0))
        /\ p' = [p EXCEPT !.t = Grow(p.f, p.s, p.t), !.ts = Append(@, p.t)]
L(i) == Label(p.f, p.o, c, i)
SameMonth == \A i \in 1..Len(c) : c[i].m = c[1].m
\* every record is labelled with its own instant, moved by the documented offset only
Offset == CASE p.f \in {"epw", "tmy2"} -> -60 [] p.f = "srml" -> -p.s [] p.f = "cams" /\ p.o.label = "right" /\ p.s # 43200 -> p.s [] OTHER -> 0
\* typical years have no leap day: its first midnight is the one that starts March
Eff(i) == LET t == p.ts[i] IN IF p.f = "tmy3" THEN LeapTo(0, t \div Day) * Day + (t % Day) ELSE t
Placed == (p.o.year = 0 /\ SameMonth /\ p.s # 43200) => \A i \in 1..Len(c) : L(i) = Eff(i) + Offset
\* one interval apart, across midnight, month end and leap day (years of typical files may jump with the month)
Steady == (p.s # 43200 /\ SameMonth) => \A i \in 2..(Len(c) - (IF p.o.year = 0 THEN 0 ELSE 1)) : L(i) - L(i - 1) = (IF p.f = "tmy3" THEN Eff(i) - Eff(i - 1) ELSE IF p.f \in Typical THEN p.ts[i] - p.ts[i - 1] ELSE p.s)
Distinct == p.o.year = 0 => \A i, j \in 1..Len(c) : L(i) = L(j) => i = j
NoLeapDay == (p.f = "tmy3") => \A i \in 1..Len(c) : ~(MonthOf(L(i) \div Day) = 2 /\ DomOf(L(i) \div Day) = 29)
MonthEnds == (p.f = "cams" /\ p.s = 43200 /\ p.o.label = "right") => \A i \in 1..Len(c) : DomOf(L(i) \div Day) = MDays(c[i].y)[c[i].m]
Tabled == Formats \ {"srml", "midc", "midcraw"}
Emit == IF Len(c) = 0 THEN (IF p.f \in Tabled THEN VEmit(IOEnv.VOUT, [f |-> p.f, names |-> Names(p.f)]) /\ (p.f = "pvgis" => VEmit(IOEnv.VOUT, [f |-> "pvgistmy", names |-> Names("pvgistmy")])) ELSE TRUE) ELSE Len(c) < 2 \/ VEmit(IOEnv.VOUT, [f |-> p.f, o |-> p.o, recs |-> c])
=============================================================================
