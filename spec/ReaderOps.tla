------------------------------ MODULE ReaderOps ------------------------------
(* The clock of each weather file format.  A record's stamp is what is printed
   in the file; its label is the instant (minutes since 1970 in the file's own
   clock) documented for the row.                                             *)
EXTENDS Calendar, Integers, Sequences
Day == 1440
MinOf(y, m, d, h, mi) == DayNum(y, m, d) * Day + h * 60 + mi
\* ---- what a file prints for an instant t (end of interval where the format ends intervals)
Stamp(d, h, mi) == [y |-> YearOf(d), m |-> MonthOf(d), d |-> DomOf(d), doy |-> DoyOf(d), h |-> h, mi |-> mi]
Plain(t) == Stamp(t \div Day, (t % Day) \div 60, t % 60)
\* hours 1..24 of the day they belong to
Ending(t) == IF t % Day = 0 THEN Stamp((t \div Day) - 1, 24, 0) ELSE Plain(t)
Printed(f, t) == IF f \in {"tmy3", "tmy2", "epw", "srml"} THEN Ending(t) ELSE Plain(t)
\* typical-year files have no leap day
NoLeap(t, step) == LET n == t + step  d == n \div Day
                   IN  IF MonthOf(d) = 2 /\ DomOf(d) = 29 /\ ~(n % Day = 0) THEN n + Day ELSE n
\* ---- what the reader labels the row with
LeapTo(y, d) == IF MonthOf(d) = 2 /\ DomOf(d) = 29 THEN d + 1 ELSE d
\* the day of a tmy3 row: 24:00 is the next midnight, never in a leap day
Tmy3Day(r) == LeapTo(r.y, DayNum(r.y, r.m, r.d) + (IF r.h = 24 THEN 1 ELSE 0))
WithYear(d, y) == DayNum(y, MonthOf(d), DomOf(d))
\* o: options; R: all records of the file; i: the row
Label(f, o, R, i) ==
  LET r == R[i] IN
  CASE f = "tmy3" -> LET d == Tmy3Day(r)
                         e == IF o.year = 0 THEN d ELSE IF i = Len(R) THEN WithYear(d, o.year + 1) ELSE WithYear(d, o.year)
                     IN  e * Day + (r.h % 24) * 60 + r.mi
    [] f = "tmy2" -> MinOf(R[1].y, r.m, r.d, r.h - 1, 0)
    [] f = "epw"  -> MinOf(IF o.year = 0 THEN r.y ELSE o.year, r.m, r.d, r.h - 1, 0)
    [] f = "srml" -> MinOf(r.y, r.m, r.d, r.h, r.mi) - o.step
    [] f = "cams" -> IF o.step = 43200       \* one month: the calendar date only
                     THEN IF o.label = "left" THEN DayNum(r.y, r.m, r.d) * Day
                          ELSE (DayNum(IF r.m = 12 THEN r.y + 1 ELSE r.y, IF r.m = 12 THEN 1 ELSE r.m + 1, 1) - 1) * Day
                     ELSE MinOf(r.y, r.m, r.d, r.h, r.mi) + (IF o.label = "right" THEN o.step ELSE 0)
    [] OTHER -> MinOf(r.y, r.m, r.d, r.h, r.mi)
\* hours covered by the row (for files that print energies)
Hours(o, r) == IF o.step = 43200 THEN RNum(24 * MDays(r.y)[r.m]) ELSE RDiv(RNum(o.step), "60")
\* ---- zone of the labels: minutes east of UTC
Zone(f, tz, name) == CASE f \in {"tmy3", "tmy2", "epw", "psm4", "sa"} -> tz
                       [] f = "srml" -> -480
                       [] f \in {"midc", "midcraw"} -> (CASE name = "MST" -> -420 [] name = "PST" -> -480 [] name = "CST" -> -360 [] name = "EST" -> -300 [] name = "HST" -> -600 [] OTHER -> 0)
                       [] OTHER -> 0
\* daily and monthly files carry dates, not instants
Naive(f, o) == f = "cams" /\ o.step >= 1440
\* ---- values
Integrated == {"TOA", "Clear sky GHI", "Clear sky BHI", "Clear sky DHI", "Clear sky BNI", "GHI", "BHI", "DHI", "BNI", "GHI no corr", "BHI no corr", "DHI no corr", "BNI no corr"}
CrnCode(n) == CASE n \in {"AIR_TEMPERATURE", "PRECIPITATION", "SURFACE_TEMPERATURE", "RELATIVE_HUMIDITY", "SOIL_TEMPERATURE_5", "WETNESS"} -> "-9999"
                [] n = "SOLAR_RADIATION" -> "-99999" [] n \in {"SOIL_MOISTURE_5", "WIND_1_5"} -> "-99" [] OTHER -> "none"
Is(x, code) == RIsNum(x) /\ REq(x, code)
\* printed text x in column n; nx: the text of the column to its right
Missing(f, n, x, nx) ==
  CASE f \in {"surfrad", "solrad", "msn"} -> Is(x, "-9999.9")
    [] f = "crn" -> CrnCode(n) # "none" /\ Is(x, CrnCode(n))
    [] f \in {"bsrn", "bsrn3"} -> Is(x, "-999") \/ Is(x, "-99.9")
    [] f = "bsrn5" -> Is(x, "-99.9")
    [] f = "srml" -> n # "0" /\ Is(nx, "99")
    [] f = "sa" -> x = "" \/ x = "NaN" \/ Is(x, "-999")
    [] f = "cams" -> x = "nan"
    [] OTHER -> FALSE
\* SRML element numbers: three digits name the quantity, the rest the instrument
SrmlKind(e) == LET k == SSub(e, 0, 3) IN CASE k = "100" -> "ghi" [] k = "201" -> "dni" [] k = "300" -> "dhi" [] k = "920" -> "wind_direction" [] k = "921" -> "wind_speed" [] k = "930" -> "temp_air"
                                           [] k = "931" -> "temp_dew" [] k = "933" -> "relative_humidity" [] k = "937" -> "temp_cell" [] OTHER -> ""
SrmlName(e, on) == IF ~on \/ SStarts(e, "7") \/ SrmlKind(e) = "" THEN e ELSE SrmlKind(e) \o "_" \o SSub(e, 3, 9)
=============================================================================
