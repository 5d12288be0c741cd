-------------------------------- MODULE Web --------------------------------
(* Observed exchanges between a web reader and its service: what was asked,
   what came back, and what the caller got.                                  *)
EXTENDS ReadFile, WebOps, TLC, WebTables
\* ---- times: [y, m, d, h, mi, s, off, naive, rel, none] as given by the caller
Naught(x) == x.none
Wall(x) == MinOf(x.y, x.m, x.d, x.h, x.mi)
InUtc(x) == LET t == Wall(x) - (IF x.naive THEN 0 ELSE x.off) IN [x EXCEPT !.y = YearOf(t \div Day), !.m = MonthOf(t \div Day), !.d = DomOf(t \div Day), !.h = (t % Day) \div 60, !.mi = t % 60]
Ymd(x) == SPad(x.y, 4) \o "-" \o SPad(x.m, 2) \o "-" \o SPad(x.d, 2)
Packed(x) == SPad(x.y, 4) \o SPad(x.m, 2) \o SPad(x.d, 2)
Clock(x) == Ymd(x) \o "T" \o SPad(x.h, 2) \o ":" \o SPad(x.mi, 2) \o ":" \o SPad(x.s, 2)
Shift(x) == LET o == IF x.naive THEN 0 ELSE x.off  a == IF o < 0 THEN -o ELSE o IN (IF o < 0 THEN "-" ELSE "+") \o SPad(a \div 60, 2) \o ":" \o SPad(a % 60, 2)
\* ---- periods made of days or months
DaysIn(a) == DayNum(a.end.y, a.end.m, a.end.d) - DayNum(a.start.y, a.start.m, a.start.d) + 1
MonthsIn(a) == (a.end.y - a.start.y) * 12 + a.end.m - a.start.m + 1
DayFile(a, i) == LET d == DayNum(a.start.y, a.start.m, a.start.d) + i - 1
                     n == SLower(a.station)
                 IN  n \o "/" \o SOfInt(YearOf(d)) \o "/" \o n \o SPad(YearOf(d) % 100, 2) \o SPad(DoyOf(d), 3) \o ".dat"
MonthOfFile(a, i) == LET k == a.start.m - 1 + i - 1 IN [y |-> a.start.y + k \div 12, m |-> (k % 12) + 1]
SrmlFile(a, i) == LET k == MonthOfFile(a, i) IN a.station \o a.filetype \o SPad(k.y % 100, 2) \o SPad(k.m, 2) \o ".txt"
BsrnFile(a, i) == LET k == MonthOfFile(a, i) IN SLower(a.station) \o SPad(k.m, 2) \o SPad(k.y % 100, 2) \o ".dat.gz"
FileOf(f, a, i) == CASE f \in {"get_surfrad", "get_solrad"} -> DayFile(a, i) [] f = "get_srml" -> SrmlFile(a, i) [] f = "get_bsrn" -> BsrnFile(a, i)
Count(f, a) == CASE f = "get_merra2" -> Len(a.names) [] f \in {"get_surfrad", "get_solrad"} -> DaysIn(a) [] f \in {"get_srml", "get_bsrn"} -> MonthsIn(a) [] OTHER -> 1
\* ---- texts
RECURSIVE Glue(_, _)
Glue(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Glue(SubSeq(ss, 2, Len(ss)), sep)
Yes(b) == IF b THEN "true" ELSE "false"
One(b) == IF b THEN "1" ELSE "0"
Asked(f, a) == [i \in 1..Len(a.names) |-> Back(AskOf(f), a.names[i])]
Kept(S) == {p \in S : p[2] # ""}
Each(prefix, ss) == {<<prefix \o SOfInt(i - 1), ss[i]>> : i \in 1..Len(ss)}
\* ---- the request that must be seen: method, address, query, optional query, headers, body
Want(m, url, q, h, body) == [m |-> m, url |-> url, q |-> q, opt |-> {}, h |-> h, body |-> body]
AcisUnit(n) == CASE n = "pcpn" -> "mm" [] n \in {"snow", "snwd"} -> "cm" [] OTHER -> "degreeC"
AcisElems(f) == CASE f = "get_acis_mpe" -> <<"pcpn">> [] f = "get_acis_station_data" -> <<"maxt", "mint", "avgt", "obst", "pcpn", "snow", "snwd", "cdd", "hdd", "gdd">>
                  [] OTHER -> <<"pcpn", "maxt", "mint", "avgt", "cdd", "hdd", "gdd">>
AcisBody(f, a) ==
  LET el == AcisElems(f) IN
  {<<"sdate", Ymd(a.start)>>, <<"edate", Ymd(a.end)>>, <<"output", "json">>}
  \cup UNION {{<<"elems." \o SOfInt(i - 1) \o ".name", el[i]>>, <<"elems." \o SOfInt(i - 1) \o ".interval", "dly">>, <<"elems." \o SOfInt(i - 1) \o ".units", AcisUnit(el[i])>>} : i \in 1..Len(el)}
  \cup (IF f = "get_acis_station_data" THEN {<<"sid", a.station>>, <<"meta", "name,state,sids,sid_dates,ll,elev,uid,county,climdiv,valid_daterange,tzo,network">>}
        ELSE {<<"loc", a.lon \o "," \o a.lat>>, <<"meta.0", "ll">>, <<"grid", CASE f = "get_acis_prism" -> "21" [] f = "get_acis_mpe" -> "2" [] OTHER -> a.grid>>} \cup (IF f = "get_acis_mpe" THEN {} ELSE {<<"meta.1", "elev">>}))
StationsBody(a) == {<<"bbox", a.west \o "," \o a.south \o "," \o a.east \o "," \o a.north>>, <<"meta", "name,state,sids,sid_dates,ll,elev,uid,county,climdiv,tzo,network">>}
  \cup (IF a.start.none \/ a.end.none THEN {} ELSE {<<"sdate", Ymd(a.start)>>, <<"edate", Ymd(a.end)>>} \cup Each("elems.", <<"maxt", "mint", "avgt", "obst", "pcpn", "snow", "snwd">>))
MeteoTime(x) == IF x.none THEN "" ELSE IF x.rel # "" THEN x.rel ELSE Clock(InUtc(x)) \o "Z"
MeteoStep(s) == CASE s \in {"1h", "h"} -> "1_hour" [] s = "15min" -> "15_minutes" [] s \in {"1min", "min"} -> "1_minute" [] OTHER -> s
MeteoQuery(f, a) == Kept({<<"lat", a.lat>>, <<"lon", a.lon>>, <<"start", MeteoTime(a.start)>>, <<"end", MeteoTime(a.end)>>, <<"parameters", Glue(Asked(f, a), ",")>>, <<"surface_tilt", a.tilt>>, <<"surface_azimuth", a.azimuth>>,
                    <<"horizon", Glue(a.horizon, ",")>>, <<"frequency", MeteoStep(a.step)>>, <<"response_format", "json">>}
                    \cup (IF f # "get_meteonorm_tmy" THEN {} ELSE {<<"situation", a.situation>>, <<"turbidity", Glue(a.turbidity, ",")>>, <<"clear_sky_radiation_model", a.model>>, <<"random_seed", a.seed>>,
                                                                  <<"future_scenario", a.scenario>>, <<"future_year", a.future>>, <<"albedo", a.albedo>>}))
SolargisStep(s) == CASE s \in {"5", "PT05M", "PT5M"} -> "MIN_5" [] s \in {"10", "PT10M"} -> "MIN_10" [] s \in {"15", "PT15M"} -> "MIN_15" [] s \in {"30", "PT30"} -> "MIN_30" [] s \in {"60", "PT60M", "PT1H", "HOURLY", "hourly"} -> "HOURLY"
                     [] s = "P1D" -> "DAILY" [] s = "P1M" -> "MONTHLY" [] s = "P1Y" -> "YEARLY" [] OTHER -> s
Upper(s) == CASE s = "start" -> "START" [] s = "center" -> "CENTER" [] s = "end" -> "END" [] OTHER -> s
SolargisBody(a) == {<<"dateFrom", Ymd(a.start)>>, <<"dateTo", Ymd(a.end)>>, <<"site.lat", a.lat>>, <<"site.lng", a.lon>>, <<"processing.key", Glue(a.names, " ")>>, <<"processing.summarization", SolargisStep(a.step)>>,
                    <<"processing.terrainShading", Yes(a.shading)>>, <<"timestampType", Upper(a.label)>>, <<"timeZone", a.tz>>}
NasaQuery(f, a) == Kept({<<"latitude", a.lat>>, <<"longitude", a.lon>>, <<"start", Packed(a.start)>>, <<"end", Packed(a.end)>>, <<"community", a.community>>, <<"parameters", Glue(Asked(f, a), ",")>>, <<"format", "json">>, <<"header", "True">>,
                         <<"time-standard", "utc">>, <<"site-elevation", a.elevation>>, <<"wind-elevation", a.windheight>>, <<"wind-surface", a.windsurface>>})
Psm4Query(f, a) == {<<"api_key", a.key>>, <<"full_name", a.fullname>>, <<"email", a.email>>, <<"affiliation", a.affiliation>>, <<"reason", "pvlib python">>, <<"mailing_list", "false">>,
                    <<"wkt", "POINT(" \o SFix(a.lon, 4) \o " " \o SFix(a.lat, 4) \o ")">>, <<"names", a.year>>, <<"attributes", Glue(Asked(f, a), ",")>>, <<"leap_day", Yes(a.leap)>>, <<"utc", Yes(a.utc)>>, <<"interval", a.step>>}
PvgisHourly(a) == Kept({<<"lat", a.lat>>, <<"lon", a.lon>>, <<"outputformat", a.format>>, <<"angle", a.tilt>>, <<"aspect", RSub(a.azimuth, "180")>>, <<"pvcalculation", One(a.pv)>>, <<"pvtechchoice", a.tech>>, <<"mountingplace", a.place>>,
                    <<"trackingtype", a.tracking>>, <<"components", One(a.components)>>, <<"usehorizon", One(a.usehorizon)>>, <<"optimalangles", One(a.optangles)>>, <<"optimalinclination", One(a.opttilt)>>, <<"loss", a.loss>>,
                    <<"userhorizon", Glue(a.horizon, ",")>>, <<"raddatabase", a.database>>, <<"startyear", a.startyear>>, <<"endyear", a.endyear>>, <<"peakpower", a.peak>>})
PvgisTmy(a) == Kept({<<"lat", a.lat>>, <<"lon", a.lon>>, <<"outputformat", a.format>>, <<"userhorizon", Glue(a.horizon, ",")>>, <<"startyear", a.startyear>>, <<"endyear", a.endyear>>} \cup (IF a.usehorizon THEN {} ELSE {<<"usehorizon", "0">>}))
CamsStep(s) == CASE s = "1min" -> "PT01M" [] s = "15min" -> "PT15M" [] s = "1h" -> "PT01H" [] s = "1d" -> "P01D" [] s = "1M" -> "P01M" [] OTHER -> "?"
CamsBody(a) == {<<"latitude", a.lat>>, <<"longitude", a.lon>>, <<"altitude", IF a.altitude = "" THEN "-999" ELSE a.altitude>>, <<"date_begin", Ymd(a.start)>>, <<"date_end", Ymd(a.end)>>, <<"time_ref", a.timeref>>,
                <<"summarization", CamsStep(a.step)>>, <<"username", SReplace(a.email, "@", "%40")>>, <<"verbose", Yes(a.verbose /\ a.step = "1min" /\ a.timeref = "UT")>>}
SaBody(a) == Each("Options.OutputFields.", a.names) \cup Kept({<<"Sites.0.Latitude", a.lat>>, <<"Sites.0.Longitude", a.lon>>, <<"Options.SpatialResolution_Degrees", a.spatial>>, <<"Options.TimeResolution_Minutes", a.step>>,
                <<"Options.WeatherDataSource", a.source>>, <<"Options.MissingDataHandling", a.missing>>, <<"Options.ProbabilityOfExceedance", a.poe>>} \cup (IF a.dynamics THEN {<<"Options.ApplyTrueDynamics", "True">>} ELSE {})
                \cup (IF a.start.none THEN {} ELSE {<<"Options.StartTime", Clock(a.start) \o Shift(a.start)>>, <<"Options.EndTime", Clock(a.end) \o Shift(a.end)>>}))
Era5Body(f, a) == Each("inputs.variable.", Asked(f, a)) \cup {<<"inputs.location.longitude", a.lon>>, <<"inputs.location.latitude", a.lat>>, <<"inputs.date.0", Ymd(InUtc(a.start)) \o "/" \o Ymd(InUtc(a.end))>>, <<"inputs.data_format", "csv">>}
Kwargs(a) == {<<a.kw[i][1], a.kw[i][2]>> : i \in 1..Len(a.kw)}
SolcastQuery(f, a) == Kept({<<"latitude", a.lat>>, <<"longitude", a.lon>>, <<"format", "json">>} \cup Kwargs(a) \cup (IF f = "get_solcast_historic" THEN {<<"start", a.from>>, <<"end", a.till>>, <<"duration", a.duration>>} ELSE {}))
Expect(f, a, s) ==
  LET at == Address(f, a.url) IN
  CASE f \in Acis -> Want("POST", at, {}, {<<"content-type", "application/json">>}, AcisBody(f, a))
    [] f = "get_acis_available_stations" -> Want("POST", at, {}, {<<"content-type", "application/json">>}, StationsBody(a))
    [] f \in Meteonorm -> Want("GET", at, MeteoQuery(f, a), {<<"authorization", "Bearer " \o a.key>>}, {})
    [] f = "get_solargis" -> Want("POST", at, {<<"key", a.key>>}, {<<"content-type", "application/xml">>}, SolargisBody(a))
    [] f = "get_nasa_power" -> Want("GET", at, NasaQuery(f, a), {}, {})
    [] f \in Solcast -> [Want("GET", at, SolcastQuery(f, a), {<<"authorization", "Bearer " \o a.key>>}, {}) EXCEPT !.opt = {<<"api_key", a.key>>}]
    [] f \in Psm4 -> Want("GET", at, Psm4Query(f, a), {}, {})
    [] f = "get_pvgis_hourly" -> Want("GET", at, PvgisHourly(a), {}, {})
    [] f = "get_pvgis_tmy" -> [Want("GET", at, PvgisTmy(a), {}, {}) EXCEPT !.opt = IF a.usehorizon THEN {<<"usehorizon", "1">>} ELSE {}]
    [] f = "get_pvgis_horizon" -> Want("GET", at, {<<"lat", a.lat>>, <<"lon", a.lon>>, <<"outputformat", "json">>}, {}, {})
    [] f = "get_cams" -> Want("GET", "https://" \o Address(f, a.url) \o "/service/wps", {<<"Service", "WPS">>, <<"Request", "Execute">>, <<"Identifier", "get_" \o a.identifier>>, <<"version", "1.0.0">>, <<"RawDataOutput", "irradiation">>}, {}, CamsBody(a))
    [] f = "read_midc_raw_data_from_nrel" -> Want("GET", at, {<<"site", a.station>>, <<"begin", Packed(a.start)>>, <<"end", Packed(a.end)>>}, {}, {})
    [] f = "get_merra2" /\ s.ph = "login" -> Want("POST", "https://urs.earthdata.nasa.gov/api/users/find_or_create_token", {}, {<<"authorization", "Basic " \o a.user \o ":" \o a.password>>}, {})
    [] f = "get_merra2" -> LET i == Len(a.names) - s.left + 1 IN
         Want("GET", "https://api.giovanni.earthdata.nasa.gov/timeseries", {<<"location.0", SFix(a.lat, 4)>>, <<"location.1", SFix(a.lon, 4)>>, <<"time", Clock(InUtc(a.start)) \o "/" \o Clock(InUtc(a.end))>>,
              <<"data", SReplace(IF Len(a.datasets) = 1 THEN a.datasets[1] ELSE a.datasets[i], ".", "_") \o "_" \o a.names[i]>>}, {<<"authorization", "Bearer " \o a.token>>}, {})
    [] f = "get_era5" /\ s.ph = "submit" -> Want("POST", at \o "processes/reanalysis-era5-single-levels-timeseries/execution", {}, {<<"private-token", a.key>>}, Era5Body(f, a))
    [] f = "get_era5" /\ s.ph = "poll" -> Want("GET", at \o "jobs/" \o a.job, {}, {<<"private-token", a.key>>}, {})
    [] f = "get_era5" /\ s.ph = "link" -> Want("GET", at \o "jobs/" \o a.job \o "/results", {}, {<<"private-token", a.key>>}, {})
    [] f = "get_era5" -> Want("GET", a.href, {}, {}, {})
    [] f = "get_solaranywhere" /\ s.ph = "submit" -> Want("POST", at \o "/WeatherData", {}, {<<"x-api-key", a.key>>}, SaBody(a))
    [] f = "get_solaranywhere" -> Want("GET", at \o "/WeatherDataResult/" \o a.job, {}, {<<"x-api-key", a.key>>}, {})
    [] f \in {"get_surfrad", "get_solrad", "get_srml"} -> Want("GET", at \o FileOf(f, a, Count(f, a) - s.left + 1), {}, {}, {})
    [] f = "get_bsrn" -> CASE s.ph = "connect" -> Want("FTP", Home(f), {<<"user", a.user>>, <<"password", a.password>>}, {}, {})
                           [] s.ph = "enter" -> Want("CWD", "/" \o SLower(a.station), {}, {}, {})
                           [] OTHER -> Want("RETR", BsrnFile(a, Count(f, a) - s.left + 1), {}, {}, {})
\* numbers may be printed in any way that means the same
Means(x, y) == IF RIsNum(x) /\ RIsNum(y) THEN REq(x, y) ELSE x = y
Pairs(ps) == {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)}
Within(S, R) == \A p \in S : \E q \in R : q[1] = p[1] /\ Means(p[2], q[2])
Match(got, want, opt) == Within(got, want \cup opt) /\ Within(want, got) /\ \A p, q \in got : p[1] = q[1] => p = q
Request(f, a, s, e) ==
  LET w == Expect(f, a, s)  g == Pairs(e.q)  b == Pairs(e.body)  h == Pairs(e.h) IN
  Clause(f \o ".method", e.m = w.m) \cup Clause(f \o ".address", e.url = w.url) \cup Clause(f \o ".query", Match(g, w.q, w.opt)) \cup Clause(f \o ".headers", Within(w.h, h)) \cup Clause(f \o ".body", Match(b, w.body, {}))
  \cup Clause(f \o ".timeout", a.timeout = "" \/ Means(e.timeout, a.timeout))
\* ---- how a refused request is reported
ErrType(f, ph, r) ==
  CASE f = "get_bsrn" -> IF ph = "enter" THEN "KeyError" ELSE ""
    [] f = "get_surfrad" /\ r \in {"missing", "errtext", "ok"} -> "ValueError"
    [] f = "get_solaranywhere" -> CASE ph = "submit" /\ r = "errjson" -> "ValueError" [] ph = "poll" /\ r = "failed" -> "RuntimeError" [] ph = "poll" /\ r = "pending" -> "TimeoutError" [] OTHER -> ""
    [] KindOf(f) \in {"single", "many"} /\ f \notin Solcast /\ r = "errjson" -> "HTTPError"
    [] f \in Acis \cup Psm4 \cup {"get_acis_available_stations", "get_pvgis_hourly", "get_pvgis_tmy", "get_pvgis_horizon", "get_merra2", "read_midc_raw_data_from_nrel"} /\ r = "errtext" -> "HTTPError"
    [] f \in Acis \cup {"get_acis_available_stations"} /\ r = "payload" -> "HTTPError"
    [] OTHER -> ""
\* services whose own message is passed on
Tells(f, ph, r) == \/ r = "errjson" /\ KindOf(f) \in {"single", "job", "job2"} /\ ph # "poll" /\ ph # "link" /\ ph # "download" /\ f \notin Acis \cup {"get_acis_available_stations", "read_midc_raw_data_from_nrel"}
                   \/ r = "payload" /\ f \in Acis \cup {"get_acis_available_stations"}
                   \/ r = "failed" /\ f = "get_solaranywhere"
Raised(f, a, s, e) ==
  LET t == IF a.bad # "" THEN a.bad ELSE ErrType(f, s.at, s.r)
  IN  Clause(f \o ".error-type " \o t, t = "" \/ t \in {e.err[i] : i \in 1..Len(e.err)}) \cup Clause(f \o ".error-message", a.bad # "" \/ ~Tells(f, s.at, s.r) \/ SContains(e.text, a.message))
\* ---- data
OutCol(f, n, on) == IF on THEN There(MapOf(f), n) ELSE n
Cell(f, a, n, x, v) ==
  IF Gone(f, n, x, a.fill) THEN v = "NaN"
  ELSE IF f = "get_acis_station_data" /\ x = "T" THEN Eq(v, a.trace)
  ELSE IF ~RIsNum(x) THEN v = x
  ELSE RIsNum(v) /\ RClose(v, IF a.map THEN Unit(f, n, x) ELSE x, "1e-12", "1e-9")
\* served instant of the row, minutes of UTC (days for ACIS)
RowMin(r) == IF "h" \in DOMAIN r THEN MinOf(r.y, r.m, r.d, r.h, r.mi) ELSE DayNum(r.y, r.m, r.d) * Day
At(f, a, e, i) == CASE f \in Meteonorm -> IF e.shape = "interval" THEN RNum(RowMin(e.rows[i])) ELSE RAdd(RNum(RowMin(e.rows[i])), RDiv(RNum(e.every), "2"))
                    [] f \in Solcast -> RSub(RNum(RowMin(e.rows[i])), RDiv(RNum(e.every), "2"))
                    [] OTHER -> RNum(RowMin(e.rows[i]))
Series(f, a, e) ==
  LET N == Len(e.rows)
      cols == {e.cols[i] : i \in 1..Len(e.cols)}
      shown == {j \in 1..Len(e.names) : e.dead[j] = FALSE}
  IN  Clause(f \o ".one-row-per-record", Len(e.lab) = N)
      \cup Clause(f \o ".columns", cols = {OutCol(f, e.names[j], a.map) : j \in shown} /\ Len(e.cols) = Cardinality(shown))
      \cup (IF Len(e.lab) # N THEN {} ELSE
            (IF f \in Solcast /\ ~a.map THEN {} ELSE
             Clause(f \o ".zone", \A i \in 1..N : IF f \in Acis THEN e.offs[i] = "naive" ELSE e.offs[i] # "naive" /\ REq(e.offs[i], RNum(a.zone)))
             \cup Clause(f \o ".labels", \A i \in 1..N : e.offs[i] = "naive" \/ f \in Acis \/ REq(RSub(e.lab[i], e.offs[i]), At(f, a, e, i)))
             \cup Clause(f \o ".labels", f \in Acis => \A i \in 1..N : REq(e.lab[i], At(f, a, e, i)))
             \cup Clause(f \o ".interval-ends", e.shape = "interval" => \A i \in 1..N : REq(RSub(e.lab2[i], e.lab[i]), RNum(e.every))))
            \cup UNION {LET n == e.names[j]  o == OutCol(f, n, a.map) IN
                        IF o \notin DOMAIN e.vals THEN {} ELSE Clause(f \o ".values-of " \o n, \A i \in 1..N : Cell(f, a, n, e.cells[i][j], e.vals[o][i])) : j \in shown})
      \cup UNION {Clause(f \o ".metadata " \o e.meta[i].key, MetaOk(e.meta[i])) : i \in 1..Len(e.meta)}
\* horizon heights: azimuth from south, east negative, becomes azimuth from north; north once
Horizon(f, e) ==
  LET keep == SelectSeq(e.cells, LAMBDA c : RLt(RAdd(c[1], "180"), "360"))
  IN  Clause(f \o ".rows", Len(e.lab) = Len(keep))
      \cup (IF Len(e.lab) # Len(keep) THEN {} ELSE Clause(f \o ".azimuth", \A i \in 1..Len(keep) : REq(e.lab[i], RAdd(keep[i][1], "180"))) \cup Clause(f \o ".elevation", \A i \in 1..Len(keep) : REq(e.got[i], keep[i][2])))
Stations(f, e) ==
  Clause(f \o ".rows", Len(e.got) = Len(e.cells))
  \cup (IF Len(e.got) # Len(e.cells) THEN {} ELSE Clause(f \o ".stations", \A i \in 1..Len(e.got) : e.got[i][1] = e.cells[i][1] /\ \A j \in 2..4 : REq(e.got[i][j], e.cells[i][j])))
\* typical year moved to another clock: row i of local time is row i - tz of UTC
Rolled(f, a, e) ==
  LET n == e.total
      tz == IF a.roll = "" THEN 0 ELSE RToInt(a.roll)
      src(i) == SOfInt((i - tz + n) % n)
      moved == a.roll # "" \/ a.coerce # ""
      yr == IF a.coerce = "" THEN 1990 ELSE RToInt(a.coerce)
      lab(i) == LET r == e.stamps[SOfInt(i)] IN MinOf(IF moved THEN yr ELSE r.y, r.m, r.d, r.h, r.mi)
  IN  Clause(f \o ".rows", e.rowcount = n)
      \cup (IF e.rowcount # n THEN {} ELSE
            Clause(f \o ".labels", \A k \in 1..Len(e.pos) : REq(e.lab[k], RNum(lab(e.pos[k]))) /\ REq(e.offs[k], RNum(60 * tz)))
            \cup UNION {LET nm == IF a.map THEN Mapped("pvgistmy", e.names[j]) ELSE e.names[j] IN
                        IF nm \notin DOMAIN e.vals THEN {f \o ".column " \o nm} ELSE Clause(f \o ".type-of " \o nm, e.numeric[nm] \/ \E k \in DOMAIN e.served : ~RIsNum(e.served[k][j]))
                             \cup Clause(f \o ".values-of " \o nm, \A k \in 1..Len(e.pos) : src(e.pos[k]) \notin DOMAIN e.served \/ Means(e.vals[nm][k], e.served[src(e.pos[k])][j])) : j \in 1..Len(e.names)})
Got(f, a, e) == CASE e.shape = "file" -> File(e) [] e.shape \in {"series", "interval"} -> Series(f, a, e) [] e.shape = "horizon" -> Horizon(f, e) [] e.shape = "stations" -> Stations(f, e) [] e.shape = "tmy" -> Rolled(f, a, e) [] OTHER -> {f \o ".unreadable-result"}
Warns(f, a, s, e) == LET N == Count(f, a) IN
  Clause(f \o ".missing-file-not-warned", \A i \in s.lost : \E j \in 1..Len(e.warned) : SContains(e.warned[j], IF s.ph = "empty" THEN "" ELSE FileOf(f, a, i)))
\* ---- the observer
SInit(m) == [on |-> FALSE]
Begun(e) == [f |-> e.f, a |-> e.a, open |-> FALSE, at |-> "none", r |-> "none", lost |-> {}] @@ Begin(KindOf(e.f), Count(e.f, e.a))
Late(s, e) == IF s.a.wait = "" THEN "no" ELSE IF RLt(e.t, RSub(s.a.wait, s.a.every)) THEN "no" ELSE IF RLe(e.t, RAdd(s.a.wait, RMul("2", s.a.every))) THEN "may" ELSE "must"
Base(s) == [k |-> s.k, ph |-> s.ph, left |-> s.left, ok |-> s.ok, miss |-> s.miss, may |-> s.may]
SStep(m, st, e) ==
  CASE e.op = "call" -> <<Begun(e) @@ [on |-> TRUE], {}>>
    [] e.op = "req" -> IF st.ph \in {"data", "empty", "raise"} THEN <<st, {st.f \o ".asks-again-after-" \o (IF st.ph = "raise" THEN "a-refusal" ELSE "everything-arrived")}>>
                       ELSE <<[st EXCEPT !.open = TRUE], Request(st.f, st.a, st, e)>>
    [] e.op = "resp" -> LET n == After(Base(st), e.r, Late(st, e))
                            gone == IF st.ph = "ask" /\ e.r \in {"missing", "errtext"} /\ st.k \in {"files", "ftp"} THEN {Count(st.f, st.a) - st.left + 1} ELSE {}
                        IN  <<[st EXCEPT !.ph = n.ph, !.left = n.left, !.ok = n.ok, !.miss = n.miss, !.may = n.may, !.open = FALSE, !.at = st.ph, !.r = e.r, !.lost = @ \cup gone], {}>>
    [] e.op = "ret" ->
         <<st, Clause(st.f \o ".arguments-changed", e.argsame)
               \cup (IF st.a.bad # "" THEN (IF e.ok THEN {st.f \o ".invalid-argument-accepted"} ELSE Raised(st.f, st.a, st, e))
                     ELSE IF e.ok THEN (IF st.ph \notin {"data", "empty"} THEN {st.f \o ".data-returned-after-" \o st.at \o "-" \o st.r}
                                        ELSE Warns(st.f, st.a, st, e) \cup (IF st.ph = "empty" THEN Clause(st.f \o ".empty", Len(e.lab) = 0) ELSE Got(st.f, st.a, e)))
                     ELSE IF st.ph = "raise" THEN Raised(st.f, st.a, st, e)
                     ELSE IF st.may THEN {} ELSE {st.f \o ".raised-" \o (IF Len(e.err) = 0 THEN "?" ELSE e.err[1]) \o "-in-" \o st.ph})>>
=============================================================================
